// C13: intra prediction; C14: inter prediction
#include "sym.h"
#include "decoder.hh"
#include "frame.hh"
#include "block.hh"
#include "macroblock.hh"
#include "encoder.hh"

static int width, height;
static TwoD<uint8_t> * plane_;
static uint8_t before[ 32 ][ 32 ];

/* the picture as intra prediction sees it: 127 above the frame, 129 to its left */
static int P( int x, int y )
{
  if ( y < 0 ) return 127;
  if ( x < 0 ) return 129;
  return before[ y ][ x ];
}
static int c255( int x ) { return x < 0 ? 0 : x > 255 ? 255 : x; }

static void make_plane( int w, int h )
{
  width = w; height = h;
  for ( int y = 0; y < h; y++ ) for ( int x = 0; x < w; x++ ) before[ y ][ x ] = sym_u8( "pixel" );
}
static void fill( TwoD<uint8_t> & p ) { for ( int y = 0; y < height; y++ ) for ( int x = 0; x < width; x++ ) p.at( x, y ) = before[ y ][ x ]; }

/* RFC 6386 12.2 */
template <int size>
static void ref_whole( int mode, int x0, int y0, int out[ size ][ size ] )
{
  const int shift = size == 16 ? 3 : 2;
  int sum = 0, n = 0;
  if ( y0 > 0 ) { for ( int i = 0; i < size; i++ ) sum += P( x0 + i, y0 - 1 ); n++; }
  if ( x0 > 0 ) { for ( int i = 0; i < size; i++ ) sum += P( x0 - 1, y0 + i ); n++; }
  const int dc = n == 0 ? 128 : ( sum + ( 1 << ( shift + n - 1 ) ) ) >> ( shift + n );
  for ( int r = 0; r < size; r++ ) for ( int c = 0; c < size; c++ )
    out[ r ][ c ] = mode == DC_PRED ? dc : mode == V_PRED ? P( x0 + c, y0 - 1 ) : mode == H_PRED ? P( x0 - 1, y0 + r )
      : c255( P( x0 - 1, y0 + r ) + P( x0 + c, y0 - 1 ) - P( x0 - 1, y0 - 1 ) );
}

/* RFC 6386 12.3, subblock_intra_predict */
static void ref_sub( int mode, int bx, int by, int B[ 4 ][ 4 ] )
{
  const int x0 = 4 * bx, y0 = 4 * by;
  int edge[ 13 ]; int * const E = edge + 4; /* E[-4..-1] left, bottom to top; E[0] corner; E[1..8] above and above right */
  for ( int i = 0; i < 4; i++ ) E[ -1 - i ] = P( x0 - 1, y0 + i );
  for ( int i = -1; i < 4; i++ ) E[ 1 + i ] = P( x0 + i, y0 - 1 );
  const int ry = bx % 4 == 3 ? ( by / 4 ) * 16 - 1 : y0 - 1;
  for ( int i = 4; i < 8; i++ ) E[ 1 + i ] = ry < 0 ? 127 : P( x0 + i < width ? x0 + i : width - 1, ry );
  const int * const A = E + 1; int L[ 4 ]; for ( int i = 0; i < 4; i++ ) L[ i ] = E[ -1 - i ];
#define A2( x, y ) ( ( (x) + (y) + 1 ) >> 1 )
#define A3( x, y, z ) ( ( (x) + (y) + (y) + (z) + 2 ) >> 2 )
#define A3P( p ) A3( *( ( p ) - 1 ), *( p ), *( ( p ) + 1 ) )
  switch ( mode ) {
  case B_DC_PRED: { int v = 4; for ( int i = 0; i < 4; i++ ) v += A[ i ] + L[ i ]; v >>= 3; for ( int r = 0; r < 4; r++ ) for ( int c = 0; c < 4; c++ ) B[ r ][ c ] = v; break; }
  case B_TM_PRED: for ( int r = 0; r < 4; r++ ) for ( int c = 0; c < 4; c++ ) B[ r ][ c ] = c255( L[ r ] + A[ c ] - E[ 0 ] ); break;
  case B_VE_PRED: for ( int r = 0; r < 4; r++ ) for ( int c = 0; c < 4; c++ ) B[ r ][ c ] = A3( A[ c - 1 ], A[ c ], A[ c + 1 ] ); break;
  case B_HE_PRED: { const int b = A3( L[ 2 ], L[ 3 ], L[ 3 ] ); for ( int c = 0; c < 4; c++ ) { B[ 0 ][ c ] = A3( E[ 0 ], L[ 0 ], L[ 1 ] ); B[ 1 ][ c ] = A3( L[ 0 ], L[ 1 ], L[ 2 ] ); B[ 2 ][ c ] = A3( L[ 1 ], L[ 2 ], L[ 3 ] ); B[ 3 ][ c ] = b; } break; }
  case B_LD_PRED:
    B[0][0] = A3P( A + 1 ); B[0][1] = B[1][0] = A3P( A + 2 ); B[0][2] = B[1][1] = B[2][0] = A3P( A + 3 ); B[0][3] = B[1][2] = B[2][1] = B[3][0] = A3P( A + 4 );
    B[1][3] = B[2][2] = B[3][1] = A3P( A + 5 ); B[2][3] = B[3][2] = A3P( A + 6 ); B[3][3] = A3( A[ 6 ], A[ 7 ], A[ 7 ] ); break;
  case B_RD_PRED:
    B[3][0] = A3P( E - 3 ); B[3][1] = B[2][0] = A3P( E - 2 ); B[3][2] = B[2][1] = B[1][0] = A3P( E - 1 ); B[3][3] = B[2][2] = B[1][1] = B[0][0] = A3P( E );
    B[2][3] = B[1][2] = B[0][1] = A3P( E + 1 ); B[1][3] = B[0][2] = A3P( E + 2 ); B[0][3] = A3P( E + 3 ); break;
  case B_VR_PRED:
    B[3][0] = A3P( E - 2 ); B[2][0] = A3P( E - 1 ); B[3][1] = B[1][0] = A3P( E ); B[2][1] = B[0][0] = A2( E[ 0 ], E[ 1 ] );
    B[3][2] = B[1][1] = A3P( E + 1 ); B[2][2] = B[0][1] = A2( E[ 1 ], E[ 2 ] ); B[3][3] = B[1][2] = A3P( E + 2 ); B[2][3] = B[0][2] = A2( E[ 2 ], E[ 3 ] );
    B[1][3] = A3P( E + 3 ); B[0][3] = A2( E[ 3 ], E[ 4 ] ); break;
  case B_VL_PRED:
    B[0][0] = A2( A[ 0 ], A[ 1 ] ); B[1][0] = A3P( A + 1 ); B[2][0] = B[0][1] = A2( A[ 1 ], A[ 2 ] ); B[1][1] = B[3][0] = A3P( A + 2 );
    B[2][1] = B[0][2] = A2( A[ 2 ], A[ 3 ] ); B[3][1] = B[1][2] = A3P( A + 3 ); B[2][2] = B[0][3] = A2( A[ 3 ], A[ 4 ] ); B[3][2] = B[1][3] = A3P( A + 4 );
    B[2][3] = A3P( A + 5 ); B[3][3] = A3P( A + 6 ); break;
  case B_HD_PRED:
    B[3][0] = A2( E[ -4 ], E[ -3 ] ); B[3][1] = A3P( E - 3 ); B[2][0] = B[3][2] = A2( E[ -3 ], E[ -2 ] ); B[2][1] = B[3][3] = A3P( E - 2 );
    B[2][2] = B[1][0] = A2( E[ -2 ], E[ -1 ] ); B[2][3] = B[1][1] = A3P( E - 1 ); B[1][2] = B[0][0] = A2( E[ -1 ], E[ 0 ] ); B[1][3] = B[0][1] = A3P( E );
    B[0][2] = A3P( E + 1 ); B[0][3] = A3P( E + 2 ); break;
  case B_HU_PRED:
    B[0][0] = A2( L[ 0 ], L[ 1 ] ); B[0][1] = A3( L[ 0 ], L[ 1 ], L[ 2 ] ); B[0][2] = B[1][0] = A2( L[ 1 ], L[ 2 ] ); B[0][3] = B[1][1] = A3( L[ 1 ], L[ 2 ], L[ 3 ] );
    B[1][2] = B[2][0] = A2( L[ 2 ], L[ 3 ] ); B[1][3] = B[2][1] = A3( L[ 2 ], L[ 3 ], L[ 3 ] );
    B[2][2] = B[2][3] = B[3][0] = B[3][1] = B[3][2] = B[3][3] = L[ 3 ]; break;
  }
}

template <int size, class Ref, class Mode>
static void one( Mode mode, int bx, int by, const Ref & ref )
{
  int want[ size ][ size ];
  ref( want );
  { /* in place, as the decoder does */
    TwoD<uint8_t> plane( width, height ); fill( plane );
    VP8Raster::Block<size> b( bx, by, plane );
    b.intra_predict( mode );
    for ( int y = 0; y < height; y++ ) for ( int x = 0; x < width; x++ ) {
      const int r = y - size * by, c = x - size * bx;
      if ( r >= 0 and r < size and c >= 0 and c < size ) sym_assert( plane.at( x, y ) == want[ r ][ c ], "intra-predicted pixel" );
      else sym_assert( plane.at( x, y ) == before[ y ][ x ], "pixel outside the block untouched" );
    }
  }
  { /* into another picture, as the encoder does */
    TwoD<uint8_t> plane( width, height ), out( 48u, 24u ); fill( plane );
    out.fill( 7 );
    VP8Raster::Block<size> b( bx, by, plane );
    TwoDSubRange<uint8_t, size, size> o( out, 16, 4 );
    b.intra_predict( mode, b.predictors(), o );
    for ( int y = 0; y < 24; y++ ) for ( int x = 0; x < 48; x++ ) {
      const int r = y - 4, c = x - 16;
      if ( r >= 0 and r < size and c >= 0 and c < size ) sym_assert( out.at( x, y ) == want[ r ][ c ], "intra-predicted pixel, separate output" );
      else sym_assert( out.at( x, y ) == 7, "pixel outside the separate output untouched" );
    }
  }
}

extern "C" void intra_sub( void )
{
  make_plane( sym_param( "w", 32 ), sym_param( "h", 32 ) );
  const int by = sym_param( "row", 0 );
  for ( int bx = 0; 4 * bx < width; bx++ )
    for ( int m = B_DC_PRED; m <= B_HU_PRED; m++ )
      one<4>( (bmode) m, bx, by, [&] ( int B[ 4 ][ 4 ] ) { ref_sub( m, bx, by, B ); } );
  sym_reach( "intra" );
}
extern "C" void intra_luma( void )
{
  make_plane( 32, 32 );
  const int by = sym_param( "row", 0 ), bx = sym_param( "col", 0 );
  for ( int m = DC_PRED; m <= TM_PRED; m++ )
    one<16>( (mbmode) m, bx, by, [&] ( int B[ 16 ][ 16 ] ) { ref_whole<16>( m, 16 * bx, 16 * by, B ); } );
  sym_reach( "intra" );
}
extern "C" void intra_chroma( void )
{
  make_plane( 16, 16 );
  const int by = sym_param( "row", 0 ), bx = sym_param( "col", 0 );
  for ( int m = DC_PRED; m <= TM_PRED; m++ )
    one<8>( (mbmode) m, bx, by, [&] ( int B[ 8 ][ 8 ] ) { ref_whole<8>( m, 8 * bx, 8 * by, B ); } );
  sym_reach( "intra" );
}

/* ------------------------------------------------------------------ inter prediction: RFC 6386 18.3 */
static const int filters[ 8 ][ 6 ] = { { 0, 0, 128, 0, 0, 0 }, { 0, -6, 123, 12, -1, 0 }, { 2, -11, 108, 36, -8, 1 }, { 0, -9, 93, 50, -6, 0 },
                                       { 3, -16, 77, 77, -16, 3 }, { 0, -6, 50, 93, -9, 0 }, { 1, -8, 36, 108, -11, 2 }, { 0, -1, 12, 123, -6, 0 } };
/* px(x, y): the reference, x and y relative to the block's source position */
template <int size, class Px>
static void ref_sixtap( const Px & px, int mx, int my, int out[ size ][ size ] )
{
  uint8_t t[ size + 5 ][ size ];
  for ( int r = -2; r < size + 3; r++ ) for ( int c = 0; c < size; c++ ) {
    if ( my == 0 and ( r < 0 or r >= size ) ) { t[ r + 2 ][ c ] = 0; continue; }
    if ( mx == 0 ) { t[ r + 2 ][ c ] = px( c, r ); continue; }
    int v = 64; for ( int k = 0; k < 6; k++ ) if ( filters[ mx ][ k ] ) v += px( c + k - 2, r ) * filters[ mx ][ k ];
    t[ r + 2 ][ c ] = c255( v >> 7 );
  }
  for ( int r = 0; r < size; r++ ) for ( int c = 0; c < size; c++ ) {
    if ( my == 0 ) { out[ r ][ c ] = t[ r + 2 ][ c ]; continue; }
    int v = 64; for ( int k = 0; k < 6; k++ ) v += t[ r + k ][ c ] * filters[ my ][ k ];
    out[ r ][ c ] = c255( v >> 7 );
  }
}
static int edge_px( int x, int y ) { return before[ y < 0 ? 0 : y >= height ? height - 1 : y ][ x < 0 ? 0 : x >= width ? width - 1 : x ]; }

template <int size>
static void inter_one( int col, int row, const MotionVector & mv, const TwoD<uint8_t> & reference, int dx, int dy, int mx, int my )
{
  int want[ size ][ size ];
  ref_sixtap<size>( [&] ( int x, int y ) { return edge_px( size * col + dx + x, size * row + dy + y ); }, mx, my, want );
  TwoD<uint8_t> out( width, height ); out.fill( 7 );
  VP8Raster::Block<size> b( col, row, out );
  b.inter_predict( mv, reference );
  for ( int y = 0; y < height; y++ ) for ( int x = 0; x < width; x++ ) {
    const int r = y - size * row, c = x - size * col;
    if ( r >= 0 and r < size and c >= 0 and c < size ) sym_assert( out.at( x, y ) == want[ r ][ c ], "motion-compensated pixel" );
    else sym_assert( out.at( x, y ) == 7, "pixel outside the block untouched" );
  }
}
/* every sub-pixel phase, source inside the reference as near to its corner as the fast path allows */
template <int size>
static void phases( int w, int h, int col, int row, int dx, int dy )
{
  make_plane( w, h );
  TwoD<uint8_t> reference( w, h ); fill( reference );
  const int my = sym_param( "my", 0 );
  for ( int mx = 0; mx < 8; mx++ ) inter_one<size>( col, row, MotionVector( 8 * dx + mx, 8 * dy + my ), reference, dx, dy, mx, my );
  sym_reach( "inter" );
}
extern "C" void inter_phases( void )
{
  const int size = sym_param( "size", 4 ), last = sym_param( "last", 0 );
  if ( size == 4 ) phases<4>( 16, 16, 1, 2, last ? 5 : -2, last ? 1 : -6 );
  if ( size == 8 ) phases<8>( 16, 16, 0, 1, last ? 5 : 2, last ? -3 : -6 );
  if ( size == 16 ) phases<16>( 32, 32, 1, 0, last ? -3 : -14, last ? 13 : 2 );
}
/* a source position on, straddling or far off each side; far: any vector at all beyond that side */
template <int size>
static void place( int w, int h, int col, int row )
{
  make_plane( w, h );
  TwoD<uint8_t> reference( w, h ); fill( reference );
  const int mx = sym_param( "mx", 0 ), my = sym_param( "my", 0 );
  /* y as given; x over every position from just off the left to just off the right, then anything further out */
  const int yk = sym_param( "y", 0 ); /* -1: anything above, 1000: anything below, else source row + size + 4 */
  int dy, mvy;
  if ( yk < 0 ) { mvy = sym_range( "rows up", -4096, -size - 4 - size * row ); dy = -size - 4 - size * row; }
  else if ( yk == 1000 ) { dy = h + 3 - size * row; mvy = sym_range( "rows down", dy, 4095 ); }
  else { dy = mvy = yk - size - 4 - size * row; }
  for ( int x = -size - 4; x <= w + 3; x++ ) {
    const int dx = x - size * col;
    int mvx = dx;
    if ( x == -size - 4 ) mvx = sym_range( "columns left", -4096, dx );
    if ( x == w + 3 ) mvx = sym_range( "columns right", dx, 4095 );
    inter_one<size>( col, row, MotionVector( 8 * mvx + mx, 8 * mvy + my ), reference, dx, dy, mx, my );
  }
  sym_reach( "inter" );
}
extern "C" void inter_place( void )
{
  const int size = sym_param( "size", 4 );
  if ( size == 4 ) place<4>( 16, 16, sym_param( "col", 1 ), sym_param( "row", 2 ) );
  if ( size == 8 ) place<8>( 16, 16, 1, 0 );
  if ( size == 16 ) place<16>( 16, 16, 0, 0 );
}

/* the encoder's motion search predicts from a copy of the reference with a margin on every side */
static int bx_( const VP8Raster & r, int x, int y ) { const int w = r.width(), h = r.height(); return before[ y < 0 ? 0 : y >= h ? h - 1 : y ][ x < 0 ? 0 : x >= w ? w - 1 : x ]; }
static void safe_setup( VP8Raster & r )
{
  make_plane( r.width(), r.height() );
  fill( r.Y() );
}
extern "C" void safe_margin( void )
{
  VP8Raster raster( sym_param( "w", 17 ), sym_param( "h", 16 ) );
  safe_setup( raster );
  MutableSafeRasterHandle handle = SafeReferences::load( raster );
  const SafeRaster & safe = handle.get();
  const int m = SafeRaster::MARGIN_WIDTH, dw = raster.display_width(), dh = raster.display_height();
  sym_assert( m >= 200, "margin wide enough for any vector the search proposes" );
  for ( int y = -m; y < dh + m; y++ ) for ( int x = -m; x < dw + m; x++ ) sym_assert( safe.at( x, y ) == bx_( raster, x, y ), "edge-extended copy" );
  sym_reach( "margin" );
}
extern "C" void safe_inter( void )
{
  VP8Raster raster( sym_param( "w", 17 ), sym_param( "h", 17 ) );
  safe_setup( raster );
  MutableSafeRasterHandle handle = SafeReferences::load( raster );
  const SafeRaster & safe = handle.get();
  const int my = sym_param( "my", 0 );
  static const int at[ 6 ][ 2 ] = { { 3, 4 }, { -9, 20 }, { -150, -150 }, { 40, 25 }, { 160, 180 }, { 0, 0 } };
  for ( int mx = 0; mx < 8; mx++ ) {
    const int x0 = at[ ( mx + my ) % 6 ][ 0 ], y0 = at[ ( mx + my ) % 6 ][ 1 ];
    int want[ 16 ][ 16 ];
    ref_sixtap<16>( [&] ( int x, int y ) { return bx_( raster, x0 + x, y0 + y ); }, mx, my, want );
    TwoD<uint8_t> o( 48u, 24u ); o.fill( 7 );
    TwoDSubRange<uint8_t, 16, 16> out( o, 16, 4 );
    const int bc = mx & 1, br = my & 1;
    TwoD<uint8_t> host( 32u, 32u ); VP8Raster::Block<16> b( bc, br, host );
    b.inter_predict( MotionVector( 8 * ( x0 - 16 * bc ) + mx, 8 * ( y0 - 16 * br ) + my ), safe, out );
    for ( int y = 0; y < 24; y++ ) for ( int x = 0; x < 48; x++ ) {
      const int r = y - 4, c = x - 16;
      if ( r >= 0 and r < 16 and c >= 0 and c < 16 ) sym_assert( o.at( x, y ) == want[ r ][ c ], "motion-compensated pixel, margin copy" );
      else sym_assert( o.at( x, y ) == 7, "pixel outside the block untouched" );
    }
  }
  sym_reach( "inter" );
}
