// C11: dequantisation and inverse transforms; C12: forward transforms and residue
#include "sym.h"
#include "decoder.hh"
#include "frame.hh"
#include "block.hh"
#include "quantization.hh"

static void any_coeffs( DCTCoefficients & c, int lim )
{
  for ( int i = 0; i < 16; i++ ) c.at( i ) = sym_range( "coefficient", -lim, lim );
}

extern "C" void dequantise( void )
{
  DCTCoefficients c; int v[ 16 ];
  for ( int i = 0; i < 16; i++ ) { v[ i ] = sym_range( "coefficient", -2048, 2048 ); c.at( i ) = v[ i ]; }
  const int dc = sym_range( "dc step", 4, 314 ); const int ac = sym_range( "ac step", 4, 440 );
  const DCTCoefficients d = c.dequantize( std::make_pair( (uint16_t) dc, (uint16_t) ac ) );
  for ( int i = 0; i < 16; i++ ) {
    sym_assert( d.at( i ) == (int16_t) ( v[ i ] * ( i ? ac : dc ) ), "dequantised coefficient" );
    sym_assert( c.at( i ) == v[ i ], "input untouched" );
  }
  sym_reach( "dequantised" );
}

/* RFC 6386 14.3: vp8_short_inv_walsh4x4_c */
static void ref_iwht( const int * in, int * out )
{
  int t[ 16 ];
  for ( int i = 0; i < 4; i++ ) {
    const int a1 = in[ i ] + in[ 12 + i ], b1 = in[ 4 + i ] + in[ 8 + i ], c1 = in[ 4 + i ] - in[ 8 + i ], d1 = in[ i ] - in[ 12 + i ];
    t[ i ] = a1 + b1; t[ 4 + i ] = c1 + d1; t[ 8 + i ] = a1 - b1; t[ 12 + i ] = d1 - c1;
  }
  for ( int i = 0; i < 4; i++ ) {
    const int * p = t + 4 * i;
    const int a1 = p[ 0 ] + p[ 3 ], b1 = p[ 1 ] + p[ 2 ], c1 = p[ 1 ] - p[ 2 ], d1 = p[ 0 ] - p[ 3 ];
    out[ 4 * i ] = ( a1 + b1 + 3 ) >> 3; out[ 4 * i + 1 ] = ( c1 + d1 + 3 ) >> 3; out[ 4 * i + 2 ] = ( a1 - b1 + 3 ) >> 3; out[ 4 * i + 3 ] = ( d1 - c1 + 3 ) >> 3;
  }
}
extern "C" void iwht( void )
{
  const int lim = sym_param( "lim", 2040 );
  DCTCoefficients c; any_coeffs( c, lim );
  int in[ 16 ], want[ 16 ]; for ( int i = 0; i < 16; i++ ) in[ i ] = c.at( i );
  SafeArray<SafeArray<DCTCoefficients, 4>, 4> out;
  for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 4; j++ ) for ( int k = 0; k < 16; k++ ) out.at( i ).at( j ).at( k ) = 100 * i + 10 * j + k;
  c.iwht( out );
  ref_iwht( in, want );
  for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 4; j++ ) {
    sym_assert( out.at( i ).at( j ).at( 0 ) == want[ 4 * i + j ], "inverse WHT output" );
    for ( int k = 1; k < 16; k++ ) sym_assert( out.at( i ).at( j ).at( k ) == 100 * i + 10 * j + k, "inverse WHT writes only DC" );
  }
  sym_reach( "iwht" );
}

/* RFC 6386 14.4 / vp8_short_idct4x4llm_c: vertical pass first */
static int mul1( int x ) { return x + ( ( x * 20091 ) >> 16 ); }
static int mul2( int x ) { return ( x * 35468 ) >> 16; }
static void ref_idct( const int * in, int * out )
{
  int t[ 16 ];
  for ( int i = 0; i < 4; i++ ) {
    const int a1 = in[ i ] + in[ 8 + i ], b1 = in[ i ] - in[ 8 + i ];
    const int c1 = mul2( in[ 4 + i ] ) - mul1( in[ 12 + i ] ), d1 = mul1( in[ 4 + i ] ) + mul2( in[ 12 + i ] );
    t[ i ] = a1 + d1; t[ 12 + i ] = a1 - d1; t[ 4 + i ] = b1 + c1; t[ 8 + i ] = b1 - c1;
  }
  for ( int i = 0; i < 4; i++ ) {
    const int * p = t + 4 * i; int * o = out + 4 * i;
    const int a1 = p[ 0 ] + p[ 2 ], b1 = p[ 0 ] - p[ 2 ];
    const int c1 = mul2( p[ 1 ] ) - mul1( p[ 3 ] ), d1 = mul1( p[ 1 ] ) + mul2( p[ 3 ] );
    o[ 0 ] = ( a1 + d1 + 4 ) >> 3; o[ 3 ] = ( a1 - d1 + 4 ) >> 3; o[ 1 ] = ( b1 + c1 + 4 ) >> 3; o[ 2 ] = ( b1 - c1 + 4 ) >> 3;
  }
}
static int c255( int x ) { return x < 0 ? 0 : x > 255 ? 255 : x; }

extern "C" void idct( void )
{
  const int lim = sym_param( "lim", 2200 );
  TwoD<uint8_t> plane( 16u, 8u );
  uint8_t before[ 8 ][ 16 ];
  for ( int y = 0; y < 8; y++ ) for ( int x = 0; x < 16; x++ ) { before[ y ][ x ] = 200 - 10 * y - x; }
  for ( int y = 4; y < 8; y++ ) for ( int x = 4; x < 8; x++ ) before[ y ][ x ] = sym_u8( "prediction" );
  for ( int y = 0; y < 8; y++ ) for ( int x = 0; x < 16; x++ ) plane.at( x, y ) = before[ y ][ x ];
  VP8Raster::Block4 block( 1, 1, plane );
  DCTCoefficients c;
  const int only = sym_param( "dconly", 0 );
  if ( only ) c.at( 0 ) = sym_range( "dc", -lim, lim ); else any_coeffs( c, lim );
  int in[ 16 ], want[ 16 ]; for ( int i = 0; i < 16; i++ ) in[ i ] = c.at( i );
  c.idct_add( block );
  ref_idct( in, want );
  for ( int y = 0; y < 8; y++ ) for ( int x = 0; x < 16; x++ ) {
    if ( y >= 4 and x >= 4 and x < 8 ) sym_assert( plane.at( x, y ) == c255( before[ y ][ x ] + want[ 4 * ( y - 4 ) + x - 4 ] ), "inverse DCT added to prediction" );
    else sym_assert( plane.at( x, y ) == before[ y ][ x ], "pixel outside the block untouched" );
  }
  sym_reach( "idct" );
}

/* reference encoder: vp8_short_fdct4x4_c, vp8_short_walsh4x4_c */
extern "C" void fdct( void )
{
  TwoD<uint8_t> src( 16u, 8u ), pred( 16u, 4u );
  int in[ 16 ];
  for ( int y = 0; y < 4; y++ ) for ( int x = 0; x < 4; x++ ) {
    src.at( 4 + x, 4 + y ) = sym_u8( "source" ); pred.at( 8 + x, y ) = sym_u8( "prediction" );
    in[ 4 * y + x ] = (int) src.at( 4 + x, 4 + y ) - (int) pred.at( 8 + x, y );
  }
  VP8Raster::Block4 block( 1, 1, src );
  TwoDSubRange<uint8_t, 4, 4> p( pred, 8, 0 );
  DCTCoefficients c; c.subtract_dct( block, p );
  int t[ 16 ], want[ 16 ];
  for ( int i = 0; i < 4; i++ ) {
    const int * ip = in + 4 * i; int * op = t + 4 * i;
    const int a1 = ( ip[ 0 ] + ip[ 3 ] ) * 8, b1 = ( ip[ 1 ] + ip[ 2 ] ) * 8, c1 = ( ip[ 1 ] - ip[ 2 ] ) * 8, d1 = ( ip[ 0 ] - ip[ 3 ] ) * 8;
    op[ 0 ] = a1 + b1; op[ 2 ] = a1 - b1;
    op[ 1 ] = ( c1 * 2217 + d1 * 5352 + 14500 ) >> 12; op[ 3 ] = ( d1 * 2217 - c1 * 5352 + 7500 ) >> 12;
  }
  for ( int i = 0; i < 4; i++ ) {
    const int a1 = t[ i ] + t[ 12 + i ], b1 = t[ 4 + i ] + t[ 8 + i ], c1 = t[ 4 + i ] - t[ 8 + i ], d1 = t[ i ] - t[ 12 + i ];
    want[ i ] = ( a1 + b1 + 7 ) >> 4; want[ 8 + i ] = ( a1 - b1 + 7 ) >> 4;
    want[ 4 + i ] = ( ( c1 * 2217 + d1 * 5352 + 12000 ) >> 16 ) + ( d1 != 0 ); want[ 12 + i ] = ( d1 * 2217 - c1 * 5352 + 51000 ) >> 16;
  }
  for ( int i = 0; i < 16; i++ ) sym_assert( c.at( i ) == want[ i ], "forward DCT of the residue" );
  sym_reach( "fdct" );
}

extern "C" void fwht( void )
{
  const int lim = sym_param( "lim", 2040 );
  SafeArray<int16_t, 16> input; int in[ 16 ], t[ 16 ];
  for ( int i = 0; i < 16; i++ ) { in[ i ] = sym_range( "dc", -lim, lim ); input.at( i ) = in[ i ]; }
  DCTCoefficients c; c.wht( input );
  for ( int i = 0; i < 4; i++ ) {
    const int * ip = in + 4 * i; int * op = t + 4 * i;
    const int a1 = ( ip[ 0 ] + ip[ 2 ] ) * 4, d1 = ( ip[ 1 ] + ip[ 3 ] ) * 4, c1 = ( ip[ 1 ] - ip[ 3 ] ) * 4, b1 = ( ip[ 0 ] - ip[ 2 ] ) * 4;
    op[ 0 ] = a1 + d1 + ( a1 != 0 ); op[ 1 ] = b1 + c1; op[ 2 ] = b1 - c1; op[ 3 ] = a1 - d1;
  }
  for ( int i = 0; i < 4; i++ ) {
    const int a1 = t[ i ] + t[ 8 + i ], d1 = t[ 4 + i ] + t[ 12 + i ], c1 = t[ 4 + i ] - t[ 12 + i ], b1 = t[ i ] - t[ 8 + i ];
    int a2 = a1 + d1, b2 = b1 + c1, c2 = b1 - c1, d2 = a1 - d1;
    a2 += a2 < 0; b2 += b2 < 0; c2 += c2 < 0; d2 += d2 < 0;
    const int w[ 4 ] = { ( a2 + 3 ) >> 3, ( b2 + 3 ) >> 3, ( c2 + 3 ) >> 3, ( d2 + 3 ) >> 3 };
    for ( int k = 0; k < 4; k++ ) sym_assert( c.at( 4 * k + i ) == w[ k ], "forward WHT" );
  }
  sym_reach( "fwht" );
}
