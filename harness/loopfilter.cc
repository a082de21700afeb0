// C15: loop-filter pixel arithmetic; C16: loop-filter strength
#include "sym.h"
#include "decoder.hh"
#include "frame.hh"
#include "macroblock.hh"
#include "loopfilter.hh"

/* RFC 6386 section 15, on one line of samples across an edge: p[-4..-1] before it, p[0..3] after it */
static int c8( int v ) { return v < -128 ? -128 : v > 127 ? 127 : v; }
static int ad( int a, int b ) { return a > b ? a - b : b - a; }
static int u2s( int v ) { return v - 128; }
static uint8_t s2u( int v ) { return (uint8_t) ( v + 128 ); }
static bool ref_mask( const uint8_t * p, int s, int I, int E )
{
  return ( ad( p[ -s ], p[ 0 ] ) * 2 + ad( p[ -2 * s ], p[ s ] ) / 2 <= E ) & ( ad( p[ -4 * s ], p[ -3 * s ] ) <= I ) & ( ad( p[ -3 * s ], p[ -2 * s ] ) <= I ) & ( ad( p[ -2 * s ], p[ -s ] ) <= I )
    & ( ad( p[ 3 * s ], p[ 2 * s ] ) <= I ) & ( ad( p[ 2 * s ], p[ s ] ) <= I ) & ( ad( p[ s ], p[ 0 ] ) <= I );
}
static bool ref_hev( const uint8_t * p, int s, int t ) { return ( ad( p[ -2 * s ], p[ -s ] ) > t ) | ( ad( p[ s ], p[ 0 ] ) > t ); }
static void ref_sub( uint8_t * p, int s, int I, int E, int t )
{
  const bool m = ref_mask( p, s, I, E ), hv = ref_hev( p, s, t );
  const int p1 = u2s( p[ -2 * s ] ), p0 = u2s( p[ -s ] ), q0 = u2s( p[ 0 ] ), q1 = u2s( p[ s ] );
  const int w = c8( ( hv ? c8( p1 - q1 ) : 0 ) + 3 * ( q0 - p0 ) );
  const int a = c8( w + 4 ) >> 3, b = c8( w + 3 ) >> 3, o = ( a + 1 ) >> 1;
  p[ 0 ] = m ? s2u( c8( q0 - a ) ) : p[ 0 ]; p[ -s ] = m ? s2u( c8( p0 + b ) ) : p[ -s ];
  p[ s ] = m & not hv ? s2u( c8( q1 - o ) ) : p[ s ]; p[ -2 * s ] = m & not hv ? s2u( c8( p1 + o ) ) : p[ -2 * s ];
}
static void ref_mb( uint8_t * p, int s, int I, int E, int t )
{
  const bool m = ref_mask( p, s, I, E ), hv = ref_hev( p, s, t );
  const int p2 = u2s( p[ -3 * s ] ), p1 = u2s( p[ -2 * s ] ), p0 = u2s( p[ -s ] ), q0 = u2s( p[ 0 ] ), q1 = u2s( p[ s ] ), q2 = u2s( p[ 2 * s ] );
  const int w = c8( c8( p1 - q1 ) + 3 * ( q0 - p0 ) );
  const int a = c8( w + 4 ) >> 3, b = c8( w + 3 ) >> 3, a27 = c8( ( 27 * w + 63 ) >> 7 ), a18 = c8( ( 18 * w + 63 ) >> 7 ), a9 = c8( ( 9 * w + 63 ) >> 7 );
  p[ 0 ] = m ? s2u( c8( q0 - ( hv ? a : a27 ) ) ) : p[ 0 ]; p[ -s ] = m ? s2u( c8( p0 + ( hv ? b : a27 ) ) ) : p[ -s ];
  p[ s ] = m & not hv ? s2u( c8( q1 - a18 ) ) : p[ s ]; p[ -2 * s ] = m & not hv ? s2u( c8( p1 + a18 ) ) : p[ -2 * s ];
  p[ 2 * s ] = m & not hv ? s2u( c8( q2 - a9 ) ) : p[ 2 * s ]; p[ -3 * s ] = m & not hv ? s2u( c8( p2 + a9 ) ) : p[ -3 * s ];
}

static const int N = 48;
struct Pic { uint8_t y[ N ][ N ], u[ N / 2 ][ N / 2 ], v[ N / 2 ][ N / 2 ]; };
static Pic pic;

/* one edge type of the macroblock at column 1, row 1 of a 3x3 picture */
extern "C" void edges( void )
{
  const int kind = sym_param( "kind", 0 ); /* 0 left, 1 inner vertical, 2 top, 3 inner horizontal */
  const int only = sym_param( "plane", 0 ); /* which plane is arbitrary */
  const int I = sym_range( "interior limit", 1, 63 ), E = sym_range( "edge limit", 0, 193 ), t = sym_range( "hev threshold", 0, 3 );
  VP8Raster raster( N, N );
  for ( int y = 0; y < N; y++ ) for ( int x = 0; x < N; x++ ) pic.y[ y ][ x ] = 100;
  for ( int y = 0; y < N / 2; y++ ) for ( int x = 0; x < N / 2; x++ ) pic.u[ y ][ x ] = pic.v[ y ][ x ] = 100;
  if ( only == 0 ) { for ( int y = 12; y < 32; y++ ) for ( int x = 12; x < 32; x++ ) pic.y[ y ][ x ] = sym_u8( "luma" ); }
  else for ( int y = 4; y < 16; y++ ) for ( int x = 4; x < 16; x++ ) { pic.u[ y ][ x ] = sym_u8( "U" ); pic.v[ y ][ x ] = sym_u8( "V" ); }
  for ( int y = 0; y < N; y++ ) for ( int x = 0; x < N; x++ ) raster.Y().at( x, y ) = pic.y[ y ][ x ];
  for ( int y = 0; y < N / 2; y++ ) for ( int x = 0; x < N / 2; x++ ) { raster.U().at( x, y ) = pic.u[ y ][ x ]; raster.V().at( x, y ) = pic.v[ y ][ x ]; }

  FilterParameters fp( false, 10, 0 );
  NormalLoopFilter f( false, fp );
  f.simple_.interior_limit_vector_.fill( I ); f.hev_threshold_vector_.fill( t );
  f.simple_.macroblock_limit_vector_.fill( E ); f.simple_.subblock_limit_vector_.fill( E );
  VP8Raster::Macroblock mb = raster.macroblock( 1, 1 );
  switch ( kind ) {
  case 0: f.filter_mb_vertical( mb ); break;
  case 1: f.filter_sb_vertical( mb ); break;
  case 2: f.filter_mb_horizontal( mb ); break;
  case 3: f.filter_sb_horizontal( mb ); break;
  }
  for ( int y = 0; y < 16; y++ ) {
    if ( kind == 0 ) ref_mb( &pic.y[ 16 + y ][ 16 ], 1, I, E, t );
    if ( kind == 1 ) for ( int x = 4; x < 16; x += 4 ) ref_sub( &pic.y[ 16 + y ][ 16 + x ], 1, I, E, t );
    if ( kind == 2 ) ref_mb( &pic.y[ 16 ][ 16 + y ], N, I, E, t );
    if ( kind == 3 ) for ( int x = 4; x < 16; x += 4 ) ref_sub( &pic.y[ 16 + x ][ 16 + y ], N, I, E, t );
  }
  for ( int pl = 0; pl < 2; pl++ ) for ( int y = 0; y < 8; y++ ) {
    auto & q = pl ? pic.v : pic.u;
    if ( kind == 0 ) ref_mb( &q[ 8 + y ][ 8 ], 1, I, E, t );
    if ( kind == 1 ) ref_sub( &q[ 8 + y ][ 12 ], 1, I, E, t );
    if ( kind == 2 ) ref_mb( &q[ 8 ][ 8 + y ], N / 2, I, E, t );
    if ( kind == 3 ) ref_sub( &q[ 12 ][ 8 + y ], N / 2, I, E, t );
  }
  for ( int y = 0; y < N; y++ ) for ( int x = 0; x < N; x++ ) sym_assert( raster.Y().at( x, y ) == pic.y[ y ][ x ], "filtered luma" );
  for ( int y = 0; y < N / 2; y++ ) for ( int x = 0; x < N / 2; x++ ) { sym_assert( raster.U().at( x, y ) == pic.u[ y ][ x ], "filtered U" ); sym_assert( raster.V().at( x, y ) == pic.v[ y ][ x ], "filtered V" ); }
  sym_reach( "filtered" );
}
