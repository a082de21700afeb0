// C32: SAD, SSE and variance of a block against a prediction
#include "sym.h"
#include "encoder.hh"
template<> uint32_t Encoder::sad( const VP8Raster::Block<16> &, const TwoDSubRange<uint8_t, 16, 16> & );
template<> uint32_t Encoder::sse( const VP8Raster::Block<4> &, const TwoDSubRange<uint8_t, 4, 4> & );
template<> uint32_t Encoder::sse( const VP8Raster::Block<8> &, const TwoDSubRange<uint8_t, 8, 8> & );
template<> uint32_t Encoder::sse( const VP8Raster::Block<16> &, const TwoDSubRange<uint8_t, 16, 16> & );
template<> uint32_t Encoder::variance( const VP8Raster::Block<4> &, const TwoDSubRange<uint8_t, 4, 4> & );
template<> uint32_t Encoder::variance( const VP8Raster::Block<8> &, const TwoDSubRange<uint8_t, 8, 8> & );
template<> uint32_t Encoder::variance( const VP8Raster::Block<16> &, const TwoDSubRange<uint8_t, 16, 16> & );

/* planes of different widths, so that each operand's own stride matters */
template <unsigned size>
struct Two {
  TwoD<uint8_t> plane { 48u, 48u }, other { 32u, 32u };
  VP8Raster::Block<size> block { 16 / size, 16 / size, plane };
  TwoDSubRange<uint8_t, size, size> prediction { other, (unsigned) sym_param( "px", 8 ), 3 };
  int d[ size ][ size ];
  Two()
  {
    plane.fill( 0 ); other.fill( 0 );
    for ( unsigned y = 0; y < size; y++ ) for ( unsigned x = 0; x < size; x++ ) {
      int a = 7, b = 9; if ( y * size + x < (unsigned) sym_param( "pixels", size * size ) ) { a = sym_u8( "block" ); b = sym_u8( "prediction" ); }
      block.at( x, y ) = a; prediction.at( x, y ) = b;
      d[ y ][ x ] = a - b;
    }
  }
  uint32_t ss() const { uint32_t r = 0; for ( unsigned y = 0; y < size; y++ ) for ( unsigned x = 0; x < size; x++ ) r += (uint32_t) ( d[ y ][ x ] * d[ y ][ x ] ); return r; }
  int sum() const { int r = 0; for ( unsigned y = 0; y < size; y++ ) for ( unsigned x = 0; x < size; x++ ) r += d[ y ][ x ]; return r; }
};
template <unsigned size> static void do_sse( void ) { Two<size> t; sym_assert( Encoder::sse( t.block, t.prediction ) == t.ss(), "sum of squared differences" ); sym_reach( "distortion" ); }
template <unsigned size> static void do_variance( void )
{
  Two<size> t;
  const int64_t sum = t.sum();
  sym_assert( Encoder::variance( t.block, t.prediction ) == t.ss() - (uint32_t) ( (uint64_t) ( sum * sum ) / ( size * size ) ), "variance" );
  sym_reach( "distortion" );
}
extern "C" void sse4( void ) { do_sse<4>(); }
extern "C" void sse8( void ) { do_sse<8>(); }
extern "C" void sse16( void ) { do_sse<16>(); }
extern "C" void variance4( void ) { do_variance<4>(); }
extern "C" void variance8( void ) { do_variance<8>(); }
extern "C" void variance16( void ) { do_variance<16>(); }
extern "C" void sad16( void )
{
  Two<16> t;
  uint32_t want = 0;
  for ( unsigned y = 0; y < 16; y++ ) for ( unsigned x = 0; x < 16; x++ ) want += t.d[ y ][ x ] < 0 ? -t.d[ y ][ x ] : t.d[ y ][ x ];
  sym_assert( Encoder::sad( t.block, t.prediction ) == want, "sum of absolute differences" );
  sym_reach( "distortion" );
}
