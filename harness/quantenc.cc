// C33: encoder quantisation
#include "sym.h"
#include "decoder.hh"
#include "frame.hh"
#include "block.hh"
#include "quantization.hh"

static const int LARGEST = 2048 + 66;   // category 6: 67 plus eleven extra bits

template <class B> static void one( const Quantizer & q, const int ldc, const int lac )
{
  DCTCoefficients c; int v[ 16 ];
  for ( int i = 0; i < 16; i++ ) { v[ i ] = i ? sym_range( "coefficient", -lac, lac ) : sym_range( "coefficient", -ldc, ldc ); c.at( i ) = v[ i ]; }
  const DCTCoefficients quantised = B::quantize( q, c );
  TwoD<B> grid( 1, 1 ); B & block = grid.at( 0, 0 );
  block.mutable_coefficients() = quantised;
  const DCTCoefficients back = block.dequantize( q );
  const auto step = block.type() == BlockType::Y2 ? q.y2() : block.type() == BlockType::UV ? q.uv() : q.y();
  for ( int i = 0; i < 16; i++ ) {
    const int s = i ? step.second : step.first, d = v[ i ] - back.at( i );
    sym_assert( ( d < s ) & ( d > -s ), "changed by less than one step" );
    sym_assert( ( ( v[ i ] < 0 ) | ( quantised.at( i ) >= 0 ) ) & ( ( v[ i ] > 0 ) | ( quantised.at( i ) <= 0 ) ), "sign kept by quantising" );
    sym_assert( ( ( v[ i ] < 0 ) | ( back.at( i ) >= 0 ) ) & ( ( v[ i ] > 0 ) | ( back.at( i ) <= 0 ) ), "sign kept by dequantising" );
    sym_assert( ( quantised.at( i ) <= LARGEST ) & ( quantised.at( i ) >= -LARGEST ), "the token coder can represent the level" );
  }
}
static BoolDecoder & zeros() { static BoolDecoder z( Chunk( nullptr, 0 ) ); return z; }
extern "C" void levels( void )
{
  const int from = sym_param( "from", 0 ), upto = sym_param( "upto", 127 ), kind = sym_param( "kind", 0 );
  QuantIndices x( zeros() );
  x.y_dc.clear(); x.y2_dc.clear(); x.y2_ac.clear(); x.uv_dc.clear(); x.uv_ac.clear();
  x.y_ac_qi = (uint8_t) sym_concrete( sym_range( "index", from, upto ) );
  const Quantizer q( x );
  switch ( kind ) {
  case 0: one<YBlock>( q, 2048, 2048 ); break;
  case 1: one<UVBlock>( q, 2048, 2048 ); break;
  case 2: one<Y2Block>( q, 16384, 16384 ); break;
  }
  sym_reach( "quantised" );
}

/* what the forward transforms can produce */
extern "C" void residue( void )
{
  TwoD<uint8_t> src( 4u, 4u ), pred( 4u, 4u );
  for ( int y = 0; y < 4; y++ ) for ( int x = 0; x < 4; x++ ) { src.at( x, y ) = sym_u8( "source" ); pred.at( x, y ) = sym_u8( "prediction" ); }
  VP8Raster::Block4 block( 0, 0, src );
  TwoDSubRange<uint8_t, 4, 4> p( pred, 0, 0 );
  DCTCoefficients c; c.subtract_dct( block, p );
  for ( int i = 0; i < 16; i++ ) sym_assert( ( c.at( i ) <= 2048 ) & ( c.at( i ) >= -2048 ), "residue transform within the range the quantiser is checked for" );
  sym_assert( ( c.at( 0 ) <= 2040 ) & ( c.at( 0 ) >= -2040 ), "DC of the residue" );
  sym_reach( "residue" );
}
extern "C" void second( void )
{
  SafeArray<int16_t, 16> input;
  for ( int i = 0; i < 16; i++ ) input.at( i ) = sym_range( "dc", -2040, 2040 );
  DCTCoefficients c; c.wht( input );
  for ( int i = 0; i < 16; i++ ) sym_assert( ( c.at( i ) <= 16384 ) & ( c.at( i ) >= -16384 ), "second-order transform within the range the quantiser is checked for" );
  sym_reach( "second" );
}
