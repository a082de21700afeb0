// C05: motion-vector differences
#include "tape.hh"
#include SYM_REPO_FILE( src/encoder/serializer.cc )
extern "C" void component( void )
{
  SafeArray< Probability, MV_PROB_CNT > probs;
  for ( unsigned i = 0; i < MV_PROB_CNT; i++ ) probs.at( i ) = sym_u8( "probability" );
  const int half = sym_range( "difference", -1023, 1023 );
  BoolEncoder out; BoolDecoder in( Chunk( nullptr, 0 ) );
  tape_reset( TAPE_COPY );
  encode( out, (int16_t) ( 2 * half ), probs );
  const int16_t back = MotionVector::read_component( in, probs );
  sym_assert( back == 2 * half, "the component read back" );
  sym_assert( tape_read() == tape_written(), "exactly the bits written are consumed" );
  if ( tape_written() < 6 ) sym_reach( "short" ); else sym_reach( "long" );
}
extern "C" void vectors( void )
{
  SafeArray< SafeArray< Probability, MV_PROB_CNT >, 2 > probs;
  for ( int c = 0; c < 2; c++ ) for ( unsigned i = 0; i < MV_PROB_CNT; i++ ) probs.at( c ).at( i ) = sym_u8( "probability" );
  const int y = sym_range( "y", -1023, 1023 ); const int x = sym_range( "x", -1023, 1023 );
  BoolEncoder out; BoolDecoder in( Chunk( nullptr, 0 ) );
  tape_reset( TAPE_COPY );
  encode( out, MotionVector( 2 * x, 2 * y ), probs );
  const MotionVector back( in, probs );
  sym_assert( back.x() == 2 * x and back.y() == 2 * y, "the vector read back" );
  sym_assert( tape_read() == tape_written(), "exactly the bits written are consumed" );
  sym_reach( "vector" );
}
