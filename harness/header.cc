// C06: frame headers
#include "header_model.hh"
#include "exception.hh"

static void compare()
{
  sym_assert( tape_written() == wants, "as many bits as the standard's header" );
  for ( unsigned i = 0; i < wants; i++ ) sym_assert( ( tape_value( i ) == want[ i ].v ) & ( tape_prob( i ) == want[ i ].p ), "the bits of the standard's header" );
}
extern "C" void key( void )
{
  start(); KeyModel m; m.common_first();
  m.w_all();
  BoolEncoder out; tape_reset( TAPE_COPY ); encode( out, m.h ); compare();
  const KeyFrameHeader b( BoolDecoder::zero_decoder() );
  sym_assert( b.color_space == 0 and b.clamping_type == 0, "colour space, clamping" );
  m.check_first( b );
  sym_assert( tape_read() == tape_written(), "exactly the bits written are consumed" );
  sym_reach( "header" );
}
extern "C" void inter( void )
{
  start(); InterModel m; m.common_first(); auto & h = m.h;
  m.common_second();
  m.w_all();

  BoolEncoder out; tape_reset( TAPE_COPY ); encode( out, h ); compare();
  const InterFrameHeader b( BoolDecoder::zero_decoder() );
  m.check_first( b );
  sym_assert( b.refresh_golden_frame == m.rg and b.refresh_alternate_frame == m.ra and b.copy_buffer_to_golden.initialized() == not m.rg and b.copy_buffer_to_alternate.initialized() == not m.ra, "reference updates" );
  if ( not m.rg ) sym_assert( b.copy_buffer_to_golden.get() == m.cg, "copy to golden" );
  if ( not m.ra ) sym_assert( b.copy_buffer_to_alternate.get() == m.ca, "copy to alternate" );
  sym_assert( b.sign_bias_golden == m.bg and b.sign_bias_alternate == m.ba and b.refresh_last == m.rl, "sign biases, refresh last" );
  sym_assert( b.prob_inter == m.pi and b.prob_references_last == m.pl and b.prob_references_golden == m.pg, "reference probabilities" );
  sym_assert( b.intra_16x16_prob.initialized() == m.iy and b.intra_chroma_prob.initialized() == m.iu, "mode probabilities" );
  if ( m.iy ) for ( int i = 0; i < 4; i++ ) sym_assert( b.intra_16x16_prob.get().at( i ) == m.y[ i ], "y mode probability" );
  if ( m.iu ) for ( int i = 0; i < 3; i++ ) sym_assert( b.intra_chroma_prob.get().at( i ) == m.u[ i ], "uv mode probability" );
  for ( int n = 0; n < 38; n++ ) sym_assert( InterModel::same( b.mv_prob_update.at( n / 19 ).at( n % 19 ).mv_prob, m.mv[ n ] ), "vector probability" );
  sym_assert( tape_read() == tape_written(), "exactly the bits written are consumed" );
  sym_reach( "header" );
}
/* what the decoder does not implement is refused, and nothing else is */
extern "C" void refused( void )
{
  start(); const bool key = sym_param( "key", 1 ); KeyModel k; InterModel m; const bool colour = key ? sym_bits( "colour space", 1 ) : 0; const bool clamp = key ? sym_bits( "clamping type", 1 ) : 0; const bool simple = sym_bits( "simple filter", 1 );
  if ( key ) { k.common_first(); k.simple = simple; k.w_all(); want[ 0 ].v = colour; want[ 1 ].v = clamp; } else { m.common_first(); m.common_second(); m.simple = simple; m.w_all(); }
  tape_reset( TAPE_PLAY ); BoolEncoder out; for ( unsigned i = 0; i < wants; i++ ) out.put( want[ i ].v, want[ i ].p );
  bool no = false; try { if ( key ) { const KeyFrameHeader h { BoolDecoder::zero_decoder() }; } else { const InterFrameHeader h { BoolDecoder::zero_decoder() }; } } catch ( const Unsupported & ) { no = true; }
  const bool odd = colour | clamp | simple; sym_assert( no == odd, "refused exactly when it asks for what is not implemented" );
  if ( no ) sym_reach( "refused" ); else sym_reach( "accepted" );
}
