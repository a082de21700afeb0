// C03: coding trees
#include "tape.hh"
#include "decoder.hh"
#include "frame.hh"
#include "tree.cc"
#include SYM_REPO_FILE( src/encoder/serializer.cc )

/* RFC 6386: code word and, per bit, the index of the probability used */
struct Code { int symbol; const char * bits; int probs[ 8 ]; };
template <class T, unsigned N, const TreeArray<N> & nodes, unsigned K> static void tree( const Code ( & codes )[ K ] )
{
  ProbabilityArray<N> probs; for ( unsigned i = 0; i < N - 1; i++ ) probs.at( i ) = sym_u8( "probability" );
  const unsigned k = sym_concrete( sym_range( "symbol", 0, K - 1 ) ); const Code & c = codes[ k ];
  BoolEncoder out; BoolDecoder in( Chunk( nullptr, 0 ) );
  tape_reset( TAPE_COPY );
  encode( out, Tree<T, N, nodes>( (T) c.symbol ), probs );
  unsigned n = 0; while ( c.bits[ n ] ) n++;
  sym_assert( tape_written() == n, "length of the code" );
  for ( unsigned i = 0; i < n; i++ ) { sym_assert( tape_value( i ) == ( c.bits[ i ] == '1' ), "the standard's bit path" ); sym_assert( tape_prob( i ) == probs.at( c.probs[ i ] ), "the probability of the node" ); }
  const T back = Tree<T, N, nodes>( in, probs );
  sym_assert( back == (T) c.symbol, "the symbol read back" );
  sym_assert( tape_read() == tape_written(), "exactly the bits written are consumed" );
  sym_reach( "symbol" );
}
static const Code KF_Y[] = { { B_PRED, "0", { 0 } }, { DC_PRED, "100", { 0, 1, 2 } }, { V_PRED, "101", { 0, 1, 2 } }, { H_PRED, "110", { 0, 1, 3 } }, { TM_PRED, "111", { 0, 1, 3 } } };
static const Code Y[] = { { DC_PRED, "0", { 0 } }, { V_PRED, "100", { 0, 1, 2 } }, { H_PRED, "101", { 0, 1, 2 } }, { TM_PRED, "110", { 0, 1, 3 } }, { B_PRED, "111", { 0, 1, 3 } } };
static const Code UV_[] = { { DC_PRED, "0", { 0 } }, { V_PRED, "10", { 0, 1 } }, { H_PRED, "110", { 0, 1, 2 } }, { TM_PRED, "111", { 0, 1, 2 } } };
static const Code B[] = { { B_DC_PRED, "0", { 0 } }, { B_TM_PRED, "10", { 0, 1 } }, { B_VE_PRED, "110", { 0, 1, 2 } }, { B_HE_PRED, "11100", { 0, 1, 2, 3, 4 } }, { B_RD_PRED, "111010", { 0, 1, 2, 3, 4, 5 } }, { B_VR_PRED, "111011", { 0, 1, 2, 3, 4, 5 } },
  { B_LD_PRED, "11110", { 0, 1, 2, 3, 6 } }, { B_VL_PRED, "111110", { 0, 1, 2, 3, 6, 7 } }, { B_HD_PRED, "1111110", { 0, 1, 2, 3, 6, 7, 8 } }, { B_HU_PRED, "1111111", { 0, 1, 2, 3, 6, 7, 8 } } };
static const Code SEG[] = { { 0, "00", { 0, 1 } }, { 1, "01", { 0, 1 } }, { 2, "10", { 0, 2 } }, { 3, "11", { 0, 2 } } };
static const Code MV[] = { { 0, "000", { 0, 1, 2 } }, { 1, "001", { 0, 1, 2 } }, { 2, "010", { 0, 1, 3 } }, { 3, "011", { 0, 1, 3 } }, { 4, "100", { 0, 4, 5 } }, { 5, "101", { 0, 4, 5 } }, { 6, "110", { 0, 4, 6 } }, { 7, "111", { 0, 4, 6 } } };
static const Code REF[] = { { ZEROMV, "0", { 0 } }, { NEARESTMV, "10", { 0, 1 } }, { NEARMV, "110", { 0, 1, 2 } }, { NEWMV, "1110", { 0, 1, 2, 3 } }, { SPLITMV, "1111", { 0, 1, 2, 3 } } };
static const Code SUB[] = { { LEFT4X4, "0", { 0 } }, { ABOVE4X4, "10", { 0, 1 } }, { ZERO4X4, "110", { 0, 1, 2 } }, { NEW4X4, "111", { 0, 1, 2 } } };
static const Code SPLIT[] = { { 3, "0", { 0 } }, { 2, "10", { 0, 1 } }, { 0, "110", { 0, 1, 2 } }, { 1, "111", { 0, 1, 2 } } };
extern "C" {
void kf_y( void ) { tree< mbmode, num_y_modes, kf_y_mode_tree >( KF_Y ); }
void y( void ) { tree< mbmode, num_y_modes, y_mode_tree >( Y ); }
void uv( void ) { tree< mbmode, num_uv_modes, uv_mode_tree >( UV_ ); }
void sub( void ) { tree< bmode, num_intra_b_modes, b_mode_tree >( B ); }
void segment( void ) { tree< uint8_t, num_segments, segment_id_tree >( SEG ); }
void shortmv( void ) { tree< int16_t, 8, small_mv_tree >( MV ); }
void mvref( void ) { tree< mbmode, num_mv_refs, mv_ref_tree >( REF ); }
void submv( void ) { tree< bmode, num_inter_b_modes, submv_ref_tree >( SUB ); }
void split( void ) { tree< uint8_t, 4, split_mv_tree >( SPLIT ); }

/* what each split layout means (RFC 6386 16.3): 0 top/bottom halves, 1 left/right halves, 2 quarters, 3 sixteenths */
void layouts( void )
{
  const unsigned k = sym_concrete( sym_range( "layout", 0, 3 ) ); const unsigned b = sym_concrete( sym_range( "sub-block", 0, 15 ) );
  const unsigned row = b / 4, col = b % 4, part = k == 0 ? row / 2 : k == 1 ? col / 2 : k == 2 ? row / 2 * 2 + col / 2 : b;
  const auto & layout = mv_partitions.at( k );
  sym_assert( layout.size() == ( k < 2 ? 2u : k == 2 ? 4u : 16u ), "number of parts" );
  int where = -1, times = 0;
  for ( unsigned i = 0; i < layout.size(); i++ ) for ( const auto & x : layout.at( i ) ) if ( x.first == col and x.second == row ) { where = i; times++; }
  sym_assert( where == (int) part and times == 1, "the sub-block belongs to exactly the standard's part" );
  unsigned firstb = 16; for ( unsigned j = 0; j < 16; j++ ) { const unsigned r = j / 4, c = j % 4, p = k == 0 ? r / 2 : k == 1 ? c / 2 : k == 2 ? r / 2 * 2 + c / 2 : j; if ( p == part ) { firstb = j; break; } }
  const auto & f = layout.at( part ).front(); sym_assert( f.first == firstb % 4 and f.second == firstb / 4, "the part's vector is coded at its first sub-block" );
  sym_reach( "layout" );
}
}
