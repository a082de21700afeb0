// C04: coefficient tokens
#include "tape.hh"
#include "decoder.hh"
#include "frame.hh"
#include SYM_REPO_FILE( src/encoder/serializer.cc )

/* RFC 6386 13.2 and 13.3, written independently */
static const int BAND[ 16 ] = { 0, 1, 2, 3, 6, 4, 5, 6, 6, 6, 6, 6, 6, 6, 6, 7 }, ZZ[ 16 ] = { 0, 1, 4, 8, 5, 2, 3, 6, 9, 12, 13, 10, 7, 11, 14, 15 };
struct Bit { bool v; uint8_t p; };
static Bit want[ 600 ]; static unsigned wants;
static void w( bool v, int p ) { want[ wants ].v = v; want[ wants ].p = p; wants++; }
static const int cat1[] = { 159 }, cat2[] = { 165, 145 }, cat3[] = { 173, 148, 140 }, cat4[] = { 176, 155, 140, 135 }, cat5[] = { 180, 157, 141, 134, 130 }, cat6[] = { 254, 254, 243, 230, 196, 177, 153, 140, 133, 130, 129 };
static const struct { int base, bits; const int * p; const char * path; int nodes[ 9 ]; } CAT[] = {
  { 1, 0, nullptr, "10", { 1, 2 } }, { 2, 0, nullptr, "1100", { 1, 2, 3, 4 } }, { 3, 0, nullptr, "11010", { 1, 2, 3, 4, 5 } }, { 4, 0, nullptr, "11011", { 1, 2, 3, 4, 5 } },
  { 5, 1, cat1, "11100", { 1, 2, 3, 6, 7 } }, { 7, 2, cat2, "11101", { 1, 2, 3, 6, 7 } }, { 11, 3, cat3, "111100", { 1, 2, 3, 6, 8, 9 } }, { 19, 4, cat4, "111101", { 1, 2, 3, 6, 8, 9 } },
  { 35, 5, cat5, "111110", { 1, 2, 3, 6, 8, 10 } }, { 67, 11, cat6, "111111", { 1, 2, 3, 6, 8, 10 } } };
static void standard_block( const int * c, int type, int ctx, const ProbabilityTables & t )
{
  const int first = type == 0 ? 1 : 0; int last = -1;
  for ( int i = first; i < 16; i++ ) if ( c[ ZZ[ i ] ] ) last = i;
  wants = 0; bool zero_before = false;
  for ( int i = first; i <= last; i++ ) {
    const int v = c[ ZZ[ i ] ], a = v < 0 ? -v : v; auto prob = [&]( int n ) { return t.coeff_probs.at( type ).at( BAND[ i ] ).at( ctx ).at( n ); };
    if ( not zero_before ) w( true, prob( 0 ) );
    if ( a == 0 ) { w( false, prob( 1 ) ); zero_before = true; ctx = 0; continue; }
    int k = 9; while ( a < CAT[ k ].base ) k--;
    for ( int j = 0; CAT[ k ].path[ j ]; j++ ) w( CAT[ k ].path[ j ] == '1', prob( CAT[ k ].nodes[ j ] ) );
    for ( int j = CAT[ k ].bits - 1; j >= 0; j-- ) w( ( ( a - CAT[ k ].base ) >> j ) & 1, CAT[ k ].p[ CAT[ k ].bits - 1 - j ] );
    w( v < 0, 128 ); zero_before = false; ctx = a == 1 ? 1 : 2;
  }
  if ( last < 15 ) { const int i = last < first ? first : last + 1; w( false, t.coeff_probs.at( type ).at( BAND[ i ] ).at( ctx ).at( 0 ) ); }
}

template <class B> static void type_of( B &, int ) {}
static void type_of( YBlock & b, int t ) { if ( t == 3 ) b.set_Y_without_Y2(); }
template <class B> static void block( int type )
{
  const int start = sym_param( "start", 0 ), n = sym_param( "n", 2 ), before = sym_param( "before", 0 ), after = sym_param( "after", 0 ), far = sym_param( "far", 2114 );
  ProbabilityTables tables; sym_bytes( &tables.coeff_probs, sizeof( tables.coeff_probs ), "token probabilities" );
  TwoD<B> from( 2, 2 ), to( 2, 2 );
  B & a = from.at( 1, 1 ), & b = to.at( 1, 1 ); type_of( a, type ); type_of( b, type );
  int ctx = 0;
  const int around = sym_param( "around", -1 );
  const bool up = around < 0 ? sym_concrete( sym_bool( "above nonzero" ) ) : around & 1; const bool left = around < 0 ? sym_concrete( sym_bool( "left nonzero" ) ) : around >> 1;
  from.at( 1, 0 ).has_nonzero_ = to.at( 1, 0 ).has_nonzero_ = up; from.at( 0, 1 ).has_nonzero_ = to.at( 0, 1 ).has_nonzero_ = left;
  ctx = up + left;
  int c[ 16 ] = {}; bool codable = true, any = false; const int first = type == 0;
  for ( int i = first; i < 16; i++ ) {
    c[ ZZ[ i ] ] = i < start ? before : i >= start + n ? after : sym_range( "coefficient", -far, far );
    if ( i >= start and i < start + n ) codable &= ( c[ ZZ[ i ] ] <= 2114 ) & ( c[ ZZ[ i ] ] >= -2114 );
  }
  for ( int i = 0; i < 16; i++ ) { a.mutable_coefficients().at( i ) = c[ i ]; any |= c[ i ] != 0; }
  BoolEncoder out; BoolDecoder in( Chunk( nullptr, 0 ) );
  tape_reset( TAPE_COPY );
  bool refused = false;
  try { a.serialize_tokens( out, tables ); } catch ( const std::exception & ) { refused = true; }
  if ( refused ) { sym_assert( not codable, "refused only when a coefficient is too large to code" ); sym_reach( "refused" ); return; }
  sym_assert( codable, "a coefficient too large to code is refused" );
  standard_block( c, type, ctx, tables );
  sym_assert( tape_written() == wants, "as many bits as the standard's tokens" );
  for ( unsigned i = 0; i < wants; i++ ) sym_assert( ( tape_value( i ) == want[ i ].v ) & ( tape_prob( i ) == want[ i ].p ), "the bits and probabilities of the standard's tokens" );
  b.parse_tokens( in, tables );
  for ( int i = 0; i < 16; i++ ) sym_assert( b.coefficients().at( i ) == c[ i ], "the coefficient read back" );
  sym_assert( tape_read() == tape_written(), "exactly the bits written are consumed" );
  sym_assert( b.has_nonzero() == any, "marked as nonzero exactly when nonzero coefficients were coded" );
  a.calculate_has_nonzero();
  sym_assert( a.has_nonzero() == any, "the writer's own mark agrees" );
  sym_reach( "block" );
}
extern "C" void tokens_y_after( void ) { block<YBlock>( 0 ); }
extern "C" void tokens_y2( void ) { block<Y2Block>( 1 ); }
extern "C" void tokens_uv( void ) { block<UVBlock>( 2 ); }
extern "C" void tokens_y_with( void ) { block<YBlock>( 3 ); }
