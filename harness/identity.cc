// C21: what decides whether two decoder states are equal, and what their hashes are made of
#include "sym.h"
#include "decoder.hh"
#include "decoder_state.hh"
#include "frame.hh"

static const size_t TAG = 0x5eed000000000000ull; static struct { size_t prev, value; } node[ 16384 ]; static unsigned nodes = 1;
extern "C" size_t ideal_hash_push( size_t seed, size_t value ) { node[ nodes ].prev = seed; node[ nodes ].value = value; return TAG + nodes++; }
static bool is_node( size_t h ) { return h >> 48 == TAG >> 48; }
/* were these two made of the same things in the same order? */
static bool same_hash( size_t a, size_t b )
{
  bool same = true;
  while ( is_node( a ) and is_node( b ) ) {
    const auto & x = node[ a - TAG ]; const auto & y = node[ b - TAG ];
    const bool nx = is_node( x.value ), ny = is_node( y.value ); if ( nx != ny ) return false;
    same = same & ( nx ? same_hash( x.value, y.value ) : x.value == y.value ); a = x.prev; b = y.prev;
  }
  return same & ( a == b );
}
struct Parts { int w, h, t[ 1101 ]; bool seg, lf; int mode, q[ 4 ], l[ 4 ], map[ 6 ], r[ 4 ], m[ 4 ]; };
enum { TABLES = 1, SEGMENTS = 2, DELTAS = 4, SIZE = 8 };
static int some( int what, const char * name, int otherwise ) { return sym_param( "parts", 0 ) & what ? sym_u8( name ) : otherwise; }
static DecoderState state( Parts & p )
{
  p.w = 20; p.h = 33; if ( sym_param( "parts", 0 ) & SIZE ) { p.w = sym_u16( "width" ); p.h = sym_u16( "height" ); }
  DecoderState d( p.w, p.h ); auto & t = d.probability_tables; int k = 0;
  for ( int n = 0; n < 1056; n++ ) t.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ) = p.t[ k++ ] = some( TABLES, "token probability", n & 255 );
  for ( int i = 0; i < 4; i++ ) t.y_mode_probs.at( i ) = p.t[ k++ ] = some( TABLES, "y mode probability", 3 );
  for ( int i = 0; i < 3; i++ ) t.uv_mode_probs.at( i ) = p.t[ k++ ] = some( TABLES, "uv mode probability", 4 );
  for ( int n = 0; n < 38; n++ ) t.motion_vector_probs.at( n / 19 ).at( n % 19 ) = p.t[ k++ ] = some( TABLES, "vector probability", 5 );
  p.seg = sym_param( "parts", 0 ) & SEGMENTS ? sym_concrete( sym_bits( "segments", 1 ) ) : sym_param( "segments", 0 );
  if ( p.seg ) {
    Segmentation g( 3, 2 ); p.mode = some( SEGMENTS, "absolute", 1 ) & 1; g.absolute_segment_adjustments = p.mode;
    for ( int i = 0; i < 4; i++ ) { g.segment_quantizer_adjustments.at( i ) = p.q[ i ] = (int8_t) some( SEGMENTS, "quantiser", i ); g.segment_filter_adjustments.at( i ) = p.l[ i ] = (int8_t) some( SEGMENTS, "level", -i ); }
    for ( int i = 0; i < 6; i++ ) g.map.at( i % 3, i / 3 ) = p.map[ i ] = some( SEGMENTS, "map entry", i & 3 );
    d.segmentation.initialize( g );
  }
  p.lf = sym_param( "parts", 0 ) & DELTAS ? sym_concrete( sym_bits( "deltas", 1 ) ) : sym_param( "deltas", 0 );
  if ( p.lf ) { FilterAdjustments f; for ( int i = 0; i < 4; i++ ) { f.loopfilter_ref_adjustments.at( i ) = p.r[ i ] = (int8_t) some( DELTAS, "reference delta", i ); f.loopfilter_mode_adjustments.at( i ) = p.m[ i ] = (int8_t) some( DELTAS, "mode delta", i ); } d.filter_adjustments.initialize( f ); }
  return d;
}
static bool equal( const Parts & a, const Parts & b )
{
  if ( a.seg != b.seg or a.lf != b.lf ) return false;
  bool e = ( a.w == b.w ) & ( a.h == b.h ); for ( int i = 0; i < 1101; i++ ) e = e & ( a.t[ i ] == b.t[ i ] );
  if ( a.seg ) { e = e & ( a.mode == b.mode ); for ( int i = 0; i < 4; i++ ) e = e & ( a.q[ i ] == b.q[ i ] ) & ( a.l[ i ] == b.l[ i ] ); for ( int i = 0; i < 6; i++ ) e = e & ( a.map[ i ] == b.map[ i ] ); }
  if ( a.lf ) for ( int i = 0; i < 4; i++ ) e = e & ( a.r[ i ] == b.r[ i ] ) & ( a.m[ i ] == b.m[ i ] );
  return e;
}
extern "C" void states( void )
{
  Parts p, q; const DecoderState a = state( p ); const DecoderState b = state( q ); const bool e = equal( p, q );
  const size_t x = a.hash(); const size_t y = b.hash(); const bool h = same_hash( x, y );
  sym_assert( h == e, "the hash takes exactly the components of the state as input" );
  const bool eq = a == b; sym_assert( eq == e, "equal exactly when all components are" ); const bool ne = a != b; sym_assert( ne != e, "different exactly when some component is" );
  if ( eq ) sym_reach( "equal" ); else sym_reach( "different" );
}
static void paint( MutableRasterHandle & r, uint8_t * pix ) { sym_bytes( pix, 384, "pixels" ); int k = 0; for ( TwoD<uint8_t> * p : { &r.get().Y(), &r.get().U(), &r.get().V() } ) for ( unsigned y = 0; y < p->height(); y++ ) for ( unsigned x = 0; x < p->width(); x++ ) p->at( x, y ) = pix[ k++ ]; }
extern "C" void decoders( void )
{
  static uint8_t pix[ 3 ][ 384 ]; MutableRasterHandle l( 16, 16 ), g( 16, 16 ), t( 16, 16 ); paint( l, pix[ 0 ] ); paint( g, pix[ 1 ] ); paint( t, pix[ 2 ] );
  References refs( std::move( l ) ); refs.golden = RasterHandle( std::move( g ) ); refs.alternative = RasterHandle( std::move( t ) ); const RasterHandle * r[ 3 ] = { &refs.last, &refs.golden, &refs.alternative };
  for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < i; j++ ) {
    bool e = true; for ( int k = 0; k < 384; k++ ) e = e & ( pix[ i ][ k ] == pix[ j ][ k ] );
    const size_t x = r[ i ]->hash(); const size_t y = r[ j ]->hash(); sym_assert( same_hash( x, y ) == e, "a picture's hash takes exactly its pixels as input" );
  }
  Parts p; const DecoderState s = state( p ); const Decoder d( s, refs ); const DecoderHash h = d.get_hash();
  sym_assert( same_hash( h.state_hash_, s.hash() ) and same_hash( h.last_hash_, r[ 0 ]->hash() ) and same_hash( h.golden_hash_, r[ 1 ]->hash() ) and same_hash( h.alt_hash_, r[ 2 ]->hash() ), "a decoder's identity is its state's and its references'" );
  sym_reach( "decoder" );
}
extern "C" void decoder_hashes( void )
{
  size_t v[ 2 ][ 4 ]; for ( auto & x : v ) for ( size_t & y : x ) { y = sym_u64( "hash" ); sym_assume( not is_node( y ) ); }
  const DecoderHash a( v[ 0 ][ 0 ], v[ 0 ][ 1 ], v[ 0 ][ 2 ], v[ 0 ][ 3 ] ); const DecoderHash b( v[ 1 ][ 0 ], v[ 1 ][ 1 ], v[ 1 ][ 2 ], v[ 1 ][ 3 ] );
  bool e = true; for ( int i = 0; i < 4; i++ ) e = e & ( v[ 0 ][ i ] == v[ 1 ][ i ] );
  const size_t x = a.hash(); const size_t y = b.hash(); sym_assert( same_hash( x, y ) == e, "takes all four parts" );
  const bool eq = a == b; const bool ne = a != b; sym_assert( eq == e and ne != e, "equal exactly when all four parts are" ); sym_reach( "decoder" );
}
