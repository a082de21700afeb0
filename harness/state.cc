// C18, C19: what a frame does to the decoder's persistent state and references
#include "header_model.hh"
#include "decoder_state.hh"

struct Tables { int c[ 1056 ], y[ 4 ], u[ 3 ], m[ 38 ]; };
static Tables entry( ProbabilityTables & p )
{
  Tables t;
  for ( unsigned n = 0; n < 1056; n++ ) p.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ) = t.c[ n ] = sym_u8( "token probability" );
  for ( int i = 0; i < 4; i++ ) p.y_mode_probs.at( i ) = t.y[ i ] = sym_u8( "y mode probability" );
  for ( int i = 0; i < 3; i++ ) p.uv_mode_probs.at( i ) = t.u[ i ] = sym_u8( "uv mode probability" );
  for ( int n = 0; n < 38; n++ ) p.motion_vector_probs.at( n / 19 ).at( n % 19 ) = t.m[ n ] = sym_u8( "vector probability" );
  return t;
}
static void same_tables( const ProbabilityTables & p, const Tables & t, const char * what )
{
  bool ok = true;
  for ( unsigned n = 0; n < 1056; n++ ) ok = ok & ( p.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ) == t.c[ n ] );
  for ( int i = 0; i < 4; i++ ) ok = ok & ( p.y_mode_probs.at( i ) == t.y[ i ] );
  for ( int i = 0; i < 3; i++ ) ok = ok & ( p.uv_mode_probs.at( i ) == t.u[ i ] );
  for ( int n = 0; n < 38; n++ ) ok = ok & ( p.motion_vector_probs.at( n / 19 ).at( n % 19 ) == t.m[ n ] );
  sym_assert( ok, what );
}
struct Seg { bool on = false; int mode = 0, q[ 4 ] {}, l[ 4 ] {}; int id = -1; };
struct Lf { bool on = false; int r[ 4 ] {}, m[ 4 ] {}; };
template <class M> static void directed( M & m, Tables & t, Seg & s, Lf & f )
{
  for ( int n = 0; n < 1056; n++ ) if ( m.tok[ n ].on ) t.c[ n ] = m.tok[ n ].v;
  if ( not m.seg_on ) s = Seg(); else { s.on = true; if ( m.seg_data ) { s.mode = m.seg_mode; for ( int i = 0; i < 4; i++ ) { s.q[ i ] = m.sq[ i ].v; s.l[ i ] = m.sl[ i ].v; } } }
  if ( not m.lf_on ) f = Lf(); else { f.on = true; if ( m.lf_up ) for ( int i = 0; i < 4; i++ ) { f.r[ i ] = m.lr[ i ].v; f.m[ i ] = m.lm[ i ].v; } }
}
static uint8_t bytes[ 64 ];
static Chunk frame_bytes( bool key )
{
  memset( bytes, 0, sizeof bytes ); const unsigned tag = ( key ? 0 : 1 ) | 1 << 4 | 8 << 5; bytes[ 0 ] = tag; bytes[ 1 ] = tag >> 8; bytes[ 2 ] = tag >> 16;
  if ( key ) { bytes[ 3 ] = 0x9d; bytes[ 4 ] = 0x01; bytes[ 5 ] = 0x2a; bytes[ 6 ] = 16; bytes[ 8 ] = 16; }
  return Chunk( bytes, sizeof bytes );
}
/* the macroblock that follows the header: its segment, skip flag, modes, vectors and tokens, with the probabilities the standard reads them with */
template <class M> static int w_segment( M & m )
{
  if ( not m.seg_on or not m.seg_map ) return -1;
  const int id = sym_concrete( sym_range( "segment", 0, 3 ) ); auto p = [&] ( int i ) { return m.sm[ i ].on ? m.sm[ i ].v : 255; };
  w( id >> 1, p( 0 ) ); w( id & 1, p( 1 + ( id >> 1 ) ) ); return id;
}
static void w_macroblock_tokens( const Tables & t )
{
  auto p = [&] ( int type, int band, int ctx, int node ) { return t.c[ type * 264 + band * 33 + ctx * 11 + node ]; };
  w( 1, p( 1, 0, 0, 0 ) ); w( 1, p( 1, 0, 0, 1 ) ); w( 0, p( 1, 0, 0, 2 ) ); w( 0 ); // one
  w( 1, p( 1, 1, 1, 0 ) ); w( 0, p( 1, 1, 1, 1 ) ); // zero
  w( 1, p( 1, 2, 0, 1 ) ); w( 1, p( 1, 2, 0, 2 ) ); w( 1, p( 1, 2, 0, 3 ) ); w( 1, p( 1, 2, 0, 6 ) ); w( 1, p( 1, 2, 0, 8 ) ); w( 1, p( 1, 2, 0, 10 ) ); // category six
  static const uint8_t cat6[] = { 254, 254, 243, 230, 196, 177, 153, 140, 133, 130, 129 }; for ( int x : cat6 ) w( 0, x ); w( 1 );
  w( 0, p( 1, 3, 2, 0 ) );
  for ( int i = 0; i < 16; i++ ) w( 0, p( 0, 1, 0, 0 ) );
  for ( int i = 0; i < 8; i++ ) w( 0, p( 2, 0, 0, 0 ) );
}
static void play() { tape_reset( TAPE_PLAY ); BoolEncoder out; for ( unsigned i = 0; i < wants; i++ ) out.put( want[ i ].v, want[ i ].p ); }
static void heard() { sym_assert( tape_read() == wants, "reads exactly the frame's bits" ); bool ok = true; for ( unsigned i = 0; i < wants; i++ ) ok = ok & ( tape_prob( i ) == want[ i ].p ); sym_assert( ok, "with this frame's probabilities" ); }

static void same_segments( const DecoderState & d, const Seg & s, int id, int old )
{
  sym_assert( d.segmentation.initialized() == s.on, "segmentation stays until disabled" );
  if ( not s.on ) return;
  const auto & g = d.segmentation.get(); bool ok = g.absolute_segment_adjustments == s.mode; for ( int i = 0; i < 4; i++ ) ok = ok & ( g.segment_quantizer_adjustments.at( i ) == s.q[ i ] ) & ( g.segment_filter_adjustments.at( i ) == s.l[ i ] );
  sym_assert( ok, "segment adjustments" );
  if ( id >= 0 ) sym_assert( g.map.at( 0, 0 ) == id, "segment map is updated" ); else if ( old >= 0 ) sym_assert( g.map.at( 0, 0 ) == old, "segment map persists" );
}
static void same_filter( const DecoderState & d, const Lf & f )
{
  sym_assert( d.filter_adjustments.initialized() == f.on, "filter deltas stay until disabled" );
  if ( not f.on ) return;
  const auto & g = d.filter_adjustments.get(); bool ok = true; for ( int i = 0; i < 4; i++ ) ok = ok & ( g.loopfilter_ref_adjustments.at( i ) == f.r[ i ] ) & ( g.loopfilter_mode_adjustments.at( i ) == f.m[ i ] );
  sym_assert( ok, "filter deltas" );
}
/* a decoder with an arbitrary past */
static DecoderState past( Tables & t, Seg & s, Lf & f )
{
  DecoderState d( 16, 16 ); t = entry( d.probability_tables );
  if ( sym_param( "segments", 0 ) ) {
    Segmentation g( 16, 16 ); s.on = true; g.absolute_segment_adjustments = s.mode = sym_bits( "absolute", 1 );
    for ( int i = 0; i < 4; i++ ) { g.segment_quantizer_adjustments.at( i ) = s.q[ i ] = (int8_t) sym_u8( "quantiser" ); g.segment_filter_adjustments.at( i ) = s.l[ i ] = (int8_t) sym_u8( "level" ); }
    s.id = sym_range( "segment before", 0, 3 ); g.map.at( 0, 0 ) = s.id; d.segmentation.initialize( g );
  }
  if ( sym_param( "deltas", 0 ) ) { FilterAdjustments g; f.on = true; for ( int i = 0; i < 4; i++ ) { g.loopfilter_ref_adjustments.at( i ) = f.r[ i ] = (int8_t) sym_u8( "reference delta" ); g.loopfilter_mode_adjustments.at( i ) = f.m[ i ] = (int8_t) sym_u8( "mode delta" ); } d.filter_adjustments.initialize( g ); }
  return d;
}
extern "C" void key_state( void )
{
  start(); KeyModel m; m.common_first(); m.w_all();
  Tables t; Seg s; Lf f; DecoderState d = past( t, s, f );
  for ( int i = 0; i < 1056; i++ ) t.c[ i ] = STD_COEFF_DEFAULT[ i ]; for ( int i = 0; i < 4; i++ ) t.y[ i ] = STD_Y_DEFAULT[ i ]; for ( int i = 0; i < 3; i++ ) t.u[ i ] = STD_UV_DEFAULT[ i ]; for ( int i = 0; i < 38; i++ ) t.m[ i ] = STD_MV_DEFAULT[ i ];
  s = Seg(); f = Lf(); Tables now = t; directed( m, now, s, f );
  const int id = w_segment( m ); if ( m.skip.on ) w( 0, m.skip.v );
  w( 1, STD_KF_Y[ 0 ] ); w( 1, STD_KF_Y[ 1 ] ); w( 0, STD_KF_Y[ 3 ] ); w( 1, STD_KF_UV[ 0 ] ); w( 1, STD_KF_UV[ 1 ] ); w( 0, STD_KF_UV[ 2 ] ); w_macroblock_tokens( now );
  play(); const Chunk c = frame_bytes( true ); const KeyFrame frame = d.parse_and_apply<KeyFrame>( UncompressedChunk( c, 16, 16, false ) ); heard();
  same_tables( d.probability_tables, m.refresh ? now : t, "key frame: probabilities are the defaults, with the announced ones only if they persist" );
  same_segments( d, s, id, -1 ); same_filter( d, f ); sym_assert( d.width == 16 and d.height == 16, "dimensions" );
  sym_reach( "state" );
}
extern "C" void inter_state( void )
{
  start(); InterModel m; m.common_first(); m.common_second(); m.w_all();
  Tables t; Seg s; Lf f; DecoderState d = past( t, s, f ); const int old = s.on ? s.id : -1;
  Tables now = t; directed( m, now, s, f );
  if ( m.iy ) for ( int i = 0; i < 4; i++ ) now.y[ i ] = m.y[ i ]; if ( m.iu ) for ( int i = 0; i < 3; i++ ) now.u[ i ] = m.u[ i ];
  for ( int i = 0; i < 38; i++ ) if ( m.mv[ i ].on ) now.m[ i ] = m.mv[ i ].v ? m.mv[ i ].v << 1 : 1;
  const int id = w_segment( m ); if ( m.skip.on ) w( 0, m.skip.v );
  if ( sym_param( "vectors", 0 ) ) {
    w( 1, m.pi ); w( 1, m.pl ); w( 0, m.pg ); w( 1, 7 ); w( 1, 1 ); w( 1, 1 ); w( 0, 143 );
    const int * p = now.m; w( 0, p[ 0 ] ); w( 0, p[ 2 ] ); w( 1, p[ 3 ] ); w( 0, p[ 5 ] ); w( 1, p[ 1 ] ); // -2, on the short tree
    p += 19; w( 1, p[ 0 ] ); for ( int i : { 0, 1, 2, 9, 8, 7, 6, 5, 4, 3 } ) w( i == 4, p[ 9 + i ] ); w( 0, p[ 1 ] );
  } else {
    w( 0, m.pi ); const int mode = sym_param( "mode", 0 );
    if ( mode == 0 ) { w( 1, now.y[ 0 ] ); w( 1, now.y[ 1 ] ); w( 0, now.y[ 3 ] ); } else { w( 1, now.y[ 0 ] ); w( 0, now.y[ 1 ] ); w( 1, now.y[ 2 ] ); }
    w( 1, now.u[ 0 ] ); w( 1, now.u[ 1 ] ); w( 0, now.u[ 2 ] );
  }
  w_macroblock_tokens( now );
  play(); const Chunk c = frame_bytes( false ); const InterFrame frame = d.parse_and_apply<InterFrame>( UncompressedChunk( c, 16, 16, false ) ); heard();
  same_tables( d.probability_tables, m.refresh ? now : t, "probabilities persist exactly when the frame says so" );
  same_segments( d, s, id, old ); same_filter( d, f ); sym_assert( d.width == 16 and d.height == 16, "dimensions" );
  sym_reach( "state" );
}
static RasterHandle picture( int mark ) { MutableRasterHandle r( 16, 16 ); r.get().Y().at( 2, 3 ) = mark; return RasterHandle( std::move( r ) ); }
static void references( bool key )
{
  start(); InterModel m; KeyModel k; if ( key ) { k.common_first(); k.w_all(); } else { m.common_first(); m.common_second(); m.w_all(); }
  Decoder d( 16, 16 ); d.references_.last = picture( 11 ); d.references_.golden = picture( 22 ); d.references_.alternative = picture( 33 );
  const VP8Raster * last = &d.references_.last.get(), * golden = &d.references_.golden.get(), * alt = &d.references_.alternative.get();
  const References keep = d.references_; Decoder e( d );
  play(); const Chunk c = frame_bytes( key ); const bool show = sym_concrete( sym_bits( "show", 1 ) ); bytes[ 0 ] = ( bytes[ 0 ] & ~16 ) | show << 4;
  const auto got = d.get_frame_output( c ); const VP8Raster * now = &got.second.get();
  sym_assert( got.first == show, "shown exactly when the frame says so" );
  sym_assert( now != last and now != golden and now != alt, "the new picture is a new one" );
  sym_assert( keep.last.get().Y().at( 2, 3 ) == 11 and keep.golden.get().Y().at( 2, 3 ) == 22 and keep.alternative.get().Y().at( 2, 3 ) == 33, "pictures in use are left alone" );
  if ( key ) last = golden = alt = now; else {
    if ( not m.ra ) { if ( m.ca == 1 ) alt = last; else if ( m.ca == 2 ) alt = golden; }
    if ( not m.rg ) { if ( m.cg == 1 ) golden = last; else if ( m.cg == 2 ) golden = alt; }
    if ( m.rg ) golden = now; if ( m.ra ) alt = now; if ( m.rl ) last = now;
  }
  auto same = [&] ( const References & r ) { sym_assert( &r.last.get() == last, "last" ); sym_assert( &r.golden.get() == golden, "golden" ); sym_assert( &r.alternative.get() == alt, "alternate" ); };
  same( d.references_ ); same( d.get_references() ); sym_assert( &d.example_raster() == last, "example" );
  sym_assert( &d.references_.at( LAST_FRAME ) == last and &d.references_.at( GOLDEN_FRAME ) == golden and &d.references_.at( ALTREF_FRAME ) == alt, "references by number" );
  if ( key ) { KeyFrame f( 16, 16 ); e.apply_decoded_frame( f, got.second, d ); } else { InterFrame f( 16, 16 ); f.header_ = m.h; e.apply_decoded_frame( f, got.second, d ); }
  same( e.references_ ); sym_assert( e.state_ == d.state_, "state of the decoder that decoded it" );
  sym_reach( "references" );
}
extern "C" void key_references( void ) { references( true ); }
extern "C" void inter_references( void ) { references( false ); }
