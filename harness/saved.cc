// C20: decoder state saved to a file and restored
#include "sym.h"
#include "fakefd.hh"
#include "decoder.hh"
#include "decoder_state.hh"
#include "frame.hh"
#include "raster_handle.hh"

struct Parts { int w, h, t[ 1101 ]; bool seg, lf; int mode, q[ 4 ], l[ 4 ], map[ 512 ], r[ 4 ], m[ 4 ]; uint8_t pix[ 1536 ]; unsigned pixels; };
static Parts part;
static void tables( ProbabilityTables & t ) { int k = 0; auto f = [&] ( Probability & x ) { x = part.t[ k++ ] = sym_u8( "probability" ); };
  for ( int n = 0; n < 1056; n++ ) f( t.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ) ); for ( int i = 0; i < 4; i++ ) f( t.y_mode_probs.at( i ) ); for ( int i = 0; i < 3; i++ ) f( t.uv_mode_probs.at( i ) ); for ( int n = 0; n < 38; n++ ) f( t.motion_vector_probs.at( n / 19 ).at( n % 19 ) ); }
static bool same_tables( const ProbabilityTables & t ) { int k = 0; bool e = true; auto f = [&] ( const Probability & x ) { e = e & ( x == part.t[ k++ ] ); };
  for ( int n = 0; n < 1056; n++ ) f( t.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ) ); for ( int i = 0; i < 4; i++ ) f( t.y_mode_probs.at( i ) ); for ( int i = 0; i < 3; i++ ) f( t.uv_mode_probs.at( i ) ); for ( int n = 0; n < 38; n++ ) f( t.motion_vector_probs.at( n / 19 ).at( n % 19 ) ); return e; }
static DecoderState state()
{
  const int mw = sym_param( "mw", 16 ), mh = sym_param( "mh", 16 );
  part.w = sym_u16( "width" ); part.h = sym_u16( "height" ); if ( sym_param( "small", 0 ) ) { part.w = sym_param( "w", 16 ); part.h = sym_param( "h", 16 ); }
  DecoderState d( part.w, part.h ); tables( d.probability_tables );
  if ( ( part.seg = sym_param( "segments", 1 ) ) ) {
    Segmentation g( mw, mh ); part.mode = sym_concrete( sym_bits( "absolute", 1 ) ); g.absolute_segment_adjustments = part.mode;
    for ( int i = 0; i < 4; i++ ) { g.segment_quantizer_adjustments.at( i ) = part.q[ i ] = (int8_t) sym_u8( "quantiser" ); g.segment_filter_adjustments.at( i ) = part.l[ i ] = (int8_t) sym_u8( "level" ); }
    for ( int i = 0; i < mw * mh; i++ ) g.map.at( i % mw, i / mw ) = part.map[ i ] = sym_u8( "map entry" );
    d.segmentation.initialize( g );
  }
  if ( ( part.lf = sym_param( "deltas", 1 ) ) ) { FilterAdjustments f; for ( int i = 0; i < 4; i++ ) { f.loopfilter_ref_adjustments.at( i ) = part.r[ i ] = (int8_t) sym_u8( "reference delta" ); f.loopfilter_mode_adjustments.at( i ) = part.m[ i ] = (int8_t) sym_u8( "mode delta" ); } d.filter_adjustments.initialize( f ); }
  return d;
}
static void same_state( const DecoderState & d )
{
  const int mw = sym_param( "mw", 16 ), mh = sym_param( "mh", 16 );
  sym_assert( d.width == part.w and d.height == part.h, "dimensions" ); sym_assert( same_tables( d.probability_tables ), "probabilities" );
  sym_assert( d.segmentation.initialized() == part.seg and d.filter_adjustments.initialized() == part.lf, "optional parts" );
  if ( part.seg ) { const auto & g = d.segmentation.get(); bool e = g.absolute_segment_adjustments == part.mode; for ( int i = 0; i < 4; i++ ) e = e & ( g.segment_quantizer_adjustments.at( i ) == part.q[ i ] ) & ( g.segment_filter_adjustments.at( i ) == part.l[ i ] );
    sym_assert( e, "segment adjustments" ); sym_assert( (int) g.map.width() == mw and (int) g.map.height() == mh, "map dimensions" ); for ( int i = 0; i < mw * mh; i++ ) e = e & ( g.map.at( i % mw, i / mw ) == part.map[ i ] ); sym_assert( e, "segment map" ); }
  if ( part.lf ) { const auto & f = d.filter_adjustments.get(); bool e = true; for ( int i = 0; i < 4; i++ ) e = e & ( f.loopfilter_ref_adjustments.at( i ) == part.r[ i ] ) & ( f.loopfilter_mode_adjustments.at( i ) == part.m[ i ] ); sym_assert( e, "filter deltas" ); }
}
/* the file: what the serialiser holds */
static void save( EncoderStateSerializer & out, size_t said ) { sym_assert( out.data_.size() == said, "as many bytes as it says" ); disk_room = disk_size = said; disk = (uint8_t *) malloc( said + 1 ); memcpy( disk, out.data_.data(), said ); disk[ said ] = 0; read_at = 0; }
extern "C" void states( void )
{
  const DecoderState d = state(); EncoderStateSerializer out; save( out, d.serialize( out ) );
  EncoderStateDeserializer in( "@" ); const DecoderState e = DecoderState::deserialize( in ); same_state( e ); sym_assert( in.remaining() == 0, "reads exactly what was written" ); sym_reach( "restored" );
}
static void paint( MutableRasterHandle & r ) { part.pixels = 0; for ( TwoD<uint8_t> * p : { &r.get().Y(), &r.get().U(), &r.get().V() } ) for ( unsigned y = 0; y < p->height(); y++ ) for ( unsigned x = 0; x < p->width(); x++ ) p->at( x, y ) = part.pix[ part.pixels++ ] = sym_u8( "pixel" ); }
static void same_picture( const VP8Raster & r ) { bool e = true; unsigned k = 0; for ( const TwoD<uint8_t> * p : { &r.Y(), &r.U(), &r.V() } ) for ( unsigned y = 0; y < p->height(); y++ ) for ( unsigned x = 0; x < p->width(); x++ ) e = e & ( p->at( x, y ) == part.pix[ k++ ] ); sym_assert( e and k == part.pixels, "reference picture" ); }
static Decoder decoder() { MutableRasterHandle r( sym_param( "w", 16 ), sym_param( "h", 16 ) ); paint( r ); return Decoder( state(), References( std::move( r ) ) ); }
extern "C" void decoders( void )
{
  const Decoder d = decoder(); EncoderStateSerializer out; save( out, d.serialize( out ) );
  const Decoder e = EncoderStateDeserializer::build<Decoder>( "@" ); same_state( e.state_ );
  for ( const RasterHandle * r : { &e.references_.last, &e.references_.golden, &e.references_.alternative } ) { sym_assert( r->get().display_width() == sym_param( "w", 16 ) and r->get().display_height() == sym_param( "h", 16 ), "picture dimensions" ); same_picture( r->get() ); }
  sym_reach( "restored" );
}
/* a file cut short, or with one of its labels or lengths changed, or with something after its end */
extern "C" void damaged( void )
{
  const Decoder d = decoder(); EncoderStateSerializer out; save( out, d.serialize( out ) );
  const int kind = sym_param( "kind", 0 ), tables_at = 5 + 5 + 4, seg_at = tables_at + 5 + 1101, seg_len = part.seg ? 1 + 5 + 12 + sym_param( "mw", 16 ) * sym_param( "mh", 16 ) : 1, lf_at = seg_at + seg_len, lf_len = part.lf ? 1 + 5 + 8 : 1, refs_at = lf_at + lf_len, pic_at = refs_at + 5 + 4;
  const int at[] = { 0, 5, tables_at, seg_at, seg_at + 1, lf_at, lf_at + 1, refs_at, pic_at }; const bool optional[] = { 0, 0, 0, 1, 0, 1, 0, 0, 0 };
  if ( kind == 0 ) { disk_size = sym_concrete( sym_range( "length", disk_size - 20, disk_size - 1 ) ); sym_reach( "cut" ); }
  else if ( kind == 1 ) { disk_size = sym_concrete( sym_range( "length", 1, 40 ) ); sym_reach( "cut" ); }
  else if ( kind == 2 ) { disk_size++; sym_reach( "longer" ); }
  else {
    const int which = sym_concrete( sym_range( "which", 0, 8 ) ); sym_assume( which != 4 or part.seg ); sym_assume( which != 6 or part.lf );
    if ( kind == 3 ) { uint8_t & b = disk[ at[ which ] ]; const uint8_t tag = sym_u8( "label" ); if ( optional[ which ] ) sym_assume( tag != 5 and tag != 6 ); if ( which == 4 ) sym_assume( tag != 2 and tag != 3 ); sym_assume( tag != b ); b = tag; }
    else { sym_assume( not optional[ which ] ); uint8_t * p = disk + at[ which ] + 1; bool other = false; for ( int i = 0; i < 4; i++ ) { const uint8_t x = sym_u8( "length" ); other |= x != p[ i ]; p[ i ] = x; } sym_assume( other ); if ( which == 1 or which == 7 ) { uint32_t l = 0; for ( int i = 0; i < 4; i++ ) l |= (uint32_t) p[ i ] << 8 * i; sym_assume( l > disk_size - ( at[ which ] + 5 ) ); } } // these two lengths only bound what follows
    sym_reach( "changed" );
  }
  bool refused = false; try { const Decoder e = EncoderStateDeserializer::build<Decoder>( "@" ); } catch ( const std::exception & ) { refused = true; }
  sym_assert( refused, "a damaged state file is refused" );
}
