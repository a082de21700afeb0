// The standard's frame header (RFC 6386 9.2-9.11, 19.2), as a model with arbitrary fields
#pragma once
#include "tape.hh"
#include "std_tables.hh"
#include "decoder.hh"
#include "frame.hh"
#include "tree.cc"
#include SYM_REPO_FILE( src/encoder/serializer.cc )

/* what the standard (RFC 6386 9.2-9.11, 19.2) would send, written independently */
struct Bit { bool v; uint8_t p; };
static Bit want[ 16384 ]; static unsigned wants;
static void w( bool v, int p = 128 ) { want[ wants ].v = v; want[ wants ].p = p; wants++; }
static void lit( unsigned v, int n ) { while ( n-- ) w( v >> n & 1 ); }
static void sgn( int v, int n ) { lit( v < 0 ? -v : v, n ); w( v < 0 ); }

enum { G_TOP = 1, G_SEG = 2, G_SEGQ = 4, G_SEGL = 8, G_SEGM = 16, G_LF = 32, G_LFR = 64, G_LFM = 128, G_QUANT = 256, G_REFS = 512, G_SKIP = 1024, G_INTRA = 2048 };
static unsigned hgroups, fillmode, asked;
/* fields that do not matter to what is studied can be pinned */
static int any( const char * name, int lo, int hi ) { return sym_param( "pinned", 0 ) ? lo + ( hi - lo ) / 3 : (int) sym_range( name, lo, hi ); }
/* presence of an optional field: arbitrary in the group under study, by patt elsewhere */
static bool present( unsigned g ) { asked++; if ( hgroups & g ) return sym_concrete( sym_bits( "present", 1 ) ); return fillmode == 0 ? false : fillmode == 1 ? true : ( asked * 7 + asked / 5 + ( fillmode == 3 ) ) & 1; }
static bool patt( unsigned i ) { return fillmode == 0 ? false : fillmode == 1 ? true : ( ( i * 2654435761u ) >> 13 & 1 ) ^ ( fillmode == 3 ); }
struct Val { bool on; int v; };
template <class F> static Val maybe( F & f, unsigned g, int lo, int hi ) { Val x { present( g ), 0 }; if ( x.on ) { x.v = any( "value", lo, hi ); f.initialize( x.v ); } return x; }
static void w_maybe( const Val & x, int n, bool sign, int p = 128 ) { w( x.on, p ); if ( x.on ) { if ( sign ) sgn( x.v, n ); else lit( x.v, n ); } }

template <class H> struct Model {
  H h { BoolDecoder::zero_decoder() };
  bool seg_on = false, seg_map = false, seg_data = false; int seg_mode = 0; Val sq[ 4 ], sl[ 4 ], sm[ 3 ]; int simple = 0, level, sharp; bool lf_on = false, lf_up = false; Val lr[ 4 ], lm[ 4 ]; int parts, q; Val qd[ 5 ];
  Val tok[ 1056 ], skip; int refresh;
  void common_first()
  {
    if ( ( seg_on = present( G_TOP ) ) ) {
      h.update_segmentation.initialize(); auto & s = h.update_segmentation.get();
      seg_map = present( G_SEG ); s.update_mb_segmentation_map = seg_map;
      if ( ( seg_data = present( G_SEG ) ) ) {
        s.segment_feature_data.initialize(); auto & d = s.segment_feature_data.get();
        seg_mode = any( "absolute", 0, 1 ); d.segment_feature_mode = seg_mode;
        for ( int i = 0; i < 4; i++ ) sq[ i ] = maybe( d.quantizer_update.at( i ), G_SEGQ, -127, 127 );
        for ( int i = 0; i < 4; i++ ) sl[ i ] = maybe( d.loop_filter_update.at( i ), G_SEGL, -63, 63 );
      }
      if ( seg_map ) { s.mb_segmentation_map.initialize(); for ( int i = 0; i < 3; i++ ) sm[ i ] = maybe( s.mb_segmentation_map.get().at( i ), G_SEGM, 0, 255 ); }
    }
    level = any( "level", 0, 63 ); h.loop_filter_level = level; sharp = any( "sharpness", 0, 7 ); h.sharpness_level = sharp;
    if ( ( lf_on = present( G_TOP ) ) ) {
      h.mode_lf_adjustments.initialize();
      if ( ( lf_up = present( G_LF ) ) ) { h.mode_lf_adjustments.get().initialize(); auto & d = h.mode_lf_adjustments.get().get();
        for ( int i = 0; i < 4; i++ ) lr[ i ] = maybe( d.ref_update.at( i ), G_LFR, -63, 63 );
        for ( int i = 0; i < 4; i++ ) lm[ i ] = maybe( d.mode_update.at( i ), G_LFM, -63, 63 ); }
    }
    parts = any( "partitions", 0, 3 ); h.log2_number_of_dct_partitions = parts;
    q = any( "index", 0, 127 ); h.quant_indices.y_ac_qi = q;
    qd[ 0 ] = maybe( h.quant_indices.y_dc, G_QUANT, -15, 15 ); qd[ 1 ] = maybe( h.quant_indices.y2_dc, G_QUANT, -15, 15 ); qd[ 2 ] = maybe( h.quant_indices.y2_ac, G_QUANT, -15, 15 ); qd[ 3 ] = maybe( h.quant_indices.uv_dc, G_QUANT, -15, 15 ); qd[ 4 ] = maybe( h.quant_indices.uv_ac, G_QUANT, -15, 15 );
    refresh = any( "refresh entropy", 0, 1 ); h.refresh_entropy_probs = refresh;
    for ( unsigned n = 0; n < 1056; n++ ) {
      auto & f = h.token_prob_update.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ).coeff_prob;
      tok[ n ] = { patt( n ), 0 }; if ( tok[ n ].on ) { tok[ n ].v = any( "token probability", 0, 255 ); f.initialize( tok[ n ].v ); }
    }
    skip = maybe( h.prob_skip_false, G_SKIP, 0, 255 );
  }
  void w_first()
  {
    w( seg_on );
    if ( seg_on ) {
      w( seg_map ); w( seg_data );
      if ( seg_data ) { w( seg_mode ); for ( auto & x : sq ) w_maybe( x, 7, true ); for ( auto & x : sl ) w_maybe( x, 6, true ); }
      if ( seg_map ) for ( auto & x : sm ) w_maybe( x, 8, false );
    }
    w( simple ); lit( level, 6 ); lit( sharp, 3 );
    w( lf_on ); if ( lf_on ) { w( lf_up ); if ( lf_up ) { for ( auto & x : lr ) w_maybe( x, 6, true ); for ( auto & x : lm ) w_maybe( x, 6, true ); } }
    lit( parts, 2 ); lit( q, 7 ); for ( auto & x : qd ) w_maybe( x, 4, true );
  }
  void w_tokens() { for ( unsigned n = 0; n < 1056; n++ ) w_maybe( tok[ n ], 8, false, STD_COEFF_UPDATE[ n ] ); w_maybe( skip, 8, false ); }
  template <class O> static bool same( const O & f, const Val & x ) { return x.on ? f.initialized() && (int) f.get() == x.v : not f.initialized(); }
  void check_first( const H & b )
  {
    sym_assert( b.update_segmentation.initialized() == seg_on, "segmentation" );
    if ( seg_on ) { const auto & s = b.update_segmentation.get();
      sym_assert( s.update_mb_segmentation_map == seg_map and s.segment_feature_data.initialized() == seg_data and s.mb_segmentation_map.initialized() == seg_map, "segmentation parts" );
      if ( seg_data ) { const auto & d = s.segment_feature_data.get(); sym_assert( d.segment_feature_mode == seg_mode, "segment mode" ); for ( int i = 0; i < 4; i++ ) { sym_assert( same( d.quantizer_update.at( i ), sq[ i ] ), "segment quantiser" ); sym_assert( same( d.loop_filter_update.at( i ), sl[ i ] ), "segment filter level" ); } }
      if ( seg_map ) for ( int i = 0; i < 3; i++ ) sym_assert( same( s.mb_segmentation_map.get().at( i ), sm[ i ] ), "segment tree probability" ); }
    sym_assert( b.filter_type == simple and b.loop_filter_level == level and b.sharpness_level == sharp, "filter" );
    sym_assert( b.mode_lf_adjustments.initialized() == lf_on, "filter deltas" );
    if ( lf_on ) { sym_assert( b.mode_lf_adjustments.get().initialized() == lf_up, "filter delta update" ); if ( lf_up ) { const auto & d = b.mode_lf_adjustments.get().get(); for ( int i = 0; i < 4; i++ ) { sym_assert( same( d.ref_update.at( i ), lr[ i ] ), "reference delta" ); sym_assert( same( d.mode_update.at( i ), lm[ i ] ), "mode delta" ); } } }
    sym_assert( b.log2_number_of_dct_partitions == parts and b.quant_indices.y_ac_qi == q, "partitions, index" );
    sym_assert( same( b.quant_indices.y_dc, qd[ 0 ] ) and same( b.quant_indices.y2_dc, qd[ 1 ] ) and same( b.quant_indices.y2_ac, qd[ 2 ] ) and same( b.quant_indices.uv_dc, qd[ 3 ] ) and same( b.quant_indices.uv_ac, qd[ 4 ] ), "quantiser deltas" );
    sym_assert( b.refresh_entropy_probs == refresh, "refresh entropy" );
    for ( unsigned n = 0; n < 1056; n++ ) sym_assert( same( b.token_prob_update.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ).coeff_prob, tok[ n ] ), "token probability" );
    sym_assert( same( b.prob_skip_false, skip ), "skip probability" );
  }
};
struct InterModel : Model<InterFrameHeader> {
  bool rg, ra, bg, ba, rl, iy, iu; int cg = 0, ca = 0, pi, pl, pg, y[ 4 ], u[ 3 ]; Val mv[ 38 ];
  void common_second()
  {
    rg = present( G_REFS ); ra = present( G_REFS ); h.refresh_golden_frame = rg; h.refresh_alternate_frame = ra;
  h.copy_buffer_to_golden.clear(); h.copy_buffer_to_alternate.clear();
  if ( not rg ) { cg = sym_range( "copy to golden", 0, 3 ); h.copy_buffer_to_golden.initialize( cg ); }
  if ( not ra ) { ca = sym_range( "copy to alternate", 0, 3 ); h.copy_buffer_to_alternate.initialize( ca ); }
  bg = sym_bits( "bias golden", 1 ); ba = sym_bits( "bias alternate", 1 ); rl = sym_bits( "refresh last", 1 ); h.sign_bias_golden = bg; h.sign_bias_alternate = ba; h.refresh_last = rl;
  pi = any( "prob inter", 0, 255 ); pl = any( "prob last", 0, 255 ); pg = any( "prob golden", 0, 255 ); h.prob_inter = pi; h.prob_references_last = pl; h.prob_references_golden = pg;
  iy = present( G_INTRA ); iu = present( G_INTRA );
  if ( iy ) { h.intra_16x16_prob.initialize(); for ( int i = 0; i < 4; i++ ) { y[ i ] = any( "y mode probability", 0, 255 ); h.intra_16x16_prob.get().at( i ) = y[ i ]; } }
  if ( iu ) { h.intra_chroma_prob.initialize(); for ( int i = 0; i < 3; i++ ) { u[ i ] = any( "uv mode probability", 0, 255 ); h.intra_chroma_prob.get().at( i ) = u[ i ]; } }
  for ( int n = 0; n < 38; n++ ) { mv[ n ] = { patt( n + 3 ), 0 }; if ( mv[ n ].on ) { mv[ n ].v = any( "vector probability", 0, 127 ); h.mv_prob_update.at( n / 19 ).at( n % 19 ).mv_prob.initialize( mv[ n ].v ); } }
  }
  void w_all()
  {
  w_first(); w( rg ); w( ra ); if ( not rg ) lit( cg, 2 ); if ( not ra ) lit( ca, 2 ); w( bg ); w( ba ); w( refresh ); w( rl ); w_tokens();
  lit( pi, 8 ); lit( pl, 8 ); lit( pg, 8 ); w( iy ); if ( iy ) for ( int x : y ) lit( x, 8 ); w( iu ); if ( iu ) for ( int x : u ) lit( x, 8 );
  for ( int n = 0; n < 38; n++ ) w_maybe( mv[ n ], 7, false, STD_MV_UPDATE[ n ] );
  }
};
struct KeyModel : Model<KeyFrameHeader> { void w_all() { w( 0 ); w( 0 ); w_first(); w( refresh ); w_tokens(); } };
static void start() { hgroups = sym_param( "groups", 0 ); fillmode = sym_param( "fill", 0 ); tape_reset( TAPE_ZERO ); wants = 0; asked = 0; }
