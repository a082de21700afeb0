// C16: which edges of each macroblock are filtered, with which limits, in which order
#include "sym.h"
#include "decoder.hh"
#include "frame.hh"
#include "macroblock.hh"
#include "loopfilter.hh"
#include "loopfilter_filters.hh"

static const int W = 2, H = 2, N = 16 * W;
enum { MBV, SBV, MBH, SBH };
struct Call { bool called; int blimit, limit, hev; };
static Call calls[ W * H ][ 4 ][ 3 ]; /* macroblock, edge kind, plane */
static uint8_t * base[ 3 ]; static int stride[ 3 ];

/* the pixel kernels, replaced by recorders */
static void record( const uint8_t * p, int pl, int kind, int dx, int dy, const uint8_t * blimit, const uint8_t * limit, const uint8_t * hev )
{
  const long off = p - base[ pl ] - dx - dy * stride[ pl ];
  const int s = pl ? 8 : 16, x = off % stride[ pl ], y = off / stride[ pl ];
  sym_assert( off >= 0 and x % s == 0 and y % s == 0 and x / s < W and y / s < H, "the edge belongs to a macroblock" );
  const int n = y / s * W + x / s;
  for ( int m = 0; m < W * H; m++ ) for ( int k = 0; k < 4; k++ )
    if ( m > n or ( m == n and k > kind ) or ( m == n and k == kind ) ) sym_assert( not calls[ m ][ k ][ pl ].called, "edges filtered in order" );
  Call & c = calls[ n ][ kind ][ pl ];
  c.called = true; c.blimit = blimit[ 0 ]; c.limit = limit[ 0 ]; c.hev = hev[ 0 ];
  bool same = true;
  for ( int i = 1; i < 16; i++ ) same = same & ( blimit[ i ] == blimit[ 0 ] ) & ( limit[ i ] == limit[ 0 ] ) & ( hev[ i ] == hev[ 0 ] );
  sym_assert( same, "every lane has the same limits" );
}
extern "C" {
void vp8_mbloop_filter_vertical_edge_sse2( unsigned char * y, int, const unsigned char * b, const unsigned char * l, const unsigned char * t ) { record( y, 0, MBV, 0, 0, b, l, t ); }
void vp8_mbloop_filter_horizontal_edge_sse2( unsigned char * y, int, const unsigned char * b, const unsigned char * l, const unsigned char * t ) { record( y, 0, MBH, 0, 0, b, l, t ); }
void vp8_mbloop_filter_vertical_edge_uv_sse2( unsigned char * u, int, const unsigned char * b, const unsigned char * l, const unsigned char * t, unsigned char * v ) { record( u, 1, MBV, 0, 0, b, l, t ); record( v, 2, MBV, 0, 0, b, l, t ); }
void vp8_mbloop_filter_horizontal_edge_uv_sse2( unsigned char * u, int, const unsigned char * b, const unsigned char * l, const unsigned char * t, unsigned char * v ) { record( u, 1, MBH, 0, 0, b, l, t ); record( v, 2, MBH, 0, 0, b, l, t ); }
void vp8_loop_filter_bv_y_sse2( unsigned char * y, int, const unsigned char * b, const unsigned char * l, const unsigned char * t, int ) { record( y, 0, SBV, 0, 0, b, l, t ); }
void vp8_loop_filter_bh_y_sse2( unsigned char * y, int, const unsigned char * b, const unsigned char * l, const unsigned char * t, int ) { record( y, 0, SBH, 0, 0, b, l, t ); }
void vp8_loop_filter_vertical_edge_uv_sse2( unsigned char * u, int, const unsigned char * b, const unsigned char * l, const unsigned char * t, unsigned char * v ) { record( u, 1, SBV, 4, 0, b, l, t ); record( v, 2, SBV, 4, 0, b, l, t ); }
void vp8_loop_filter_horizontal_edge_uv_sse2( unsigned char * u, int, const unsigned char * b, const unsigned char * l, const unsigned char * t, unsigned char * v ) { record( u, 1, SBH, 0, 4, b, l, t ); record( v, 2, SBH, 0, 4, b, l, t ); }
}

static int clamp63( int x ) { return x < 0 ? 0 : x > 63 ? 63 : x; }
struct MB { int segment, ref, mode; bool coded, nonzero; };
static void setup( KeyFrameMacroblock &, const MB & ) {}
static void setup( InterFrameMacroblock & mb, const MB & m )
{
  mb.header_.is_inter_mb = m.ref != CURRENT_FRAME;
  mb.header_.mb_ref_frame_sel1.initialize( m.ref >= GOLDEN_FRAME );
  mb.header_.mb_ref_frame_sel2.initialize( m.ref == ALTREF_FRAME );
}

template <class FrameType, bool key>
static void strength( void )
{
  FrameType frame( (uint16_t) N, (uint16_t) N );
  const int level = sym_range( "level", 0, 63 ), sharpness = sym_range( "sharpness", 0, 7 );
  frame.header_.loop_filter_level = Unsigned<6>( level ); frame.header_.sharpness_level = Unsigned<3>( sharpness );
  const int vary = sym_param( "mb", 0 );
  Optional<Segmentation> segmentation; Optional<FilterAdjustments> adjust;
  if ( sym_param( "segments", 1 ) ) {
    segmentation.initialize( W, H ); Segmentation & s = segmentation.get();
    s.absolute_segment_adjustments = sym_bool( "absolute" );
    for ( int i = 0; i < 4; i++ ) s.segment_filter_adjustments.at( i ) = sym_range( "segment level", -63, 63 );
  }
  if ( sym_param( "deltas", 1 ) ) {
    adjust.initialize();
    for ( int i = 0; i < 4; i++ ) adjust.get().loopfilter_ref_adjustments.at( i ) = sym_range( "reference delta", -63, 63 );
    for ( int i = 0; i < 4; i++ ) adjust.get().loopfilter_mode_adjustments.at( i ) = sym_range( "mode delta", -63, 63 );
  }
  MB mbs[ W * H ];
  for ( int n = 0; n < W * H; n++ ) {
    MB & m = mbs[ n ];
    const bool v = n == vary;
    m.segment = v ? sym_range( "segment", 0, 3 ) : n % 4;
    m.ref = key ? CURRENT_FRAME : v ? sym_range( "reference", 0, 3 ) : n % 4;
    m.mode = key ? ( v ? sym_range( "intra mode", DC_PRED, B_PRED ) : DC_PRED ) : m.ref == CURRENT_FRAME ? ( v ? sym_range( "intra mode", DC_PRED, B_PRED ) : B_PRED ) : ( v ? sym_range( "inter mode", NEARESTMV, SPLITMV ) : ZEROMV );
    m.coded = m.mode != B_PRED and m.mode != SPLITMV;
    m.nonzero = v ? sym_bool( "nonzero" ) : n & 1;
    auto & mb = frame.macroblock_headers_.get().at( n % W, n / W );
    setup( mb, m );
    mb.segment_id_ = m.segment; mb.Y2_.prediction_mode_ = (mbmode) m.mode; mb.Y2_.coded_ = m.coded; mb.has_nonzero_ = m.nonzero;
  }
  VP8Raster raster( N, N );
  base[ 0 ] = &raster.Y().at( 0, 0 ); base[ 1 ] = &raster.U().at( 0, 0 ); base[ 2 ] = &raster.V().at( 0, 0 );
  stride[ 0 ] = &raster.Y().at( 0, 1 ) - base[ 0 ]; stride[ 1 ] = stride[ 2 ] = &raster.U().at( 0, 1 ) - base[ 1 ];
  frame.loopfilter( segmentation, adjust, raster );

  /* RFC 6386 9.3, 9.6, 15.2 and calculate_filter_parameters */
  for ( int n = 0; n < W * H; n++ ) {
    const MB & m = mbs[ n ];
    int l = level;
    if ( segmentation.initialized() ) {
      const Segmentation & s = segmentation.get();
      int d = 0;
      for ( int i = 0; i < 4; i++ ) d = m.segment == i ? (int) s.segment_filter_adjustments.at( i ) : d;
      l = clamp63( s.absolute_segment_adjustments ? d : level + d );
    }
    if ( adjust.initialized() ) {
      const FilterAdjustments & a = adjust.get();
      for ( int i = 0; i < 4; i++ ) l += m.ref == i ? a.loopfilter_ref_adjustments.at( i ) : 0;
      l += m.ref == CURRENT_FRAME ? ( m.mode == B_PRED ? a.loopfilter_mode_adjustments.at( 0 ) : 0 )
        : m.mode == ZEROMV ? a.loopfilter_mode_adjustments.at( 1 ) : m.mode == SPLITMV ? a.loopfilter_mode_adjustments.at( 3 ) : a.loopfilter_mode_adjustments.at( 2 );
    }
    l = clamp63( l );
    int interior = l;
    if ( sharpness ) { interior >>= sharpness > 4 ? 2 : 1; if ( interior > 9 - sharpness ) interior = 9 - sharpness; }
    if ( interior == 0 ) interior = 1;
    const int hev = key ? ( l >= 40 ? 2 : l >= 15 ? 1 : 0 ) : ( l >= 40 ? 3 : l >= 20 ? 2 : l >= 15 ? 1 : 0 );
    const bool on = ( level != 0 ) & ( l != 0 );
    const bool inner = on & ( m.nonzero | not m.coded );
    for ( int pl = 0; pl < 3; pl++ ) for ( int k = 0; k < 4; k++ ) {
      const Call & c = calls[ n ][ k ][ pl ];
      const bool want = k == MBV ? on & ( n % W > 0 ) : k == MBH ? on & ( n / W > 0 ) : inner;
      sym_assert( c.called == want, "edge filtered exactly when the standard filters it" );
      sym_assert( not want | ( c.limit == interior ), "interior limit" );
      sym_assert( not want | ( c.blimit == ( k == MBV or k == MBH ? ( l + 2 ) * 2 + interior : l * 2 + interior ) ), "edge limit" );
      sym_assert( not want | ( c.hev == hev ), "high edge variance threshold" );
    }
    if ( n == vary ) { sym_possible( on and not inner, "inner edges skipped" ); sym_possible( not on, "unfiltered" ); }
  }
  sym_reach( "strength" );
}
extern "C" void strength_key( void ) { strength<KeyFrame, true>(); }
extern "C" void strength_inter( void ) { strength<InterFrame, false>(); }
