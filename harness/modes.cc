// C07, C17: macroblock headers - segment, skip flag, reference, modes and vectors - against the standard's bits, contexts and predictions
#include "header_model.hh"
#include "scorer.hh"

struct Code { int symbol; const char * bits; int probs[ 8 ]; };
static const Code KF_Y[] = { { B_PRED, "0", { 0 } }, { DC_PRED, "100", { 0, 1, 2 } }, { V_PRED, "101", { 0, 1, 2 } }, { H_PRED, "110", { 0, 1, 3 } }, { TM_PRED, "111", { 0, 1, 3 } } };
static const Code Y[] = { { DC_PRED, "0", { 0 } }, { V_PRED, "100", { 0, 1, 2 } }, { H_PRED, "101", { 0, 1, 2 } }, { TM_PRED, "110", { 0, 1, 3 } }, { B_PRED, "111", { 0, 1, 3 } } };
static const Code UVM[] = { { DC_PRED, "0", { 0 } }, { V_PRED, "10", { 0, 1 } }, { H_PRED, "110", { 0, 1, 2 } }, { TM_PRED, "111", { 0, 1, 2 } } };
static const Code B[] = { { B_DC_PRED, "0", { 0 } }, { B_TM_PRED, "10", { 0, 1 } }, { B_VE_PRED, "110", { 0, 1, 2 } }, { B_HE_PRED, "11100", { 0, 1, 2, 3, 4 } }, { B_RD_PRED, "111010", { 0, 1, 2, 3, 4, 5 } }, { B_VR_PRED, "111011", { 0, 1, 2, 3, 4, 5 } },
  { B_LD_PRED, "11110", { 0, 1, 2, 3, 6 } }, { B_VL_PRED, "111110", { 0, 1, 2, 3, 6, 7 } }, { B_HD_PRED, "1111110", { 0, 1, 2, 3, 6, 7, 8 } }, { B_HU_PRED, "1111111", { 0, 1, 2, 3, 6, 7, 8 } } };
static const Code REF[] = { { ZEROMV, "0", { 0 } }, { NEARESTMV, "10", { 0, 1 } }, { NEARMV, "110", { 0, 1, 2 } }, { NEWMV, "1110", { 0, 1, 2, 3 } }, { SPLITMV, "1111", { 0, 1, 2, 3 } } };
static const Code SUB[] = { { LEFT4X4, "0", { 0 } }, { ABOVE4X4, "10", { 0, 1 } }, { ZERO4X4, "110", { 0, 1, 2 } }, { NEW4X4, "111", { 0, 1, 2 } } };
static const Code SPLIT[] = { { 3, "0", { 0 } }, { 2, "10", { 0, 1 } }, { 0, "110", { 0, 1, 2 } }, { 1, "111", { 0, 1, 2 } } };
template <unsigned K, class P> static void code( const Code ( & codes )[ K ], int symbol, P prob )
{ for ( const Code & c : codes ) if ( c.symbol == symbol ) for ( unsigned i = 0; c.bits[ i ]; i++ ) w( c.bits[ i ] == '1', prob( c.probs[ i ] ) ); }
template <class T> static auto of( const T & t ) { return [&t] ( int i ) -> int { return t[ i ]; }; }

struct V { int x, y; };
static V neg( V v, bool on ) { return { on ? (int16_t) -v.x : v.x, on ? (int16_t) -v.y : v.y }; }
static bool same( V a, V b ) { return ( a.x == b.x ) & ( a.y == b.y ); }
static bool zero( V a ) { return ( a.x == 0 ) & ( a.y == 0 ); }
static V sel( bool c, V a, V b ) { return { c ? a.x : b.x, c ? a.y : b.y }; }
static int clampi( int v, int lo, int hi ) { return v < lo ? lo : v > hi ? hi : v; }
/* a neighbour: whether it is predicted from another picture, with inverted vectors, and its sub-blocks' vectors */
struct Near { bool in = false, flip = false, split = false; V b[ 16 ] {}; };
static V vec() { V v; v.x = (int16_t) sym_u16( "neighbour x" ); v.y = (int16_t) sym_u16( "neighbour y" ); return v; }
static Near make( InterFrameMacroblock & mb )
{
  Near n; n.in = sym_concrete( sym_bits( "neighbour is inter", 1 ) ); mb.header_.is_inter_mb = n.in;
  n.flip = n.in & sym_bits( "neighbour's sign bias", 1 ); mb.header_.motion_vectors_flipped_ = n.flip;
  if ( not n.in ) { mb.Y2_.set_prediction_mode( DC_PRED ); return n; }
  n.split = sym_bits( "neighbour is split", 1 ); mb.Y2_.set_prediction_mode( n.split ? SPLITMV : NEWMV );
  const V base = vec();
  for ( unsigned i = 0; i < 16; i++ ) {
    n.b[ i ] = base; const bool edge = i / 4 == 3 or i % 4 == 3;
    if ( edge and i != 15 and sym_param( "subs", 0 ) ) { const V other = vec(); n.b[ i ] = sel( n.split, other, base ); }
    mb.Y_.at( i % 4, i / 4 ).set_motion_vector( MotionVector( n.b[ i ].x, n.b[ i ].y ) );
  }
  return n;
}
/* RFC 6386 18.3 (vp8_find_near_mvs) */
struct Census { V mv[ 4 ] {}; int cnt[ 4 ] {}; };
static Census find_near( const Near * above, const Near * left, const Near * corner, bool flip )
{
  Census c; int last = 0;
  auto add = [&] ( const Near * n, int weight ) {
    if ( not n or not n->in ) return;
    const V v = neg( n->b[ 15 ], n->flip != flip ); const bool moves = not zero( v );
    V latest = c.mv[ 0 ]; for ( int i = 1; i < 4; i++ ) latest = sel( last == i, c.mv[ i ], latest );
    last += moves & not same( v, latest );
    for ( int i = 1; i < 4; i++ ) c.mv[ i ] = sel( moves & ( last == i ), v, c.mv[ i ] );
    const int where = moves ? last : 0; for ( int i = 0; i < 4; i++ ) c.cnt[ i ] += where == i ? weight : 0;
  };
  add( above, 2 ); add( left, 2 ); add( corner, 1 );
  c.cnt[ 1 ] += ( ( c.cnt[ 3 ] > 0 ) & same( c.mv[ 3 ], c.mv[ 1 ] ) ) ? 1 : 0; // three entries were made: the latest is the third
  auto split = [&] ( const Near * n ) { return n ? (int) n->split : 0; };
  c.cnt[ 3 ] = ( split( above ) + split( left ) ) * 2 + split( corner );
  const bool swap = c.cnt[ 2 ] > c.cnt[ 1 ]; const int a = c.cnt[ 1 ], b = c.cnt[ 2 ]; c.cnt[ 1 ] = swap ? b : a; c.cnt[ 2 ] = swap ? a : b;
  const V p = c.mv[ 1 ], q = c.mv[ 2 ]; c.mv[ 1 ] = sel( swap, q, p ); c.mv[ 2 ] = sel( swap, p, q );
  c.mv[ 0 ] = sel( c.cnt[ 1 ] >= c.cnt[ 0 ], c.mv[ 1 ], c.mv[ 0 ] );
  return c;
}
static V clamped( V v, int col, int row, int width, int height )
{ return { clampi( v.x, -( col * 128 ) - 128, ( width - 1 - col ) * 128 + 128 ), clampi( v.y, -( row * 128 ) - 128, ( height - 1 - row ) * 128 + 128 ) }; }
/* a vector difference in the long form (16..1023 half units), read row first */
static int w_component( const int * p )
{
  if ( sym_param( "short", 0 ) ) { const int m = sym_concrete( sym_range( "difference", 0, 7 ) ); const bool s = sym_bits( "sign", 1 ); w( 0, p[ 0 ] ); w( m >> 2, p[ 2 ] ); w( m >> 1 & 1, p[ m & 4 ? 6 : 3 ] ); w( m & 1, p[ ( m & 4 ? 7 : 4 ) + ( m >> 1 & 1 ) ] ); if ( m ) w( s, p[ 1 ] ); return s ? -2 * m : 2 * m; }
  const int m = sym_bits( "difference", 10 ) | 16; const bool s = sym_bits( "sign", 1 );
  w( 1, p[ 0 ] ); for ( int i : { 0, 1, 2, 9, 8, 7, 6, 5, 4, 3 } ) w( m >> i & 1, p[ 9 + i ] ); w( s, p[ 1 ] );
  return s ? -2 * m : 2 * m;
}
static int mvp[ 38 ];
static V w_vector() { V v; v.y = w_component( mvp ); v.x = w_component( mvp + 19 ); return v; }
static V sum( V a, V b ) { return { (int16_t) ( a.x + b.x ), (int16_t) ( a.y + b.y ) }; }
static int eighth( int s ) { return s >= 0 ? ( s + 4 ) >> 3 : -( ( 4 - s ) >> 3 ); }
static bool is( const MotionVector & m, V v ) { return ( m.x() == v.x ) & ( m.y() == v.y ); }

static ProbabilityArray< num_segments > segp;
template <class H> static int w_common( H & h, int & skip )
{
  int seg = -1; skip = -1;
  if ( sym_param( "segment", 0 ) ) {
    h.update_segmentation.initialize(); h.update_segmentation.get().update_mb_segmentation_map = true; h.update_segmentation.get().mb_segmentation_map.initialize();
    for ( int i = 0; i < 3; i++ ) segp.at( i ) = sym_u8( "segment probability" );
    seg = sym_concrete( sym_range( "segment", 0, 3 ) ); w( seg >> 1, segp.at( 0 ) ); w( seg & 1, segp.at( 1 + ( seg >> 1 ) ) );
  }
  if ( sym_param( "skip", 0 ) ) { const int p = sym_u8( "skip probability" ); h.prob_skip_false.initialize( p ); skip = sym_bits( "skip", 1 ); w( skip, p ); }
  return seg;
}
template <class MB> static void check_common( const MB & mb, int seg, int skip )
{
  if ( seg < 0 ) sym_assert( not mb.segment_id_update_.initialized(), "no segment" ); else sym_assert( mb.segment_id_update_.initialized() and mb.segment_id_update_.get() == seg, "segment" );
  if ( skip < 0 ) sym_assert( not mb.mb_skip_coeff_.initialized(), "no skip flag" ); else sym_assert( mb.mb_skip_coeff_.initialized() and mb.mb_skip_coeff_.get() == (bool) skip, "skip flag" );
}
static void send() { tape_reset( TAPE_PLAY ); BoolEncoder out; for ( unsigned i = 0; i < wants; i++ ) out.put( want[ i ].v, want[ i ].p ); }
static void received() { sym_assert( tape_read() == wants, "reads exactly the macroblock's bits" ); bool ok = true; for ( unsigned i = 0; i < wants; i++ ) ok = ok & ( tape_prob( i ) == want[ i ].p ); sym_assert( ok, "with the standard's probabilities" ); }
template <class MB, class H> static void written( const MB & mb, const H & h, const ProbabilityTables & t )
{
  tape_reset( TAPE_COPY ); BoolEncoder out; mb.serialize( out, h, segp, t );
  sym_assert( tape_written() == wants, "writes exactly the bits that were read" );
  bool ok = true; for ( unsigned i = 0; i < wants; i++ ) ok = ok & ( tape_value( i ) == want[ i ].v ) & ( tape_prob( i ) == want[ i ].p ); sym_assert( ok, "the same bits with the same probabilities" );
}
/* modes of the sub-blocks: one arbitrary, the others in a fixed mixture */
static int sub_mode( int i, int n ) { return i == sym_param( "at", 0 ) ? (int) sym_concrete( sym_range( "sub-block mode", 0, n - 1 ) ) : ( i * 7 + i / 3 + sym_param( "mix", 0 ) ) % n; }
static const int MODES[] = { DC_PRED, V_PRED, H_PRED, TM_PRED, B_PRED };
static const int IMPLIED[] = { B_DC_PRED, B_VE_PRED, B_HE_PRED, B_TM_PRED };

extern "C" void key_modes( void )
{
  start(); KeyFrame f( 48, 48 ); KeyFrameHeader & h = f.header_; ProbabilityTables t; const int col = sym_param( "col", 1 ), row = sym_param( "row", 1 );
  f.Y2_.at( col, row ).set_coded( true ); for ( int i = 0; i < 16; i++ ) f.Y_.at( col * 4 + i % 4, row * 4 + i / 4 ).set_Y_after_Y2(); // as in a frame not parsed yet
  int above[ 4 ] {}, left[ 4 ] {}; // B_DC_PRED beyond the frame
  static_assert( B_DC_PRED == 0, "" );
  for ( int i = 0; i < 4; i++ ) {
    if ( row ) { above[ i ] = sym_range( "mode above", 0, 9 ); f.Y_.at( col * 4 + i, row * 4 - 1 ).set_prediction_mode( (bmode) above[ i ] ); }
    if ( col ) { left[ i ] = sym_range( "mode left", 0, 9 ); f.Y_.at( col * 4 - 1, row * 4 + i ).set_prediction_mode( (bmode) left[ i ] ); }
  }
  int skip; const int seg = w_common( h, skip );
  const int k = sym_concrete( sym_range( "mode", 0, 4 ) ), mode = MODES[ k ], uv = MODES[ sym_concrete( sym_range( "chroma mode", 0, 3 ) ) ];
  code( KF_Y, mode, of( STD_KF_Y ) );
  int sub[ 16 ];
  for ( int i = 0; i < 16; i++ ) {
    if ( mode != B_PRED ) { sub[ i ] = IMPLIED[ k ]; continue; }
    sub[ i ] = sub_mode( i, 10 ); const int a = i < 4 ? above[ i ] : sub[ i - 4 ], l = i % 4 ? sub[ i - 1 ] : left[ i / 4 ];
    code( B, sub[ i ], [&] ( int n ) -> int { return STD_KF_B[ a * 90 + l * 9 + n ]; } );
  }
  code( UVM, uv, of( STD_KF_UV ) );
  send(); BoolDecoder in( Chunk( nullptr, 0 ) );
  const KeyFrameMacroblock mb( f.macroblock_headers_.get().at( col, row ).context(), in, h, segp, t, f.Y2_, f.Y_, f.U_, f.V_, false );
  received(); check_common( mb, seg, skip );
  sym_assert( mb.y_prediction_mode() == mode and mb.uv_prediction_mode() == uv, "the modes sent" );
  sym_assert( mb.Y2_.coded() == ( mode != B_PRED ), "second-order block exactly when sub-blocks are not predicted apart" );
  sym_assert( not mb.inter_coded() and mb.header_.reference() == CURRENT_FRAME, "predicted from the frame itself" );
  for ( int i = 0; i < 16; i++ ) { const YBlock & b = mb.Y_.at( i % 4, i / 4 ); sym_assert( b.prediction_mode() == sub[ i ], "the sub-block's mode" ); sym_assert( mode != B_PRED or b.type_ == Y_without_Y2, "kind of luma block" ); }
  written( mb, h, t ); sym_reach( "macroblock" );
}

extern "C" void inter_modes( void )
{
  start(); InterFrame f( 48, 48 ); InterFrameHeader & h = f.header_; ProbabilityTables t; const int col = sym_param( "col", 1 ), row = sym_param( "row", 1 );
  auto & mbs = f.macroblock_headers_.get(); Near above, left, corner;
  if ( row ) above = make( mbs.at( col, row - 1 ) ); if ( col ) left = make( mbs.at( col - 1, row ) ); if ( row and col ) corner = make( mbs.at( col - 1, row - 1 ) );
  for ( int i = 0; i < 38; i++ ) t.motion_vector_probs.at( i / 19 ).at( i % 19 ) = mvp[ i ] = sym_u8( "vector probability" );
  int yp[ 4 ], up[ 3 ]; for ( int i = 0; i < 4; i++ ) t.y_mode_probs.at( i ) = yp[ i ] = sym_u8( "y mode probability" ); for ( int i = 0; i < 3; i++ ) t.uv_mode_probs.at( i ) = up[ i ] = sym_u8( "uv mode probability" );
  const int pi = sym_u8( "prob inter" ); const int pl = sym_u8( "prob last" ); const int pg = sym_u8( "prob golden" ); h.prob_inter = pi; h.prob_references_last = pl; h.prob_references_golden = pg;
  const bool sg = sym_bits( "golden bias", 1 ); const bool sa = sym_bits( "alternate bias", 1 ); h.sign_bias_golden = sg; h.sign_bias_alternate = sa;
  int skip; const int seg = w_common( h, skip );
  const int ref = sym_param( "ref", 1 );
  w( ref > 0, pi ); if ( ref ) w( ref > 1, pl ); if ( ref > 1 ) w( ref > 2, pg );
  const bool flip = ( ( ref == 2 ) & sg ) | ( ( ref == 3 ) & sa );
  int mode, uv = DC_PRED, layout = -1, sub[ 16 ]; V mv[ 16 ] {};
  if ( ref == 0 ) {
    const int k = sym_concrete( sym_range( "mode", 0, 4 ) ); mode = MODES[ k ]; uv = MODES[ sym_concrete( sym_range( "chroma mode", 0, 3 ) ) ];
    code( Y, mode, of( yp ) );
    for ( int i = 0; i < 16; i++ ) if ( mode != B_PRED ) sub[ i ] = IMPLIED[ k ]; else { sub[ i ] = sub_mode( i, 10 ); code( B, sub[ i ], of( STD_B ) ); }
    code( UVM, uv, of( up ) );
  } else {
    const Census c = find_near( row ? &above : nullptr, col ? &left : nullptr, row and col ? &corner : nullptr, flip );
    mode = REF[ sym_param( "mode", 0 ) ].symbol;
    code( REF, mode, [&] ( int i ) -> int { return STD_MV_COUNTS[ c.cnt[ i ] * 4 + i ]; } );
    auto place = [&] ( V v ) { return clamped( v, col, row, 3, 3 ); };
    V one {};
    switch ( mode ) {
    case NEARESTMV: one = place( c.mv[ 1 ] ); break;
    case NEARMV: one = place( c.mv[ 2 ] ); break;
    case NEWMV: one = sum( w_vector(), place( c.mv[ 0 ] ) ); break;
    default: break;
    }
    for ( V & v : mv ) v = one;
    if ( mode == SPLITMV ) {
      layout = sym_param( "layout", 0 ); code( SPLIT, layout, of( STD_SPLIT ) );
      const int at = sym_param( "at", 0 ); bool done[ 16 ] {};
      for ( int b = 0, part = 0; b < 16; b++ ) {
        if ( done[ b ] ) continue;
        const V none {}, up = b < 4 ? ( row ? above.b[ b + 12 ] : none ) : mv[ b - 4 ], lf = b % 4 ? mv[ b - 1 ] : ( col ? left.b[ b + 3 ] : none );
        const bool lez = zero( lf ), aez = zero( up ), lea = same( lf, up ); const int ctx = lea & lez ? 4 : lea ? 3 : aez ? 2 : lez ? 1 : 0;
        const int s = part == at ? (int) sym_concrete( sym_range( "sub-block mode", 0, 3 ) ) : ( part * 3 + part / 4 + sym_param( "mix", 0 ) ) % 4;
        code( SUB, SUB[ s ].symbol, [&] ( int n ) -> int { return STD_SUBMV[ ctx * 3 + n ]; } );
        V v = none; if ( s == 0 ) v = lf; else if ( s == 1 ) v = up; else if ( s == 3 ) v = sum( w_vector(), place( c.mv[ 0 ] ) );
        auto belongs = [&] ( int i ) { return layout == 0 ? i / 8 == b / 8 : layout == 1 ? i % 4 / 2 == b % 4 / 2 : layout == 2 ? i / 8 == b / 8 and i % 4 / 2 == b % 4 / 2 : i == b; };
        for ( int i = 0; i < 16; i++ ) if ( belongs( i ) ) { mv[ i ] = v; sub[ i ] = SUB[ s ].symbol; done[ i ] = true; }
        part++;
      }
    }
  }
  send(); BoolDecoder in( Chunk( nullptr, 0 ) );
  const InterFrameMacroblock mb( mbs.at( col, row ).context(), in, h, segp, t, f.Y2_, f.Y_, f.U_, f.V_, false );
  received(); check_common( mb, seg, skip );
  sym_assert( mb.inter_coded() == ( ref > 0 ) and mb.header_.reference() == ( ref == 0 ? CURRENT_FRAME : ref == 1 ? LAST_FRAME : ref == 2 ? GOLDEN_FRAME : ALTREF_FRAME ), "the reference sent" );
  sym_assert( mb.header_.motion_vectors_flipped_ == flip, "sign bias of the reference" );
  sym_assert( mb.y_prediction_mode() == mode, "the mode sent" ); if ( ref == 0 ) sym_assert( mb.uv_prediction_mode() == uv, "the chroma mode sent" );
  sym_assert( mb.Y2_.coded() == ( mode != B_PRED and mode != SPLITMV ), "second-order block" );
  if ( mode == SPLITMV ) sym_assert( mb.header_.partition_id.initialized() and mb.header_.partition_id.get() == layout, "the split sent" );
  for ( int i = 0; i < 16; i++ ) {
    const YBlock & b = mb.Y_.at( i % 4, i / 4 );
    if ( ref == 0 or mode == SPLITMV ) sym_assert( b.prediction_mode() == sub[ i ], "the sub-block's mode" );
    sym_assert( ( mode != B_PRED and mode != SPLITMV ) or b.type_ == Y_without_Y2, "kind of luma block" );
    sym_assert( is( b.motion_vector(), mv[ i ] ), "the luma vector" );
  }
  if ( ref ) for ( int i = 0; i < 4; i++ ) {
    auto l = [&] ( int c, int r ) { const MotionVector & m = mb.Y_.at( i % 2 * 2 + c, i / 2 * 2 + r ).motion_vector(); return V { m.x(), m.y() }; };
    const int x = l( 0, 0 ).x + l( 1, 0 ).x + l( 0, 1 ).x + l( 1, 1 ).x, y = l( 0, 0 ).y + l( 1, 0 ).y + l( 0, 1 ).y + l( 1, 1 ).y;
    const V v = { eighth( x ), eighth( y ) };
    sym_assert( is( mb.U_.at( i % 2, i / 2 ).motion_vector(), v ), "the chroma vector is the rounded mean of its four luma vectors" );
  }
  written( mb, h, t ); sym_reach( "macroblock" );
}

/* the census alone, and the clamp, anywhere in any frame */
extern "C" void census( void )
{
  start(); InterFrame f( 32, 32 ); auto & mbs = f.macroblock_headers_.get(); const Near above = make( mbs.at( 1, 0 ) ), left = make( mbs.at( 0, 1 ) ), corner = make( mbs.at( 0, 0 ) );
  InterFrameMacroblock & mb = mbs.at( 1, 1 ); const bool flip = sym_bits( "sign bias", 1 ); mb.header_.motion_vectors_flipped_ = flip;
  const Scorer s = mb.motion_vector_census(); const Census c = find_near( &above, &left, &corner, flip );
  sym_assert( is( s.best(), c.mv[ 0 ] ), "best vector" ); sym_assert( is( s.nearest(), c.mv[ 1 ] ), "nearest vector" ); sym_assert( is( s.near(), c.mv[ 2 ] ), "near vector" );
  for ( int i = 0; i < 4; i++ ) sym_assert( s.mode_contexts().at( i ) == c.cnt[ i ], "mode context" );
  sym_reach( "census" );
}
extern "C" void clamps( void )
{
  start(); InterFrame f( 16, 16 ); auto c = f.macroblock_headers_.get().at( 0, 0 ).context();
  c.width = sym_range( "width", 1, 1024 ); c.height = sym_range( "height", 1, 1024 ); c.column = sym_range( "column", 0, 1023 ); c.row = sym_range( "row", 0, 1023 ); sym_assume( ( c.column < c.width ) & ( c.row < c.height ) );
  const V v = vec(); const V want = clamped( v, c.column, c.row, c.width, c.height );
  sym_assert( is( Scorer::clamp( MotionVector( v.x, v.y ), c ), want ), "clamped into the frame's surroundings" ); sym_reach( "clamp" );
}
