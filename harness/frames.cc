// C04, C08, C09, C19: whole frames of several macroblocks - which partition each row's tokens travel in, the contexts they leave
// for their neighbours, and the segment map - against the standard's bits (RFC 6386 5, 9.3, 9.5, 13.3)
#include "state.cc"
#include "uncompressed_chunk.hh"

static unsigned salt; static unsigned pick( unsigned i, unsigned n ) { return ( ( i * 2654435761u + salt * 40503u * 977u ) >> 9 ) % n; }
static void flush( unsigned channel ) { for ( unsigned i = 0; i < wants; i++ ) route_expect( channel, want[ i ].v, want[ i ].p ); wants = 0; }
static const int FBAND[ 16 ] = { 0, 1, 2, 3, 6, 4, 5, 6, 6, 6, 6, 6, 6, 6, 6, 7 }, FZZ[ 16 ] = { 0, 1, 4, 8, 5, 2, 3, 6, 9, 12, 13, 10, 7, 11, 14, 15 };
struct Mb { int seg = -1, kind = 0; bool skip = false, y2 = true, any = false; int c[ 25 ][ 16 ] {}; };
static unsigned blocks; static int only = -1, nth; /* only: the one block of the macroblock that may have coefficients */
/* one block's tokens: nothing, a one, a run of zeros and a large value, or a two at the end */
static bool w_block( int * c, int type, int ctx, const Tables & t )
{
  auto p = [&] ( int i, int x, int node ) { return t.c[ type * 264 + FBAND[ i ] * 33 + x * 11 + node ]; };
  const int first = type == 0; unsigned what = pick( blocks++, 7 ); if ( only >= 0 ) what = nth++ == only ? what % 4 ? what : 1 : 0;
  if ( what == 1 or what == 4 ) {
    w( 1, p( first, ctx, 0 ) ); w( 1, p( first, ctx, 1 ) ); w( 0, p( first, ctx, 2 ) ); const bool s = sym_bits( "sign", 1 ); w( s ); c[ FZZ[ first ] ] = s ? -1 : 1; w( 0, p( first + 1, 1, 0 ) ); return true;
  } else if ( what == 2 ) {
    w( 1, p( first, ctx, 0 ) ); w( 0, p( first, ctx, 1 ) ); int i = first + 1; for ( ; i < 5; i++ ) w( 0, p( i, 0, 1 ) );
    for ( int n : { 1, 2, 3, 6, 8, 10 } ) w( 1, p( i, 0, n ) ); static const uint8_t cat6[] = { 254, 254, 243, 230, 196, 177, 153, 140, 133, 130, 129 };
    const int extra = sym_bits( "extra", 11 ); for ( int k = 0; k < 11; k++ ) w( extra >> ( 10 - k ) & 1, cat6[ k ] ); const bool s = sym_bits( "sign", 1 ); w( s ); c[ FZZ[ i ] ] = s ? -67 - extra : 67 + extra; w( 0, p( i + 1, 2, 0 ) ); return true;
  } else if ( what == 3 ) {
    w( 1, p( first, ctx, 0 ) ); w( 0, p( first, ctx, 1 ) ); for ( int i = first + 1; i < 15; i++ ) w( 0, p( i, 0, 1 ) );
    w( 1, p( 15, 0, 1 ) ); w( 1, p( 15, 0, 2 ) ); w( 0, p( 15, 0, 3 ) ); w( 0, p( 15, 0, 4 ) ); const bool s = sym_bits( "sign", 1 ); w( s ); c[ 15 ] = s ? -2 : 2; return true;
  }
  w( 0, p( first, ctx, 0 ) ); return false;
}
static bool above[ 16 ][ 9 ], beside[ 9 ]; static int above_b[ 64 ], beside_b[ 4 ];
static void w_tokens( Mb & b, unsigned col, const Tables & t )
{
  bool * a = above[ col ];
  if ( b.skip ) { for ( int i = 0; i < 8 + b.y2; i++ ) a[ i ] = beside[ i ] = false; return; }
  if ( b.y2 ) { a[ 8 ] = beside[ 8 ] = w_block( b.c[ 24 ], 1, a[ 8 ] + beside[ 8 ], t ); b.any |= a[ 8 ]; }
  for ( int i = 0; i < 16; i++ ) { a[ i % 4 ] = beside[ i / 4 ] = w_block( b.c[ i ], b.y2 ? 0 : 3, a[ i % 4 ] + beside[ i / 4 ], t ); b.any |= a[ i % 4 ]; }
  for ( int k = 0; k < 2; k++ ) for ( int i = 0; i < 4; i++ ) { bool & x = a[ 4 + 2 * k + i % 2 ], & y = beside[ 4 + 2 * k + i / 2 ]; const bool nz = w_block( b.c[ 16 + 4 * k + i ], 2, x + y, t ); x = y = nz; b.any |= nz; }
}
static unsigned mw, mh; static Mb mbs[ 64 ];
template <class M> static void w_mb_first( M & m, Mb & b, unsigned i )
{
  if ( m.seg_on and m.seg_map ) { b.seg = pick( i + 77, 4 ); auto p = [&] ( int k ) { return m.sm[ k ].on ? m.sm[ k ].v : 255; }; w( b.seg >> 1, p( 0 ) ); w( b.seg & 1, p( 1 + ( b.seg >> 1 ) ) ); }
  if ( m.skip.on ) { b.skip = pick( i + 555, 3 ) == 0; w( b.skip, m.skip.v ); }
}
static void w_mb( KeyModel & m, Mb & b, unsigned col, unsigned row, const Tables & )
{
  const unsigned i = row * mw + col; w_mb_first( m, b, i ); b.kind = pick( i + 333, 3 ); const int * p = nullptr; (void) p;
  if ( col == 0 ) for ( int & x : beside_b ) x = 0;
  if ( b.kind == 0 ) {
    b.y2 = false; w( 0, STD_KF_Y[ 0 ] );
    for ( int k = 0; k < 16; k++ ) { int & x = above_b[ col * 4 + k % 4 ], & y = beside_b[ k / 4 ]; w( 0, STD_KF_B[ ( x * 10 + y ) * 9 ] ); x = y = 0; }
  } else {
    const bool tm = b.kind == 2; w( 1, STD_KF_Y[ 0 ] ); w( tm, STD_KF_Y[ 1 ] ); w( tm, STD_KF_Y[ tm ? 3 : 2 ] );
    for ( int k = 0; k < 4; k++ ) above_b[ col * 4 + k ] = beside_b[ k ] = tm ? 1 : 0;
  }
  w( 0, STD_KF_UV[ 0 ] );
}
static void w_mb( InterModel & m, Mb & b, unsigned col, unsigned row, const Tables & t )
{
  const unsigned i = row * mw + col; w_mb_first( m, b, i ); b.kind = pick( i + 333, 4 ); b.y2 = b.kind < 2;
  w( b.kind == 1 or b.kind == 2, m.pi );
  if ( b.kind == 0 ) { w( 0, t.y[ 0 ] ); w( 0, t.u[ 0 ] ); return; }
  if ( b.kind == 3 ) { w( 1, t.y[ 0 ] ); w( 1, t.y[ 1 ] ); w( 1, t.y[ 3 ] ); for ( int k = 0; k < 16; k++ ) w( 0, STD_B[ 0 ] ); w( 0, t.u[ 0 ] ); return; }
  int inter = 0, split = 0; auto near = [&] ( bool there, unsigned j, int weight ) { if ( not there ) return; if ( mbs[ j ].kind == 1 or mbs[ j ].kind == 2 ) inter += weight; if ( mbs[ j ].kind == 2 ) split += weight; };
  near( row > 0, i - mw, 2 ); near( col > 0, i - 1, 2 ); near( row > 0 and col > 0, i - mw - 1, 1 );
  w( b.kind == 2, m.pl ); if ( b.kind == 2 ) w( 0, m.pg );
  if ( b.kind == 1 ) { w( 0, STD_MV_COUNTS[ inter * 4 ] ); return; }
  w( 1, STD_MV_COUNTS[ inter * 4 ] ); w( 1, STD_MV_COUNTS[ 1 ] ); w( 1, STD_MV_COUNTS[ 2 ] ); w( 1, STD_MV_COUNTS[ split * 4 + 3 ] );
  w( 0, STD_SPLIT[ 0 ] ); for ( int k = 0; k < 16; k++ ) { w( 1, STD_SUBMV[ 12 ] ); w( 1, STD_SUBMV[ 13 ] ); w( 0, STD_SUBMV[ 14 ] ); }
}
static int mode_of( const Mb & b, bool key ) { return key ? b.kind == 0 ? B_PRED : b.kind == 1 ? DC_PRED : TM_PRED : b.kind == 0 ? DC_PRED : b.kind == 1 ? ZEROMV : b.kind == 2 ? SPLITMV : B_PRED; }

static uint8_t whole[ 256 ]; static unsigned whole_size, parts; static int old_map[ 64 ];
template <class M> static DecoderState prepare( M & m, bool key, Tables & t, Tables & now, Seg & s, Lf & f )
{
  mw = sym_param( "mw", 2 ); mh = sym_param( "mh", 3 ); salt = sym_param( "salt", 0 ); const unsigned log2 = sym_param( "log2", 1 ); parts = 1 << log2; m.parts = log2; m.h.log2_number_of_dct_partitions = log2;
  m.w_all(); DecoderState d( 16 * mw, 16 * mh );
  for ( int i = 0; i < 1056; i++ ) t.c[ i ] = STD_COEFF_DEFAULT[ i ]; for ( int i = 0; i < 4; i++ ) t.y[ i ] = STD_Y_DEFAULT[ i ]; for ( int i = 0; i < 3; i++ ) t.u[ i ] = STD_UV_DEFAULT[ i ]; for ( int i = 0; i < 38; i++ ) t.m[ i ] = STD_MV_DEFAULT[ i ];
  if ( sym_param( "segments", 0 ) ) { Segmentation g( 16 * mw, 16 * mh ); s.on = true; for ( unsigned i = 0; i < mw * mh; i++ ) { old_map[ i ] = pick( i + 909, 4 ); g.map.at( i % mw, i / mw ) = old_map[ i ]; } d.segmentation.initialize( g ); } else for ( int & x : old_map ) x = 3;
  if ( key ) { s = Seg(); f = Lf(); for ( int & x : old_map ) x = 3; }
  now = t; directed( m, now, s, f );
  return d;
}
template <class M> static void w_rest( M & m, bool key, const Tables & now )
{
  for ( unsigned row = 0; row < mh; row++ ) for ( unsigned col = 0; col < mw; col++ ) w_mb( m, mbs[ row * mw + col ], col, row, now );
  flush( 0 );
  for ( unsigned row = 0; row < mh; row++ ) { for ( bool & x : beside ) x = false; for ( unsigned col = 0; col < mw; col++ ) { if ( sym_param( "sparse", 0 ) ) { only = ( ( row * mw + col ) * 7 + salt ) % 25; nth = not mbs[ row * mw + col ].y2; } w_tokens( mbs[ row * mw + col ], col, now ); } flush( 1 + row % parts ); }
  unsigned n = 0; const unsigned tag = ( key ? 0 : 1 ) | 1 << 4 | 4 << 5; whole[ n++ ] = tag; whole[ n++ ] = tag >> 8; whole[ n++ ] = tag >> 16;
  if ( key ) for ( unsigned x : { 0x9du, 0x01u, 0x2au, 16 * mw & 255, 16 * mw >> 8, 16 * mh & 255, 16 * mh >> 8 } ) whole[ n++ ] = x;
  whole[ n++ ] = 1; n += 3; for ( unsigned i = 0; i + 1 < parts; i++ ) { whole[ n ] = 3; n += 3; } for ( unsigned i = 0; i < parts; i++ ) { whole[ n ] = 2 + i; n += 3; }
  whole_size = n;
}
template <class F, class M> static void frames( M & m, bool key )
{
  Tables t, now; Seg s; Lf f; DecoderState d = prepare( m, key, t, now, s, f ); const ProbabilityTables before = d.probability_tables;
  if ( not key ) { InterModel & im = reinterpret_cast<InterModel &>( m ); if ( im.iy ) for ( int i = 0; i < 4; i++ ) now.y[ i ] = im.y[ i ]; if ( im.iu ) for ( int i = 0; i < 3; i++ ) now.u[ i ] = im.u[ i ]; }
  w_rest( m, key, now ); tape_reset( TAPE_ROUTE );
  const F frame = d.template parse_and_apply<F>( UncompressedChunk( Chunk( whole, whole_size ), 16 * mw, 16 * mh, false ) );
  for ( unsigned i = 0; i <= parts; i++ ) sym_assert( route_read_exactly( i ), i ? "each partition holds its rows' tokens, read with the probabilities their contexts select" : "frame and macroblock headers" );
  sym_assert( d.segmentation.initialized() == s.on, "segmentation" );
  for ( unsigned i = 0; i < mw * mh; i++ ) {
    const Mb & b = mbs[ i ]; const auto & g = frame.macroblock_headers_.get().at( i % mw, i / mw ); bool ok = true;
    sym_assert( g.y_prediction_mode() == mode_of( b, key ), "mode" ); sym_assert( g.has_nonzero() == b.any, "the macroblock has residue exactly when a block does" );
    for ( int k = 0; k < 16; k++ ) for ( int n = 0; n < 16; n++ ) ok = ok & ( g.Y_.at( k % 4, k / 4 ).coefficients().at( n ) == b.c[ k ][ n ] );
    for ( int k = 0; k < 4; k++ ) for ( int n = 0; n < 16; n++ ) ok = ok & ( g.U_.at( k % 2, k / 2 ).coefficients().at( n ) == b.c[ 16 + k ][ n ] ) & ( g.V_.at( k % 2, k / 2 ).coefficients().at( n ) == b.c[ 20 + k ][ n ] );
    for ( int n = 0; n < 16; n++ ) ok = ok & ( g.Y2_.coefficients().at( n ) == b.c[ 24 ][ n ] );
    sym_assert( ok, "coefficients" ); sym_assert( g.Y2_.coded() == b.y2, "second-order block" );
    if ( s.on ) { const int want_id = b.seg >= 0 ? b.seg : old_map[ i ]; sym_assert( d.segmentation.get().map.at( i % mw, i / mw ) == want_id, "segment map" ); sym_assert( g.segment_id() == want_id, "segment of the macroblock" ); }
  }
  const std::vector<uint8_t> out = frame.serialize( before ); const UncompressedChunk u( Chunk( out ), 16 * mw, 16 * mh, false ); const auto p = u.dct_partitions( parts );
  for ( unsigned i = 0; i <= parts; i++ ) { const Chunk & c = i ? p.at( i - 1 ) : u.first_partition(); sym_assert( c.size() == 3 and route_written_exactly( c.buffer()[ 0 ] - 1, i ), "written again, every partition is the same" ); }
  sym_reach( "frame" );
}
extern "C" void key_frames( void ) { start(); KeyModel m; m.common_first(); frames<KeyFrame>( m, true ); }
extern "C" void inter_frames( void ) { start(); InterModel m; m.common_first(); m.common_second(); frames<InterFrame>( m, false ); }

/* C09: the same frames with a window of arbitrary values somewhere, after which whatever follows is read out of step */
template <class M> static void hostile( M & m, bool key )
{
  Tables t, now; Seg s; Lf f; prepare( m, key, t, now, s, f ); w_rest( m, key, now ); tape_reset( TAPE_ROUTE );
  const unsigned c = sym_param( "channel", 0 ), n = sym_param( "window", 4 ); unsigned at = sym_param( "at", 0 ); const unsigned last = route_expected( c ); if ( at + n > last ) at = last > n ? last - n : 0;
  for ( unsigned i = 0; i < n; i++ ) { const bool b = sym_bits( "arbitrary", 1 ); route_replace( c, at + i, b ); }
  /* what follows is fixed noise, one value in so many a one, so that only the window branches */
  const unsigned ones = sym_param( "ones", 2 ); for ( unsigned k = c; k <= parts; k++ ) for ( unsigned i = k == c ? at + n : 0; i < route_expected( k ); i++ ) route_replace( k, i, ones ? pick( i * 31 + k, ones ) == 0 : true );
  Decoder d( 16 * mw, 16 * mh );
  try { if ( sym_param( "pixels", 0 ) ) d.get_frame_output( Chunk( whole, whole_size ) ); else { const UncompressedChunk u( Chunk( whole, whole_size ), 16 * mw, 16 * mh, false ); if ( key ) d.state_.parse_and_apply<KeyFrame>( u ); else d.state_.parse_and_apply<InterFrame>( u ); } sym_reach( "survived" ); }
  catch ( const std::exception & ) { sym_reach( "refused" ); }
  sym_reach( "hostile" );
}
extern "C" void key_hostile( void ) { start(); KeyModel m; m.common_first(); hostile( m, true ); }
extern "C" void inter_hostile( void ) { start(); InterModel m; m.common_first(); m.common_second(); hostile( m, false ); }
