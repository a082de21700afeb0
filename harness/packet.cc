// C23, C24, C25: datagram formats
#include "sym.h"
#include <cassert>
#include <iostream>
#include "packet.hh"

static uint32_t le( const uint8_t * p, unsigned n ) { uint32_t v = 0; for ( unsigned i = 0; i < n; i++ ) { v |= (uint32_t) p[ i ] << ( 8 * i ); } return v; }

/* any datagram of n octets */
extern "C" void packet_parse( void )
{
  const unsigned n = sym_param( "n", 23 );
  uint8_t * b = new uint8_t[ n ]; sym_bytes( b, n, "datagram" );
  bool ok = false;
  try {
    Packet p( Chunk( b, n ) );
    ok = true;
    sym_assert( n > 22, "a datagram without payload is refused" );
    sym_assert( p.valid(), "parsed packet is valid" );
    sym_assert( p.connection_id() == le( b, 2 ), "connection" );
    sym_assert( p.source_state() == le( b + 2, 4 ), "source state" );
    sym_assert( p.target_state() == le( b + 6, 4 ), "target state" );
    sym_assert( p.frame_no() == le( b + 10, 4 ), "frame" );
    sym_assert( p.fragment_no() == le( b + 14, 2 ), "fragment index" );
    sym_assert( p.fragments_in_this_frame() == le( b + 16, 2 ), "fragment count" );
    sym_assert( p.time_since_last() == le( b + 18, 4 ), "timing" );
    sym_assert( p.fragment_no() < p.fragments_in_this_frame(), "impossible fragment index refused" );
    sym_assert( p.payload().size() == n - 22, "payload size" );
    bool same = true; for ( unsigned i = 22; i < n; i++ ) { same = same & ( (uint8_t) p.payload()[ i - 22 ] == b[ i ] ); }
    sym_assert( same, "payload" );
    const std::string out = p.to_string();
    sym_assert( out.size() == n, "serialised size" );
    same = true; for ( unsigned i = 0; i < n; i++ ) { same = same & ( (uint8_t) out[ i ] == b[ i ] ); }
    sym_assert( same, "serialising a parsed packet gives the datagram" );
    sym_reach( "accepted" );
  } catch ( const std::exception & ) {
    sym_assert( not ok, "exception after parsing" );
    sym_assert( n < 23 or le( b + 14, 2 ) >= le( b + 16, 2 ), "a well-formed datagram is accepted" );
    sym_reach( "refused" );
  }
  delete [] b;
}

/* the packets of an outgoing frame of n octets carry its fields; serialise + parse keeps them */
extern "C" void frame_cut( void )
{
  const unsigned n = sym_param( "n", 1401 ), M = Packet::MAXIMUM_PAYLOAD, k = ( n + M - 1 ) / M;
  std::vector<uint8_t> f( n ); sym_bytes( f.data(), n, "frame" );
  const uint16_t cid = sym_u16( "connection" ); const uint32_t src = sym_u32( "source" ), dst = sym_u32( "target" ), no = sym_u32( "frame_no" ), t = sym_u32( "time" );
  FragmentedFrame ff( cid, src, dst, no, t, f );
  sym_assert( ff.complete(), "an outgoing frame is complete" );
  sym_assert( ff.connection_id() == cid and ff.source_state() == src and ff.target_state() == dst and ff.frame_no() == no and ff.fragments_in_this_frame() == k, "frame fields" );
  const auto & ps = ff.packets();
  sym_assert( ps.size() == k, "number of fragments" );
  for ( unsigned i = 0; i < k; i++ ) {
    const std::string wire = ps[ i ].to_string();
    Packet p( ( Chunk( wire ) ) );
    sym_assert( p.connection_id() == cid and p.source_state() == src and p.target_state() == dst and p.frame_no() == no, "fields survive" );
    sym_assert( p.fragment_no() == i and p.fragments_in_this_frame() == k, "fragment numbering survives" );
    sym_assert( p.time_since_last() == ( i == 0 ? t : 0 ), "timing survives" );
    const unsigned len = i + 1 < k ? M : n - M * i;
    sym_assert( p.payload().size() == len, "payload size" );
    bool same = true; for ( unsigned j = 0; j < len; j++ ) { same = same & ( (uint8_t) p.payload()[ j ] == f[ i * M + j ] ); }
    sym_assert( same, "payload is the frame's octets" );
  }
  const std::string all = ff.frame();
  bool same = all.size() == n; for ( unsigned j = 0; j < n; j++ ) { same = same & ( (uint8_t) all[ j ] == f[ j ] ); }
  sym_assert( same, "outgoing frame holds the original octets" );
  sym_reach( "cut" );
}

/* k packets of a frame with `count` fragments arrive in any order, with any duplication */
extern "C" void reassemble( void )
{
  const unsigned count = sym_param( "count", 3 ), arrivals = sym_param( "arrivals", 4 ), first_len = sym_param( "len", 2 );
  const uint16_t cid = sym_u16( "connection" ); const uint32_t src = sym_u32( "source" ), dst = sym_u32( "target" ), no = sym_u32( "frame_no" );
  std::string wire[ 8 ], body[ 8 ];
  for ( unsigned i = 0; i < count; i++ ) {
    uint8_t pay[ 32 ]; const unsigned len = i + 1 == count ? 1 : first_len; sym_bytes( pay, len, "payload" );
    body[ i ] = std::string( (const char *) pay, len );
    wire[ i ] = Packet::put_header_field( cid ) + Packet::put_header_field( src ) + Packet::put_header_field( dst ) + Packet::put_header_field( no )
      + Packet::put_header_field( (uint16_t) i ) + Packet::put_header_field( (uint16_t) count ) + Packet::put_header_field( (uint32_t) sym_u32( "time" ) ) + body[ i ];
  }
  std::string want, head; for ( unsigned i = 0; i < count; i++ ) { want += body[ i ]; }
  bool have[ 8 ] = { false }; unsigned distinct = 0;
  unsigned i0 = sym_concrete( sym_range( "arrival", 0, count - 1 ) );
  FragmentedFrame ff( cid, Packet( Chunk( wire[ i0 ] ) ) );
  for ( unsigned a = 0; a < arrivals; a++ ) {
    if ( a ) { i0 = sym_concrete( sym_range( "arrival", 0, count - 1 ) ); ff.add_packet( Packet( Chunk( wire[ i0 ] ) ) ); }
    if ( not have[ i0 ] ) { have[ i0 ] = true; distinct++; }
    sym_assert( ff.complete() == ( distinct == count ), "complete exactly when every fragment has arrived" );
    head.clear(); for ( unsigned i = 0; i < count and have[ i ]; i++ ) { head += body[ i ]; }
    sym_assert( ff.partial_frame() == head, "partial frame is the leading fragments received" );
    if ( ff.complete() ) { sym_assert( ff.frame() == want, "reassembled frame equals the original" ); sym_reach( "complete" ); }
    else { bool threw = false; try { ff.frame(); } catch ( const std::exception & ) { threw = true; } sym_assert( threw, "an unfinished frame is not handed out" ); sym_reach( "partial" ); }
  }
}

/* a packet that differs in any identifying field is refused and changes nothing */
extern "C" void foreign( void )
{
  const unsigned count = sym_param( "count", 2 );
  uint8_t b[ 24 ], c[ 24 ]; sym_bytes( b, 24, "first" ); sym_bytes( c, 24, "second" );
  sym_assume( le( b + 16, 2 ) == count and le( b + 14, 2 ) < count and le( c + 14, 2 ) < le( c + 16, 2 ) );
  const unsigned fb = sym_concrete( le( b + 14, 2 ) );
  const uint16_t cid = sym_u16( "expected connection" );
  Packet p( Chunk( b, 24 ) ), q( Chunk( c, 24 ) );
  bool refused = false;
  try {
    FragmentedFrame ff( cid, p );
    sym_assert( le( b, 2 ) == cid, "first packet of another connection refused" );
    try { ff.add_packet( q ); } catch ( const std::exception & ) { refused = true; }
    bool belongs = true; for ( unsigned i = 0; i < 14; i++ ) { belongs = belongs & ( b[ i ] == c[ i ] ); }
    belongs = belongs & ( le( c + 16, 2 ) == count );
    sym_assert( refused == not belongs, "packets that do not belong are refused, and only those" );
    if ( refused ) { sym_assert( ff.complete() == ( count == 1 ), "a refused packet changes nothing" ); sym_reach( "refused" ); } else { sym_reach( "accepted" ); }
    (void) fb;
  } catch ( const std::exception & ) { sym_assert( le( b, 2 ) != cid, "first packet of this connection accepted" ); }
}

/* acknowledgements: any datagram of n octets */
extern "C" void ack_parse( void )
{
  const unsigned n = sym_param( "n", 28 );
  uint8_t * b = new uint8_t[ n ]; sym_bytes( b, n, "datagram" );
  bool ok = false;
  const uint32_t count = n >= 20 ? le( b + 16, 4 ) : 0;
  sym_alloc_limit( 65536 );                                /* a datagram of n octets has no business allocating more */
  try {
    AckPacket a( Chunk( b, n ) );
    ok = true;
    sym_assert( n >= 20 and count <= ( n - 20 ) / 4, "only as many states as the datagram holds" );
    sym_assert( a.connection_id() == le( b, 2 ) and a.frame_no() == le( b + 2, 4 ) and a.fragment_no() == le( b + 6, 2 ) and a.avg_delay() == le( b + 8, 4 ) and a.current_state() == le( b + 12, 4 ), "fields" );
    const auto cs = a.complete_states();
    sym_assert( cs.size() == count, "number of complete states" );
    for ( unsigned i = 0; i < cs.size(); i++ ) { sym_assert( cs[ i ] == le( b + 20 + 4 * i, 4 ), "complete state" ); }
    const std::string out = a.to_string();
    sym_assert( out.size() == 20 + 4 * cs.size(), "serialised size" );
    for ( unsigned i = 0; i < out.size(); i++ ) { sym_assert( (uint8_t) out[ i ] == b[ i ], "serialising a parsed acknowledgement gives the datagram" ); }
    sym_reach( "accepted" );
  } catch ( const std::exception & ) {
    sym_assert( not ok, "exception after parsing" );
    sym_assert( n < 20 or count > ( n - 20 ) / 4, "a well-formed acknowledgement is accepted" );
    sym_reach( "refused" );
  }
  delete [] b;
}

extern "C" void ack_roundtrip( void )
{
  const unsigned k = sym_param( "k", 3 );
  std::deque<uint32_t> cs; for ( unsigned i = 0; i < k; i++ ) { cs.push_back( sym_u32( "state" ) ); }
  const uint16_t cid = sym_u16( "connection" ), frag = sym_u16( "fragment" ); const uint32_t no = sym_u32( "frame" ), d = sym_u32( "delay" ), cur = sym_u32( "current" );
  AckPacket a( cid, no, frag, d, cur, cs );
  const std::string w = a.to_string();
  AckPacket r( ( Chunk( w ) ) );
  sym_assert( r.connection_id() == cid and r.frame_no() == no and r.fragment_no() == frag and r.avg_delay() == d and r.current_state() == cur, "fields survive" );
  const auto got = r.complete_states();
  bool same = got.size() == k; for ( unsigned i = 0; same and i < k; i++ ) { same = same & ( got[ i ] == cs[ i ] ); }
  sym_assert( same, "complete states survive" );
  sym_reach( "roundtrip" );
}
