// C40: the receiver's loop (main of salsify-receiver.cc) over every arrival order of an honest sender's packets
#include "sym.h"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <future>
#include <iostream>
#include <memory>
#include <mutex>
#include <queue>
#include <random>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <getopt.h>
#include "chunk.hh"
#include "optional.hh"
#include "socket.hh"
#include "packet.hh"
#include "poller.hh"

/* what surrounds the loop: a decoder that is nothing but its state, no window, no clock, no threads */
#define PLAYER_HH
#define DECODER_HH
#define DISPLAY_HH
#define PROCINFO_HH
#define PARANOIA_HH
static const int F = 8; static const uint32_t INITIAL = 7;
static int frames, fragments; static uint32_t source[ F ], target[ F ]; static uint8_t body[ F ][ 4 ]; static uint32_t junk = 1000, decoded_from; static int last_decoded = -1, decodes; static bool decoded_whole, named;
struct Picture {}; typedef Picture VP8Raster; struct RasterHandle {};
struct Hash { uint32_t s; size_t hash( void ) const { return s; } };
struct Decoder { uint32_t s = INITIAL; Hash get_hash( void ) const { return { s }; } uint32_t minihash( void ) const { return s; } void set_error_concealment( bool ) {} bool minihash_match( uint32_t x ) const { return x == s; } bool operator==( const Decoder & o ) const { return s == o.s; } };
static uint32_t now_at = INITIAL;
struct FramePlayer {
  Decoder d {}; Picture example {}; FramePlayer( uint16_t, uint16_t ) {} void set_error_concealment( bool ) {}
  const Picture & example_raster( void ) const { return example; } const Decoder & current_decoder( void ) const { return d; } void set_decoder( const Decoder & o ) { d = o; }
  Optional<RasterHandle> decode( const Chunk & c ) {
    /* which frame is this?  its first octet says, and what follows must be its own fragments */
    sym_assert( c.size() >= 1, "an empty frame is not decoded" ); const int f = (int) sym_concrete( c.buffer()[ 0 ] >> 4 );
    sym_assert( f > last_decoded and f < frames, "frames are decoded in order, each once" ); last_decoded = f; decodes++;
    decoded_whole = (int) c.size() == fragments and not memcmp( c.buffer(), body[ f ], fragments ); decoded_from = d.s;
    sym_assert( (int) c.size() <= fragments and not memcmp( c.buffer(), body[ f ], c.size() ), "the frame's own octets, from its beginning" );
    d.s = decoded_whole and d.s == source[ f ] ? target[ f ] : ++junk; now_at = d.s;
    return {}; }
};
namespace paranoid { static unsigned long stoul( const char * ) { return 16; } static unsigned long stoul( const std::string & ) { return 16; } }
namespace procinfo { static unsigned memory_usage( void ) { return 0; } }
struct VideoDisplay { VideoDisplay( const VP8Raster &, bool ) {} void draw( const RasterHandle & ) {} };
struct NoThread { template<class T> NoThread( T && ) {} void detach( void ) {} void join( void ) {} };
struct NoWait { template<class L, class P> void wait( L &, P ) {} void notify_all( void ) {} void notify_one( void ) {} };
struct NoStream { template<class T> NoStream & operator<<( const T & ) { return *this; } NoStream & operator<<( std::ostream & ( * )( std::ostream & ) ) { return *this; } };
static NoStream no_stream;
namespace std { using ::NoThread; using ::NoWait; using ::no_stream; struct still_clock : chrono::system_clock { static chrono::system_clock::time_point now( void ) { return {}; } }; }
template<class A, class G> static int run_now( A, G g ) { g(); return 0; }
namespace std { using ::run_now; namespace chrono { using std::still_clock; } }
static int one = 1;
#define thread NoThread
#define condition_variable NoWait
#define cerr no_stream
#define async( ... ) run_now( __VA_ARGS__ )
#define system_clock still_clock
#define optind one
#define getopt_long( ... ) ( -1 )
#define main salsify_receiver_main
#include SYM_REPO_FILE( src/salsify/salsify-receiver.cc )
#undef main
#undef thread
#undef cerr

/* the network */
static int arrivals, seen, acks; static std::string arriving, answer; static uint64_t stamp; static bool answered; static std::function<Poller::Action::Result( void )> * loop_body;
Socket::Socket( const int, const int ) : FileDescriptor( 99 ) {}
void Socket::bind( const Address & ) {}
void UDPSocket::set_timestamps( void ) {}
Address::Address( const std::string &, const std::string & ) : size_(), addr_() {}
UDPSocket::received_datagram UDPSocket::recv( void ) { register_read(); return { Address( "", "" ), stamp, arriving }; }
void UDPSocket::sendto( const Address &, const std::string & p ) { sym_assert( not answered, "one acknowledgement for a packet" ); answered = true; answer = p; }
extern "C" int close( int ) { return 0; }
void Poller::add_action( Action a ) { loop_body = new std::function<Action::Result( void )>( a.callback ); }

static int awaited; static bool have[ F ][ 4 ]; static std::deque<uint32_t> kept; static double average; static bool first = true; static uint64_t before;
static std::string le16( unsigned x ) { return { (char) x, (char) ( x >> 8 ) }; }
static std::string le32( uint32_t x ) { return le16( x & 65535 ) + le16( x >> 16 ); }
static void arrival( void )
{
  const bool given = seen < (int) sym_param( "given", 0 ); /* the first ones in order */
  const int f = given ? seen / fragments : sym_concrete( sym_range( "frame", 0, frames - 1 ) ); const int g = given ? seen % fragments : fragments == 1 ? 0 : sym_concrete( sym_range( "fragment", 0, fragments - 1 ) );
  const uint32_t grace = sym_param( "grace", 300 );
  arriving = le16( 1337 ) + le32( source[ f ] ) + le32( target[ f ] ) + le32( f ) + le16( g ) + le16( fragments ) + le32( grace ) + std::string( 1, (char) body[ f ][ g ] );
  stamp += 1000 * ( seen + 1 ); answered = false; decoded_whole = false; const int decodes_before = decodes; const uint32_t state_before = now_at; const bool stale = f < awaited;
  const auto r = ( *loop_body )(); sym_assert( r.result == Poller::Action::Result::Type::Continue, "goes on" );
  if ( stale ) { sym_assert( not answered and decodes == decodes_before and now_at == state_before, "a late packet changes nothing" ); sym_reach( "late" ); return; }
  /* what was abandoned, and what is whole now */
  int partial = 0; for ( int i = awaited; i < f; i++ ) { bool some = have[ i ][ 0 ]; partial += some; if ( some ) sym_reach( "abandoned" ); }
  awaited = f; have[ f ][ g ] = true; bool whole = true; for ( int i = 0; i < fragments; i++ ) whole &= have[ f ][ i ];
  sym_assert( decodes == decodes_before + ( whole ? 1 : 0 ) + partial, "a whole frame is decoded when its last fragment arrives, an abandoned one when it is given up if its beginning is there, and nothing else" );
  if ( whole ) {
    sym_assert( decoded_whole and last_decoded == f, "the whole frame, with its octets in order" ); awaited = f + 1;
    auto it = std::find( kept.begin(), kept.end(), source[ f ] ); const bool promised = it != kept.end() or source[ f ] == INITIAL;
    if ( promised ) sym_assert( decoded_from == source[ f ], "decoded from the state the sender named, which was promised" ); else sym_reach( "unknown source" );
    if ( it != kept.end() ) { kept.erase( kept.begin(), it ); sym_reach( "from a kept state" ); }
    if ( now_at == target[ f ] ) { kept.push_back( now_at ); sym_reach( "complete" ); }
  }
  sym_assert( answered, "every packet that is not late is acknowledged" );
  const AckPacket ack { Chunk( answer ) };
  sym_assert( ack.connection_id() == 1337 and ack.frame_no() == (uint32_t) f and ack.fragment_no() == g, "acknowledges the packet that arrived" );
  sym_assert( ack.current_state() == now_at, "reports the state the decoder is in" );
  sym_assert( ack.complete_states() == kept, "promises exactly the states it keeps" );
  average = first ? 0 : 0.1 * std::max( 0.0, (double) (int64_t) ( stamp - before ) - (double) grace ) + ( 1 - 0.1 ) * average; first = false; before = stamp;
  sym_assert( ack.avg_delay() == (uint32_t) average, "average spacing of the packets" );
}
Poller::Result Poller::poll( const int & )
{
  if ( seen < arrivals ) { arrival(); seen++; return { Result::Type::Success }; }
  return { Result::Type::Exit, 5 };
}
extern "C" void receive( void )
{
  frames = sym_param( "frames", 3 ); fragments = sym_param( "fragments", 1 ); arrivals = sym_param( "arrivals", 4 ); const bool again = sym_param( "again", 0 ); unsigned plan = sym_param( "plan", 0 );
  for ( int f = 0; f < frames; f++ ) {
    for ( int g = 0; g < fragments; g++ ) body[ f ][ g ] = sym_u8( "octet" ) & 15 | f << 4;
    const uint64_t s = plan % ( f + 1 ); plan /= f + 1; source[ f ] = s ? target[ s - 1 ] : INITIAL; target[ f ] = 100 + f;
    if ( again and f == frames - 1 - (int) sym_param( "back", 0 ) ) target[ f ] = target[ 0 ];
  }
  char a0[] = "receiver", a1[] = "1", a2[] = "16", a3[] = "16"; char * argv[] = { a0, a1, a2, a3, nullptr };
  sym_assert( salsify_receiver_main( 4, argv ) == 5, "the loop's exit status" ); sym_assert( seen == arrivals, "everything that arrived was seen" ); sym_reach( "session" );
}
