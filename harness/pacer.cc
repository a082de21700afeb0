// C26: pacer
#include "sym.h"
#include <string>
#include <chrono>
#include "pacer.hh"

static int64_t fake_now;   /* nanoseconds */
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point( duration( fake_now ) ); }
} } }

/* any history of k operations (push, pop, look) at any non-decreasing... in fact any clock readings */
extern "C" void pacer( void )
{
  const unsigned k = sym_param( "k", 4 ), len = sym_param( "len", 1 );
  const bool narrow = sym_param( "narrow", 0 );
  Pacer p;
  int64_t release[ 16 ]; uint8_t tag[ 16 ]; unsigned head = 0, tail = 0;
  for ( unsigned i = 0; i < k; i++ ) {
    fake_now = sym_range( "now", 0, narrow ? INT64_C( 8000000 ) : INT64_C( 2000000000000000000 ) );
    const bool do_push = sym_bool( "push" );
    if ( do_push ) {
      const int gap = sym_range( "gap", 0, narrow ? 4095 : 10000000 );
      tag[ tail ] = sym_u8( "payload" );
      release[ tail ] = head == tail ? fake_now : release[ tail - 1 ] + INT64_C( 1000 ) * gap;
      std::string what( len, 'x' ); what[ len - 1 ] = tag[ tail ];
      p.push( what, gap );
      tail++;
    } else if ( head != tail ) { p.pop(); head++; sym_reach( "pop" ); }
    sym_assert( p.size() == tail - head and p.empty() == ( head == tail ), "number of queued packets" );
    /* look at a time `ahead` nanoseconds before the release of the front packet, from 23 days early to 23 days late */
    const int64_t ahead = sym_range( "ahead", narrow ? -INT64_C( 4000000 ) : -INT64_C( 2000000000000000 ), narrow ? INT64_C( 8000000 ) : INT64_C( 2000000000000000 ) );
    fake_now = ( head == tail ? 0 : release[ head ] ) - ahead;
    const int wait = p.ms_until_due();
    if ( head == tail ) { sym_assert( wait >= 0, "empty queue waits" ); }
    else {
      sym_assert( p.front().size() == len and (uint8_t) p.front()[ len - 1 ] == tag[ head ], "packets leave in the order queued" );
      const int64_t ms = ahead / 1000000;
      if ( ahead <= 0 ) { sym_assert( wait == 0, "a packet whose release time has come is due" ); }
      else {
        sym_assert( wait <= ms + 1, "wait never more than a millisecond beyond the release time" );
        sym_assert( wait >= ms, "never due a whole millisecond or more before the release time" );
      }
      sym_reach( "front" );
    }
  }
}
