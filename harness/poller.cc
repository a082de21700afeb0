// C39: the event loop asks for and serves exactly what is wanted and ready
#include "sym.h"
#include <cerrno>
#include <poll.h>
#include "poller.hh"
#include "exception.hh"
static const int N = 3, BASE = 70;
static int polls, rounds, verdict; static short events[ N ], revents[ N ]; static bool interested[ N ], active[ N ], at_end[ N ]; static int timeout_given;
static unsigned ran[ N ], order[ 2 * N ], runs; static int result[ N ]; static bool serves[ N ]; static unsigned status[ N ];
extern "C" int close( int fd )
{
#ifndef __SYMX__
  if ( fd < BASE or fd >= BASE + N ) { extern long syscall_close( int ); return syscall_close( fd ); }
#endif
  (void) fd; return 0;
}
#ifndef __SYMX__
#include <sys/syscall.h>
#include <unistd.h>
long syscall_read( int fd, void * p, size_t n ) { return syscall( SYS_read, fd, p, n ); }
long syscall_close( int fd ) { return syscall( SYS_close, fd ); }
#endif
/* the end of the input, which is how a descriptor learns of it */
extern "C" ssize_t read( int fd, void * p, size_t n )
{
#ifndef __SYMX__
  if ( fd < BASE or fd >= BASE + N ) { extern long syscall_read( int, void *, size_t ); return syscall_read( fd, p, n ); }
#endif
  (void) fd; (void) p; (void) n; return 0;
}
extern "C" int poll( pollfd * p, nfds_t n, int timeout )
{
  sym_assert( n == N and timeout == timeout_given, "every descriptor, and the time given" ); polls++;
  for ( int i = 0; i < N; i++ ) { sym_assert( p[ i ].fd == BASE + i, "its own descriptor" ); sym_assert( p[ i ].events == events[ i ], "asks for what is wanted, and only that" ); }
  verdict = sym_concrete( sym_range( "verdict", 0, 2 ) ); if ( verdict == 2 ) { errno = EINVAL; return -1; }
  if ( verdict == 1 ) { for ( int i = 0; i < N; i++ ) p[ i ].revents = 0; return 0; }
  for ( int i = 0; i < N; i++ ) p[ i ].revents = revents[ i ];
  return 1;
}
struct Fd : FileDescriptor { Fd( int n ) : FileDescriptor( n ) {} void serve( bool in ) { if ( in ) register_read(); else register_write(); } };
extern "C" void loop( void )
{
  Fd a( BASE ), b( BASE + 1 ), c( BASE + 2 ); Fd * fds[ N ] = { &a, &b, &c }; const unsigned outs = sym_param( "outs", 2 ); Poller poller;
  for ( int i = 0; i < N; i++ ) {
    const bool out = outs >> i & 1; active[ i ] = true;
    poller.add_action( Poller::Action( *fds[ i ], out ? Poller::Action::Out : Poller::Action::In, [ i, out, fds ] {
      ran[ i ]++; order[ runs++ ] = i; if ( serves[ i ] ) fds[ i ]->serve( not out );
      return Poller::Action::Result( result[ i ] == 0 ? Poller::Action::Result::Type::Continue : result[ i ] == 1 ? Poller::Action::Result::Type::Cancel : Poller::Action::Result::Type::Exit, status[ i ] ); },
      [ i ] { return interested[ i ]; } ) );
  }
  const unsigned last = sym_param( "rounds", 1 ), study = sym_param( "study", 7 );
  for ( unsigned r = 0; r < last; r++ ) {
    const bool plain = r + 1 < last; bool any = false; runs = 0; timeout_given = (int) sym_u32( "timeout" );
    for ( int i = 0; i < N; i++ ) {
      const bool out = outs >> i & 1; ran[ i ] = 0; interested[ i ] = plain ? true : (bool) sym_bits( "interested", 1 );
      if ( not plain and ( study >> i & 1 ) ) { at_end[ i ] = sym_concrete( sym_bits( "at end", 1 ) ); if ( at_end[ i ] ) fds[ i ]->read( 1 ); }
      events[ i ] = active[ i ] and interested[ i ] and not ( not out and at_end[ i ] ) ? ( out ? POLLOUT : POLLIN ) : 0; any |= events[ i ] != 0;
      /* the system reports what was asked, and trouble whether asked or not */
      revents[ i ] = plain ? events[ i ] : ( sym_bits( "ready", 16 ) & ( events[ i ] | POLLERR | POLLHUP | POLLNVAL ) );
      result[ i ] = plain ? ( study >> i & 1 ) : (int) sym_concrete( sym_range( "result", 0, 2 ) ); serves[ i ] = plain ? true : (bool) sym_bits( "serves", 1 ); status[ i ] = sym_u32( "status" );
    }
    /* what should happen */
    const int before = polls; int kind = -1; unsigned code = 0; bool thrown = false;
    try { const auto x = poller.poll( timeout_given ); kind = x.result == Poller::Result::Type::Success ? 0 : x.result == Poller::Result::Type::Timeout ? 1 : 2; code = x.exit_status; } catch ( const std::exception & ) { thrown = true; }
    if ( not any ) { sym_assert( polls == before and not thrown and kind == 2 and code == EXIT_SUCCESS and runs == 0, "nothing left to wait for" ); sym_reach( "nothing" ); return; }
    sym_assert( polls == before + 1, "asks the system once" );
    if ( verdict == 2 ) { sym_assert( thrown and runs == 0, "a failure is reported" ); sym_reach( "failure" ); return; }
    if ( verdict == 1 ) { sym_assert( not thrown and kind == 1 and runs == 0, "timeout" ); sym_reach( "timeout" ); continue; }
    unsigned expected = 0; int end = -1; unsigned end_code = 0; bool busy = false;
    for ( int i = 0; i < N and end < 0 and not busy; i++ ) {
      if ( revents[ i ] & ( POLLERR | POLLHUP | POLLNVAL ) ) { end = 2; end_code = EXIT_FAILURE; break; }
      if ( not ( revents[ i ] & events[ i ] ) ) continue;
      sym_assert( expected < runs and order[ expected ] == (unsigned) i, "runs the callbacks of what is ready, in order" ); expected++;
      if ( result[ i ] == 2 ) { end = 2; end_code = status[ i ]; break; }
      if ( result[ i ] == 1 ) active[ i ] = false;
      if ( not serves[ i ] ) busy = true;
    }
    sym_assert( runs == expected, "and no others" ); sym_assert( thrown == busy, "a callback that serves nothing is found out" );
    if ( busy ) { sym_reach( "busy" ); return; }
    if ( end < 0 ) { sym_assert( kind == 0, "served" ); sym_reach( "served" ); } else { sym_assert( kind == 2 and code == end_code, "exit, with its status" ); sym_reach( "exit" ); return; }
  }
}
