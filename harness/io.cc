// C30: whole-buffer writes, exact reads and datagrams under every way the system splits, fails or cuts them
#include "sym.h"
#include <cerrno>
#include <cstring>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include "socket.hh"

static const int FD = 77;
#ifdef __SYMX__
#define OTHERS( call )
#else // the replay itself uses files
#include <sys/syscall.h>
#define OTHERS( call ) if ( fd != FD ) return call;
#endif
static uint8_t sink[ 64 ]; static size_t sunk, calls; static bool failed, zero_seen; static int closed;
static uint8_t source[ 64 ]; static size_t source_len, drawn; static bool ended;
static size_t asked_max;

extern "C" ssize_t write( int fd, const void * p, size_t n )
{
  OTHERS( syscall( SYS_write, fd, p, n ) )
  sym_assert( fd == FD, "write to the wrong descriptor" ); sym_assert( not failed and not zero_seen, "went on writing after a failure" );
  calls++; sym_assert( n > 0 and n <= sizeof( sink ) - sunk, "write of more than was given" );
  const int64_t r = (int64_t) sym_concrete( sym_range( "written", -1, n ) );
  if ( r < 0 ) { failed = true; errno = EIO; return -1; }
  if ( r == 0 ) zero_seen = true;
  memcpy( sink + sunk, p, r ); sunk += r;
  return r;
}
extern "C" ssize_t read( int fd, void * p, size_t n )
{
  OTHERS( syscall( SYS_read, fd, p, n ) )
  sym_assert( fd == FD, "read from the wrong descriptor" ); sym_assert( not failed and not ended, "went on reading after a failure or the end" );
  calls++; sym_assert( n > 0, "read of nothing" ); if ( n > asked_max ) asked_max = n;
  const size_t left = source_len - drawn; const int64_t most = n < left ? n : left;
  const int64_t r = (int64_t) sym_concrete( sym_range( "got", -1, most ) );
  if ( r < 0 ) { failed = true; errno = EIO; return -1; }
  if ( r == 0 ) ended = true;
  memcpy( p, source + drawn, r ); drawn += r;
  return r;
}
extern "C" int close( int fd ) { OTHERS( syscall( SYS_close, fd ) ) sym_assert( fd == FD, "closed the wrong descriptor" ); closed++; return 0; }

static uint8_t given[ 64 ];
static void expect_sink( size_t n ) { for ( size_t i = 0; i < n; i++ ) sym_assert( sink[ i ] == given[ i ], "bytes delivered once and in order" ); }

/* kind 0: a Chunk, 1: a string, 2: a string, one call only */
extern "C" void write_all( void )
{
  const size_t n = sym_param( "n", 3 ); const int kind = sym_param( "kind", 0 );
  sym_bytes( given, n, "data" );
  bool threw = false;
  {
    FileDescriptor first( FD ); FileDescriptor fd( std::move( first ) );
    const std::string text( (char *) given, n );
    size_t done = n;
    try {
      if ( kind == 0 ) fd.write( Chunk( given, n ) ); else if ( kind == 1 ) { auto it = fd.write( text ); done = it - text.begin(); sym_assert( done == n, "string write stopped early" ); } else { auto it = fd.write( text, false ); done = it - text.begin(); }
    } catch ( const std::exception & ) { threw = true; }
    sym_assert( closed == 0, "closed while in use" );
    if ( threw ) { sym_assert( failed or zero_seen or ( kind && n == 0 ), "error reported without a failing call" ); sym_reach( "error" ); expect_sink( sunk ); }
    else {
      sym_assert( not failed and not zero_seen, "a failing call was taken as progress" );
      sym_assert( sunk == done, "exactly the reported bytes were written" ); expect_sink( done );
      sym_assert( n == 0 or fd.write_count() > first.write_count(), "writes are counted" ); sym_reach( "written" );
    }
  }
  sym_assert( closed == 1, "closed exactly once" );
}

extern "C" void read_exact( void )
{
  const size_t n = sym_param( "n", 3 ); source_len = sym_param( "source", 4 );
  sym_bytes( source, source_len, "source" );
  FileDescriptor fd( FD );
  std::string got; bool threw = false; size_t at = 0;
  for ( int round = 0; round < 2; round++ ) { // two reads in a row take consecutive bytes
    try { got = fd.read_exactly( n ); } catch ( const std::exception & ) { threw = true; }
    if ( threw ) { sym_assert( failed or ended, "error reported without a failing call or the end" ); if ( ended ) { sym_assert( fd.eof(), "the end is reported" ); sym_reach( "end" ); } else sym_reach( "error" ); return; }
    sym_assert( not failed and not ended, "a failing call or the end was taken as progress" );
    sym_assert( got.size() == n and drawn == at + n, "exactly the requested bytes" );
    for ( size_t i = 0; i < n; i++ ) sym_assert( (uint8_t) got[ i ] == source[ at + i ], "the bytes of the file in order" );
    at += n; sym_reach( "read" );
  }
}
/* read(limit) until the end; then reading again is an error */
extern "C" void read_some( void )
{
  const size_t limit = sym_param( "limit", 2 ); source_len = sym_param( "source", 3 );
  sym_bytes( source, source_len, "source" );
  FileDescriptor fd( FD ); size_t at = 0;
  for ( int round = 0; round < 5; round++ ) {
    std::string got; bool threw = false; const bool was_end = ended;
    try { got = fd.read( limit ); } catch ( const std::exception & ) { threw = true; }
    sym_assert( asked_max <= limit, "never asks for more than the limit" );
    if ( threw ) { sym_assert( failed or was_end, "error without a cause" ); sym_reach( "error" ); return; }
    sym_assert( not failed and not was_end, "a failing call or reading past the end was taken as progress" );
    sym_assert( drawn == at + got.size(), "returns what was read" ); sym_assert( fd.eof() == ended, "end of file is reported exactly when it occurs" );
    for ( size_t i = 0; i < got.size(); i++ ) sym_assert( (uint8_t) got[ i ] == source[ at + i ], "the bytes of the file in order" );
    at = drawn; sym_reach( "read" );
  }
}
/* lines: everything up to a newline or the end */
extern "C" void lines( void )
{
  source_len = sym_param( "source", 3 ); sym_bytes( source, source_len, "source" );
  FileDescriptor fd( FD ); size_t at = 0;
  for ( int round = 0; round < 2; round++ ) {
    std::string got; bool threw = false;
    try { got = fd.getline(); } catch ( const std::exception & ) { threw = true; }
    if ( threw ) { sym_assert( failed, "error without a cause" ); sym_reach( "error" ); return; }
    sym_assert( not failed, "a failing call was taken as progress" );
    const size_t n = got.size(); sym_assert( drawn == at + n + ( ended ? 0 : 1 ), "stops at the newline" );
    for ( size_t i = 0; i < n; i++ ) sym_assert( got[ i ] != '\n' and (uint8_t) got[ i ] == source[ at + i ], "the bytes of the line" );
    if ( not ended ) sym_assert( source[ at + n ] == '\n', "the line ends at a newline" ); else return;
    at = drawn; sym_reach( "line" );
  }
}

/* ---- datagrams */
static int64_t flags, datagram_len; static bool stamp; static uint64_t sec, nsec; static int cmsg_type;
extern "C" ssize_t recvmsg( int fd, msghdr * h, int )
{
  sym_assert( fd == FD, "wrong socket" );
  if ( failed ) { errno = EIO; return -1; }
  sym_assert( h->msg_iovlen == 1 and h->msg_iov[ 0 ].iov_len >= 65536 and h->msg_namelen >= sizeof( sockaddr_in ), "room for any datagram" );
  memcpy( h->msg_iov[ 0 ].iov_base, source, datagram_len );
  sockaddr_in a; memset( &a, 0, sizeof( a ) ); a.sin_family = AF_INET; memcpy( h->msg_name, &a, sizeof( a ) ); h->msg_namelen = sizeof( a );
  h->msg_flags = (int) flags;
  if ( stamp ) {
    cmsghdr * c = (cmsghdr *) h->msg_control; c->cmsg_len = CMSG_LEN( sizeof( timespec ) ); c->cmsg_level = SOL_SOCKET; c->cmsg_type = cmsg_type;
    timespec t; t.tv_sec = sec; t.tv_nsec = nsec; memcpy( CMSG_DATA( c ), &t, sizeof( t ) ); h->msg_controllen = CMSG_SPACE( sizeof( timespec ) );
  } else h->msg_controllen = 0;
  return datagram_len;
}
static ssize_t take( int fd, const void * p, size_t n )
{
  sym_assert( fd == FD, "wrong socket" ); calls++; sym_assert( calls == 1, "one datagram, one call" ); sym_assert( n <= sizeof( sink ), "sends more than was given" );
  memcpy( sink, p, n ); sunk = n;
  const int64_t r = sym_range( "sent", -1, n ); if ( r < 0 ) { failed = true; errno = EIO; return -1; }
  zero_seen = (size_t) r != n; return r;
}
extern "C" ssize_t send( int fd, const void * p, size_t n, int ) { return take( fd, p, n ); }
extern "C" ssize_t sendto( int fd, const void * p, size_t n, int, const sockaddr *, socklen_t ) { return take( fd, p, n ); }
extern "C" int socket( int, int, int ) noexcept { return FD; }

extern "C" void datagram_in( void )
{
  datagram_len = sym_param( "n", 3 ); sym_bytes( source, datagram_len, "datagram" );
  failed = sym_bool( "fails" ); const uint64_t f = sym_u32( "flags" ); flags = (int32_t) f; stamp = sym_param( "stamp", 1 );
  sec = sym_range( "sec", 0, 4000000000ll ); nsec = sym_range( "nsec", 0, 999999999 ); const bool other = sym_bool( "other_header" ); cmsg_type = other ? SO_TIMESTAMP : SO_TIMESTAMPNS;
  UDPSocket s; bool threw = false;
  try {
    const auto d = s.recv();
    sym_assert( not failed and flags == 0, "a failing or truncated receive was taken as progress" );
    sym_assert( d.payload.size() == (size_t) datagram_len, "payload length" );
    for ( int64_t i = 0; i < datagram_len; i++ ) sym_assert( (uint8_t) d.payload[ i ] == source[ i ], "payload bytes" );
    const uint64_t want = stamp and not other ? ( sec * 1000000000ull + nsec ) / 1000 : (uint64_t) -1;
    sym_assert( d.timestamp_us == want, "receive time" ); sym_reach( "received" );
  } catch ( const std::exception & ) { threw = true; }
  if ( threw ) { sym_assert( failed or flags != 0, "error without a cause" ); sym_reach( "refused" ); }
}
extern "C" void datagram_out( void )
{
  const size_t n = sym_param( "n", 3 ); sym_bytes( given, n, "datagram" );
  UDPSocket s; bool threw = false; const std::string text( (char *) given, n );
  try {
    if ( sym_param( "to", 0 ) ) { Address::raw r; memset( &r, 0, sizeof( r ) ); r.as_sockaddr.sa_family = AF_INET; s.sendto( Address( r, sizeof( sockaddr_in ) ), text ); } else s.send( text );
  } catch ( const std::exception & ) { threw = true; }
  sym_assert( calls == 1 and sunk == n, "whole datagram offered" ); expect_sink( n );
  if ( threw ) { sym_assert( failed or zero_seen, "error without a cause" ); sym_reach( "error" ); }
  else { sym_assert( not failed and not zero_seen, "a failing or partial send was taken as success" ); sym_reach( "sent" ); }
}
