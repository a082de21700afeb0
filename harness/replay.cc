// Native implementation of the sym_* interface: replays one recorded assignment against the real code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <exception>
#include <typeinfo>
static std::vector<std::vector<uint64_t>> vals; static size_t pos = 0; static std::map<std::string, long long> params;
static const std::vector<uint64_t> & next() { if ( pos >= vals.size() ) { fprintf( stderr, "REPLAY: out of recorded values\n" ); _Exit( 9 ); } return vals[ pos++ ]; }
extern "C" {
void sym_bytes( void * p, size_t n, const char * ) { auto & v = next(); for ( size_t i = 0; i < n; i++ ) ( (uint8_t*) p )[ i ] = v.at( i ); }
uint64_t sym_bits( const char *, unsigned ) { return next().at( 0 ); }
int64_t sym_range( const char *, int64_t, int64_t ) { return (int64_t) next().at( 0 ); }
void sym_assume( bool c ) { if ( !c ) { fprintf( stderr, "REPLAY: assumption not met\n" ); _Exit( 8 ); } }
void sym_assert( bool c, const char * what ) { if ( !c ) { fprintf( stderr, "REPLAY: assertion failed: %s\n", what ); fflush( stdout ); _Exit( 1 ); } }
void sym_possible( bool, const char * ) {}
void sym_reach( const char * ) {}
int64_t sym_param( const char * n, int64_t d ) { auto it = params.find( n ); return it == params.end() ? d : it->second; }
uint64_t sym_concrete( uint64_t v ) { return v; }
void sym_log( const char * n, int64_t v ) { printf( "LOG %s=%lld\n", n, (long long) v ); }
void sym_show( uint64_t ) {}
static uint64_t alloc_limit = 0;
void sym_alloc_cap( uint64_t ) {}
void sym_alloc_limit( uint64_t n ) { alloc_limit = n; }
void SYM_ENTRY();
}
#if !defined( __SANITIZE_ADDRESS__ )
void * operator new( size_t n ) { if ( alloc_limit and n > alloc_limit ) { fprintf( stderr, "REPLAY: allocation of %zu bytes exceeds the limit %llu\n", n, (unsigned long long) alloc_limit ); _Exit( 1 ); } void * p = malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); return p; }
void * operator new[]( size_t n ) { return operator new( n ); }
void operator delete( void * p ) noexcept { free( p ); }
void operator delete[]( void * p ) noexcept { free( p ); }
void operator delete( void * p, size_t ) noexcept { free( p ); }
void operator delete[]( void * p, size_t ) noexcept { free( p ); }
#endif
int main( int argc, char ** argv )
{
  std::ifstream f( argv[ 1 ] ); std::string line;
  while ( std::getline( f, line ) ) { std::istringstream is( line ); std::vector<uint64_t> v; uint64_t x; while ( is >> x ) v.push_back( x ); vals.push_back( v ); }
  for ( int i = 2; i < argc; i++ ) { std::string a = argv[ i ]; size_t q = a.find( '=' ); params[ a.substr( 0, q ) ] = strtoll( a.c_str() + q + 1, 0, 0 ); }
  try { SYM_ENTRY(); } catch ( const std::exception & e ) { fprintf( stderr, "REPLAY: uncaught exception %s: %s\n", typeid( e ).name(), e.what() ); return 1; } catch ( ... ) { fprintf( stderr, "REPLAY: uncaught exception\n" ); return 1; }
  printf( "REPLAY: finished without a violation\n" ); return 0;
}
