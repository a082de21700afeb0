// Interface between a harness and the engine (symx models these) or the native replay (replay.cc implements them).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void sym_bytes( void * p, size_t n, const char * name );            // n arbitrary bytes
uint64_t sym_bits( const char * name, unsigned bits );              // arbitrary value of the given width
int64_t sym_range( const char * name, int64_t lo, int64_t hi );     // arbitrary value in [lo,hi]
void sym_assume( bool c );
void sym_assert( bool c, const char * what );
void sym_possible( bool c, const char * label );                    // vacuity: c must be satisfiable somewhere
void sym_reach( const char * label );                               // vacuity: must be reached by some path
int64_t sym_param( const char * name, int64_t dflt );               // shard parameter
uint64_t sym_concrete( uint64_t v );                                // split the path on the value
void sym_log( const char * name, int64_t v );
void sym_alloc_limit( uint64_t bytes );                             // from here on, one allocation above this is a violation
void sym_alloc_cap( uint64_t bytes );                               // from here on, of an allocation of symbolic size above this only the beginning exists
void sym_show( uint64_t v );
}
static inline uint8_t sym_u8( const char * n ) { return (uint8_t) sym_bits( n, 8 ); }
static inline uint16_t sym_u16( const char * n ) { return (uint16_t) sym_bits( n, 16 ); }
static inline uint32_t sym_u32( const char * n ) { return (uint32_t) sym_bits( n, 32 ); }
static inline uint64_t sym_u64( const char * n ) { return sym_bits( n, 64 ); }
static inline bool sym_bool( const char * n ) { return sym_bits( n, 1 ); }
#define SYM_STR2( x ) #x
#define SYM_STR( x ) SYM_STR2( x )
#define SYM_REPO_FILE( x ) SYM_STR( SYM_REPODIR/x )
