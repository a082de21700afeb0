// Forced in front of every unit of a C21 job, in place of boost's hash: an ideal hash, whose value stands for the sequence of
// things hashed.  What boost's mixing does with that sequence is outside this repository.
#pragma once
#ifdef __cplusplus
#define BOOST_FUNCTIONAL_HASH_HPP
#define BOOST_FUNCTIONAL_HASH_HASH_HPP
#define BOOST_FUNCTIONAL_HASH_FWD_HPP
#define BOOST_CONTAINER_HASH_HASH_HPP
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
extern "C" size_t ideal_hash_push( size_t seed, size_t value );
namespace boost {
template <class T> inline size_t hash_value( const T & v ) { return (size_t) v; }
template <class T> struct hash { size_t operator()( const T & v ) const { return (size_t) v; } };
template <class T> inline void hash_combine( size_t & seed, const T & v ) { seed = ideal_hash_push( seed, (size_t) v ); }
template <class I> inline void hash_range( size_t & seed, I a, I b ) { for ( ; a != b; ++a ) hash_combine( seed, *a ); }
template <class I> inline size_t hash_range( I a, I b ) { size_t seed = 0; hash_range( seed, a, b ); return seed; }
}
#endif
