// A boolean channel that carries (value, probability) pairs unchanged, in place of the arithmetic coder.
#pragma once
#include "sym.h"
extern "C" {
void tape_reset( int mode );          // 0: what put() wrote is what get() returns; 1: get() returns arbitrary values (and records them); 2: get() returns zero
unsigned tape_written( void );        // number of values put
unsigned tape_read( void );           // number of values got
unsigned tape_value( unsigned i );    // i-th value put (mode 0) or got (mode 1)
unsigned tape_prob( unsigned i );
void tape_output( const uint8_t * p, unsigned long n ); // what the next BoolEncoder::finish() returns
unsigned tape_outputs_taken( void );
/* ROUTE: one channel per partition.  A decoder over octets { i + 1, 0, ... } reads channel i; an encoder's finish() returns such octets for what it wrote */
void route_expect( unsigned channel, bool value, uint8_t prob );
void route_replace( unsigned channel, unsigned i, bool value );
unsigned route_expected( unsigned channel );
bool route_read_exactly( unsigned channel );          // everything expected was read, with the probabilities it should have been read with
bool route_written_exactly( unsigned id, unsigned channel ); // what the id-th finished encoder wrote is what was expected on the channel
}
enum { TAPE_COPY = 0, TAPE_FREE = 1, TAPE_ZERO = 2, TAPE_PLAY = 3, TAPE_ROUTE = 4 }; // PLAY: get() returns what was put (then zeros) and records the probability it was asked with
