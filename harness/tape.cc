#include "tape.hh"
#include <vector>
#include "bool_decoder.hh"
template <class D> static auto first_octet( const D * d, int ) -> decltype( d->value_ >> 8 ) { return d->value_ >> 8; }
template <class D> static unsigned first_octet( const D *, long ) { return 0; }
std::vector<uint8_t> tape_finish( void * ) asm( "_ZN11BoolEncoder6finishEv" );
static const uint8_t * ends[ 16 ]; static unsigned long sizes[ 16 ]; static unsigned outputs, taken;
extern "C" {
bool tape_get( void *, uint8_t ) asm( "_ZN11BoolDecoder3getEh" );
void tape_put( void *, bool, uint8_t ) asm( "_ZN11BoolEncoder3putEbh" );
static uint8_t value[ 32768 ], prob[ 32768 ]; static unsigned wr, rd; static int mode;
void tape_reset( int m ) { mode = m; wr = rd = 0; }
unsigned tape_written( void ) { return wr; }
unsigned tape_read( void ) { return rd; }
unsigned tape_value( unsigned i ) { return value[ i ]; }
unsigned tape_prob( unsigned i ) { return prob[ i ]; }
void tape_output( const uint8_t * p, unsigned long n ) { ends[ outputs ] = p; sizes[ outputs++ ] = n; }
unsigned tape_outputs_taken( void ) { return taken; }
static uint8_t xv[ 10 ][ 12288 ], xp[ 10 ][ 12288 ], gp[ 10 ][ 12288 ], pv[ 10 ][ 12288 ], pp[ 10 ][ 12288 ]; static unsigned xn[ 10 ], gn[ 10 ], pn[ 10 ], encoders; static const void * who[ 10 ];
void route_expect( unsigned c, bool v, uint8_t p ) { xv[ c ][ xn[ c ] ] = v; xp[ c ][ xn[ c ]++ ] = p; }
void route_replace( unsigned c, unsigned i, bool v ) { xv[ c ][ i ] = v; }
unsigned route_expected( unsigned c ) { return xn[ c ]; }
bool route_read_exactly( unsigned c ) { if ( gn[ c ] != xn[ c ] ) return false; bool ok = true; for ( unsigned i = 0; i < xn[ c ]; i++ ) ok = ok & ( gp[ c ][ i ] == xp[ c ][ i ] ); return ok; }
bool route_written_exactly( unsigned id, unsigned c ) { if ( id >= encoders or pn[ id ] != xn[ c ] ) return false; bool ok = true; for ( unsigned i = 0; i < xn[ c ]; i++ ) ok = ok & ( pv[ id ][ i ] == xv[ c ][ i ] ) & ( pp[ id ][ i ] == xp[ c ][ i ] ); return ok; }
static unsigned encoder_of( const void * self ) { for ( unsigned i = encoders; i--; ) if ( who[ i ] == self ) return i; who[ encoders ] = self; return encoders++; }
void tape_put( void * self, bool b, uint8_t p ) { if ( mode == TAPE_ROUTE ) { const unsigned id = encoder_of( self ); pv[ id ][ pn[ id ] ] = b; pp[ id ][ pn[ id ]++ ] = p; return; } value[ wr ] = b; prob[ wr ] = p; wr++; }
bool tape_get( void * self, uint8_t p )
{
  if ( mode == TAPE_ROUTE ) {
    const unsigned id = first_octet( static_cast<const BoolDecoder *>( self ), 0 ); if ( id == 0 or id > 10 ) return false;
    const unsigned c = id - 1, i = gn[ c ]++; if ( i < 12288 ) gp[ c ][ i ] = p; return i < xn[ c ] ? xv[ c ][ i ] : false;
  }
  if ( mode == TAPE_FREE ) { const bool b = sym_bits( "bit", 1 ); value[ rd ] = b; prob[ rd ] = p; rd++; return b; }
  if ( mode == TAPE_ZERO ) return false;
  if ( mode == TAPE_PLAY ) { prob[ rd ] = p; const bool b = rd < wr ? value[ rd ] : false; rd++; return b; }
  sym_assert( rd < wr, "reads no more than was written" );
  sym_assert( prob[ rd ] == p, "reads with the probability it was written with" );
  return value[ rd++ ];
}
}
/* what an arithmetic coder hands over when it is finished: the outputs announced, in turn, or nothing */
std::vector<uint8_t> tape_finish( void * self )
{
  if ( mode == TAPE_ROUTE ) { const unsigned id = encoder_of( self ); who[ id ] = nullptr; return { (uint8_t) ( id + 1 ), 0, 0 }; }
  if ( taken >= outputs ) return {};
  const unsigned i = taken++; return std::vector<uint8_t>( ends[ i ], ends[ i ] + sizes[ i ] );
}
