// C09: whole frames as octets, through the real arithmetic decoder: noise, with one octet, or some bits of it, arbitrary, whole or cut short
#include "sym.h"
#include "decoder.hh"
#include "frame.hh"
#include "uncompressed_chunk.hh"
#include "exception.hh"
static unsigned noise( unsigned i ) { unsigned x = ( i + 1 ) * 2654435761u ^ ( sym_param( "salt", 0 ) + 1 ) * 0x9e3779b9u; x ^= x >> 15; x *= 0x2c1b3c6du; x ^= x >> 13; return x; }
/* first octets that keep the header plain: nothing optional, so that the parse reaches the macroblocks */
static unsigned make( uint8_t * b, bool key, unsigned w, unsigned h, unsigned first, unsigned total, unsigned plain )
{
  const unsigned tag = ( key ? 0 : 1 ) | 1 << 4 | first << 5; unsigned n = 0; b[ n++ ] = tag; b[ n++ ] = tag >> 8; b[ n++ ] = tag >> 16;
  if ( key ) for ( unsigned x : { 0x9du, 0x01u, 0x2au, w & 255, w >> 8, h & 255, h >> 8 } ) b[ n++ ] = x;
  const unsigned start = n; for ( ; n < total; n++ ) b[ n ] = noise( n ) >> 7; for ( unsigned i = 0; i < plain; i++ ) b[ start + i ] = 0; return n;
}
static void one( Decoder & d, const uint8_t * b, unsigned n )
{
  try { d.get_frame_output( Chunk( b, n ) ); sym_reach( "survived" ); } catch ( const std::exception & ) { sym_reach( "refused" ); }
}
static void octets( bool key )
{
  const unsigned w = sym_param( "w", 20 ), h = sym_param( "h", 17 ), first = sym_param( "first", 24 ), total = sym_param( "total", 60 ), plain = sym_param( "plain", 8 ); const int cut = sym_param( "cut", 0 );
  Decoder d( w, h );
  if ( not key ) { uint8_t * k = new uint8_t[ 80 ]; make( k, true, w, h, 30, 80, 8 ); one( d, k, 80 ); }
  const unsigned n = total - cut; uint8_t * whole = new uint8_t[ total ]; make( whole, key, w, h, first, total, plain ); uint8_t * b = new uint8_t[ n ]; for ( unsigned i = 0; i < n; i++ ) b[ i ] = whole[ i ]; // exactly as long as the frame
  const unsigned at = sym_param( "at", 0 ), wide = sym_param( "wide", 8 ), shift = sym_param( "shift", 0 ); if ( at < n and wide ) { const uint8_t v = sym_bits( "octet", wide ); b[ at ] = b[ at ] ^ v << shift; }
  one( d, b, n ); sym_reach( "hostile" );
}
extern "C" void key_octets( void ) { octets( true ); }
extern "C" void inter_octets( void ) { octets( false ); }
