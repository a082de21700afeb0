// C01, C02: boolean entropy coder.
#include "sym.h"
#include <cassert>
#include <vector>
#include "bool_decoder.hh"
#include "bool_encoder.hh"

/* Reference: the exact (unbounded-precision) arithmetic decoder of RFC 6386 section 7.
   A is the code value relative to the bottom of the interval, scaled so that the interval is R * 2^m. */

/* One decoding step from any decoder state, with any bytes left: the returned bit is the one exact arithmetic gives,
   and the new state represents exactly the rescaled remainder. */
extern "C" void dec_step( void )
{
  const unsigned rem = sym_param( "rem", 3 );
  uint8_t * buf = new uint8_t[ rem ];
  sym_bytes( buf, rem, "bytes" );
  BoolDecoder d( Chunk( buf, rem ) );
  /* an arbitrary reachable state: 128 <= range <= 255, value < range << 8, 0..7 bits of the second octet used */
  d.chunk_ = Chunk( buf, rem );
  d.range_ = sym_range( "range", 128, 255 );
  d.bit_count_ = sym_range( "bit_count", 0, 7 );
  d.value_ = sym_bits( "value", 16 );
  sym_assume( d.value_ < ( d.range_ << 8 ) );
  sym_assume( ( d.value_ & ( ( 1u << d.bit_count_ ) - 1 ) ) == 0 );   /* bits not loaded yet */
  d.valid_ = true;
  d.complete_chunk_ = sym_bool( "complete" );
  const uint8_t prob = sym_u8( "prob" );

  const unsigned m = 8 * rem + 8;                         /* A has 16 + 8*rem bits, up to bit_count */
  uint64_t A = (uint64_t) d.value_ << ( 8 * rem );
  for ( unsigned i = 0; i < rem; i++ ) { A += ( (uint64_t) buf[ i ] << ( 8 * ( rem - 1 - i ) ) ) << d.bit_count_; }
  const uint32_t R = d.range_;
  const uint32_t split = 1 + ( ( ( R - 1 ) * prob ) >> 8 );
  const bool expect = A >= ( (uint64_t) split << m );

  const unsigned bc0 = d.bit_count_;
  const bool got = d.get( prob );
  sym_reach( "step" );
  sym_assert( got == expect, "decoded bit is the one exact arithmetic gives" );
  const uint32_t R1 = expect ? R - split : split;
  uint64_t A1 = expect ? A - ( (uint64_t) split << m ) : A;
  unsigned shift = 0; { uint32_t r = R1; while ( r < 128 ) { r <<= 1; shift++; } }
  sym_assert( d.range_ == ( R1 << shift ), "range renormalised to 128..255" );
  sym_possible( shift == 7 and rem > 0, "shift 7" );
  A1 <<= shift;
  /* what the new state represents, on the same scale; past the end it is zero-filled */
  const unsigned left = d.chunk_.size();
  sym_assert( left <= rem and d.chunk_.buffer() + left == buf + rem, "remaining bytes are a suffix of the input" );
  uint64_t B = (uint64_t) d.value_ << ( 8 * rem );
  unsigned pos = 8 * rem;
  for ( unsigned i = rem - left; i < rem; i++ ) { pos -= 8; B += ( (uint64_t) buf[ i ] << pos ) << d.bit_count_; }
  sym_assert( A1 == B, "state after the step represents the exact remainder" );
  sym_assert( d.bit_count_ >= 0 and d.bit_count_ <= 7, "bit count in range" );
  sym_assert( d.value_ < ( d.range_ << 8 ), "value stays inside the range" );
  if ( rem > 0 or d.complete_chunk_ ) { sym_assert( d.valid_, "decoder stays valid while bytes remain or zero fill is allowed" ); }
  else { sym_assert( d.valid_ == ( bc0 + shift < 8 ), "a truncated chunk is reported exactly when a missing octet is needed" ); }
  delete [] buf;
}

/* From the very beginning: any byte string of length n, any k probabilities, against a bit-serial RFC decoder */
extern "C" void dec_run( void )
{
  const unsigned n = sym_param( "n", 3 ), k = sym_param( "k", 3 );
  uint8_t * buf = new uint8_t[ n ];
  sym_bytes( buf, n, "bytes" );
  BoolDecoder d( Chunk( buf, n ) );
  /* RFC 6386 7.3 */
  unsigned used = 0; auto next = [&] { return used < n ? (uint32_t) buf[ used++ ] : ( used++, 0u ); };
  uint32_t value = next() << 8; value |= next(); uint32_t range = 255; int bit_count = 0;
  for ( unsigned i = 0; i < k; i++ ) {
    const uint8_t prob = sym_u8( "prob" );
    const uint32_t split = 1 + ( ( ( range - 1 ) * prob ) >> 8 ); const uint32_t SPLIT = split << 8; bool r;
    if ( value >= SPLIT ) { r = 1; range -= split; value -= SPLIT; } else { r = 0; range = split; }
    while ( range < 128 ) { value <<= 1; range <<= 1; if ( ++bit_count == 8 ) { bit_count = 0; value |= next(); } }
    sym_assert( d.get( prob ) == r, "bit equals RFC 6386" );
  }
  sym_assert( d.valid(), "valid" );
  sym_reach( "run" );
  delete [] buf;
}

/* a decoder told that its chunk may be truncated reports running out */
extern "C" void dec_trunc( void )
{
  const unsigned n = sym_param( "n", 2 );
  uint8_t * buf = new uint8_t[ n ];
  sym_bytes( buf, n, "bytes" );
  BoolDecoder d( Chunk( buf, n ), false ), c( Chunk( buf, n ) );
  sym_assert( d.valid() == ( n >= 2 ), "a complete start is valid, a truncated one is not" );
  sym_assert( c.valid(), "a complete chunk is valid whatever its length" );
  sym_reach( "trunc" );
  delete [] buf;
}

/* One encoding step from any encoder state: the number written so far changes exactly as arithmetic coding says,
   carries into the bytes already emitted included. */
extern "C" void enc_step( void )
{
  const unsigned k = sym_param( "k", 3 ), lead = sym_param( "lead", 0 ); /* lead octets, then k octets */
  BoolEncoder e;
  uint8_t front[ 8 ]; sym_bytes( front, lead, "emitted first" );
  uint8_t out[ 4 ]; sym_bytes( out, k, "emitted" );
  uint64_t H = 0;
  for ( unsigned i = 0; i < lead; i++ ) { e.output_.push_back( front[ i ] ); H = H << 8 | front[ i ]; }
  for ( unsigned i = 0; i < k; i++ ) { e.output_.push_back( out[ i ] ); }
  const int c = sym_range( "bit_count", -24, -1 );
  e.bit_count_ = c;
  e.range_ = sym_range( "range", 128, 255 );
  e.bottom_ = sym_u32( "bottom" );
  uint64_t N = 0; for ( unsigned i = 0; i < k; i++ ) { N = N << 8 | out[ i ]; }
  const unsigned bits = 32 + c;                           /* bits of the interval bottom not yet emitted */
  sym_assume( (uint64_t) e.bottom_ + e.range_ <= ( 2ull << bits ) );
  N = ( N << bits ) + e.bottom_;
  sym_assume( ( lead and H + 1 < ( 1ull << 8 * lead ) ) or N + e.range_ <= ( 1ull << ( 8 * k + bits ) ) );  /* the interval lies inside the code space */
  const bool v = sym_bool( "value" ); const uint8_t prob = sym_u8( "prob" );
  const uint32_t R = e.range_, split = 1 + ( ( ( R - 1 ) * prob ) >> 8 );

  e.put( v, prob );
  sym_reach( "step" );
  const uint32_t R1 = v ? R - split : split;
  unsigned shift = 0; { uint32_t r = R1; while ( r < 128 ) { r <<= 1; shift++; } }
  const uint64_t sum = N + ( v ? split : 0 ), carry = sum >> ( 8 * k + bits );
  const uint64_t N1 = ( lead ? sum & ( ( 1ull << ( 8 * k + bits ) ) - 1 ) : sum ) << shift;
  sym_assert( e.range_ == ( R1 << shift ), "range renormalised" );
  const unsigned k1 = e.output_.size() - lead;
  uint64_t H1 = 0; for ( unsigned i = 0; i < lead; i++ ) { H1 = H1 << 8 | e.output_[ i ]; }

  sym_assert( k1 == k + ( c + (int) shift >= 0 ), "one octet emitted when 24 bits are pending" );
  const int c1 = e.bit_count_;
  sym_assert( c1 == ( c + (int) shift >= 0 ? c + (int) shift - 8 : c + (int) shift ), "pending bit count" );
  uint64_t M = 0; for ( unsigned i = 0; i < k1; i++ ) { M = M << 8 | e.output_[ lead + i ]; }
  const unsigned bits1 = 32 + c1;
  M = ( M << bits1 ) + e.bottom_;
  if ( lead ) { /* a carry may still be pending in bottom_ */
    sym_assert( H1 + ( M >> ( 8 * k1 + bits1 ) ) == H + carry, "octets emitted long ago change exactly by the carry" );
    M &= ( 1ull << ( 8 * k1 + bits1 ) ) - 1;
  }
  sym_assert( M == N1, "number represented after the step, carries included" );
  sym_assert( (uint64_t) e.bottom_ + e.range_ <= ( 2ull << bits1 ), "pending bits bounded" );
  sym_possible( c + (int) shift >= 0 and k1 == k + 1 and k > 1 and out[ k - 1 ] == 255 and e.output_[ lead + k - 1 ] == 0, "carry rippled" );
}

/* finish() from any encoder state writes exactly the number the interval starts at, and leaves a fresh encoder */
extern "C" void enc_finish( void )
{
  const unsigned k = sym_param( "k", 2 ); const int c = sym_param( "c", -24 );
  BoolEncoder e;
  uint8_t out[ 4 ]; sym_bytes( out, k, "emitted" );
  for ( unsigned i = 0; i < k; i++ ) { e.output_.push_back( out[ i ] ); }
  e.bit_count_ = c;
  e.range_ = sym_range( "range", 128, 255 );
  e.bottom_ = sym_u32( "bottom" );
  uint64_t N = 0; for ( unsigned i = 0; i < k; i++ ) { N = N << 8 | out[ i ]; }
  const unsigned bits = 32 + c;
  sym_assume( (uint64_t) e.bottom_ + e.range_ <= ( 2ull << bits ) );
  N = ( N << bits ) + e.bottom_;
  sym_assume( N + e.range_ <= ( 1ull << ( 8 * k + bits ) ) );
  std::vector<uint8_t> bytes = e.finish();
  sym_reach( "finished" );
  sym_assert( 8 * bytes.size() >= 8 * k + bits - 8, "every bit of the interval's position is written" );
  uint64_t X = 0; for ( unsigned i = 0; i < 8; i++ ) { X = X << 8 | ( i < bytes.size() ? bytes[ i ] : 0 ); }
  sym_assert( X == N << ( 64 - 8 * k - bits ), "the finished octets are exactly the bottom of the interval" );
  sym_assert( e.range_ == 255 and e.bottom_ == 0 and e.bit_count_ == -24 and e.output_.empty(), "finish() leaves a fresh encoder" );
}

/* End to end: n symbols, finish, decode; twice with the same encoder object */
extern "C" void roundtrip( void )
{
  const unsigned n = sym_param( "n", 3 ), again = sym_param( "again", 0 ); const int fixed = sym_param( "prob", -1 );
  bool v[ 64 ]; uint8_t p[ 64 ];
  BoolEncoder e;
  for ( unsigned r = 0; r <= again; r++ ) {
    for ( unsigned i = 0; i < n; i++ ) { v[ i ] = sym_bool( "value" ); p[ i ] = fixed < 0 ? sym_u8( "prob" ) : fixed; e.put( v[ i ], p[ i ] ); }
    std::vector<uint8_t> bytes = e.finish();
    BoolDecoder d( ( Chunk( bytes ) ) );
    for ( unsigned i = 0; i < n; i++ ) { sym_assert( d.get( p[ i ] ) == v[ i ], "decoded symbol equals the encoded one" ); }
    sym_reach( "decoded" );
  }
}
