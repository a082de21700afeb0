// C08: the frame container
#include "tape.hh"
#include "decoder.hh"
#include "frame.hh"
#include "uncompressed_chunk.hh"
#include "exception.hh"

/* whole frames, assembled from arbitrary partitions by Frame::serialize and taken apart again */
static uint8_t arena[ 10 << 20 ];
template <class F> static void roundtrip( bool key )
{
  tape_reset( TAPE_ZERO ); F f( 16, 16 ); tape_reset( TAPE_COPY );
  const unsigned log2 = sym_param( "log2", 0 ), n = 1 << log2; f.header_.log2_number_of_dct_partitions = log2;
  const unsigned wd = key ? sym_range( "width", 1, 16383 ) : 16; const unsigned ht = key ? sym_range( "height", 1, 16383 ) : 16; const bool show = sym_bits( "show", 1 );
  f.display_width_ = wd; f.display_height_ = ht; f.set_show( show );
  const unsigned first = sym_param( "first", 3 ); unsigned len[ 9 ], at[ 9 ], used = 0;
  for ( unsigned i = 0; i <= n; i++ ) {
    len[ i ] = i == 0 ? first : sym_param( "part", 0 ) == 1 and i == 1 ? sym_param( "big", 0 ) : ( i * 5 + sym_param( "part", 0 ) ) % 4 + ( i == n ); at[ i ] = used;
    for ( unsigned k = 0; k < len[ i ]; k++ ) if ( k < 4 or k + 4 >= len[ i ] ) arena[ used + k ] = sym_u8( "octet" );
    tape_output( arena + used, len[ i ] ); used += len[ i ];
  }
  const std::vector<uint8_t> frame = f.serialize( ProbabilityTables {} );
  sym_assert( tape_outputs_taken() == n + 1, "one coder per partition" );
  const UncompressedChunk u( Chunk( frame ), wd, ht, false );
  sym_assert( u.key_frame() == key and u.corruption_level() == NO_CORRUPTION and not u.experimental(), "kind of frame" ); sym_assert( u.show_frame() == show, "show flag" );
  const Chunk p0 = u.first_partition(); const auto parts = u.dct_partitions( n );
  sym_assert( parts.size() == n, "number of partitions" );
  for ( unsigned i = 0; i <= n; i++ ) {
    const Chunk & c = i ? parts.at( i - 1 ) : p0; sym_assert( c.size() == len[ i ], "partition length" );
    bool ok = true; for ( unsigned k = 0; k < len[ i ]; k++ ) if ( k < 4 or k + 4 >= len[ i ] ) ok = ok & ( c.buffer()[ k ] == arena[ at[ i ] + k ] );
    sym_assert( ok, "partition contents" );
  }
  sym_reach( "roundtrip" );
}
extern "C" void key_roundtrip( void ) { roundtrip<KeyFrame>( true ); }
extern "C" void inter_roundtrip( void ) { roundtrip<InterFrame>( false ); }
/* partitions whose length the container cannot hold are refused, not cut */
extern "C" void toolong( void )
{
  tape_reset( TAPE_ZERO ); KeyFrame f( 16, 16 ); tape_reset( TAPE_COPY ); const unsigned len = sym_param( "len", 1 << 19 );
  tape_output( arena, len ); tape_output( arena, 2 );
  try { const auto frame = f.serialize( ProbabilityTables {} ); const UncompressedChunk u( Chunk( frame ), 16, 16, false ); sym_assert( u.first_partition().size() == len, "partition length" ); sym_reach( "fits" ); }
  catch ( const Invalid & ) { sym_assert( len >= 1 << 19, "refuses only what does not fit" ); sym_reach( "refused" ); }
}
/* dimensions beyond 14 bits are refused */
extern "C" void toolarge( void )
{
  tape_reset( TAPE_ZERO ); KeyFrame f( 16, 16 ); tape_reset( TAPE_COPY ); const unsigned wd = sym_range( "width", 1, 65535 ); const unsigned ht = sym_range( "height", 1, 65535 ); f.display_width_ = wd; f.display_height_ = ht;
  tape_output( arena, 2 ); tape_output( arena, 2 ); const bool fits = ( wd < 16384 ) & ( ht < 16384 ); bool refused = false;
  try { f.serialize( ProbabilityTables {} ); } catch ( const Invalid & ) { refused = true; }
  sym_assert( refused == not fits, "refused exactly when a dimension does not fit" ); if ( refused ) sym_reach( "refused" ); else sym_reach( "fits" );
}
/* any octets at all */
extern "C" void reader( void )
{
  const unsigned n = sym_param( "n", 12 ); const bool partial = sym_param( "partial", 0 ); uint8_t * b = new uint8_t[ n ]; sym_bytes( b, n, "frame" );
  const unsigned wd = sym_range( "width", 1, 16383 ); const unsigned ht = sym_range( "height", 1, 16383 );
  const bool key = n > 0 and not( b[ 0 ] & 1 ); const unsigned version = n > 0 ? b[ 0 ] >> 1 & 7 : 0, off = key ? 10 : 3, first = n > 2 ? b[ 0 ] >> 5 | b[ 1 ] << 3 | b[ 2 ] << 11 : 0;
  const bool cut = n < 3, known = version == 0 or version == 4 or version == 6, fits = not cut and n > off + first;
  const bool sane = not key or ( n >= 10 and b[ 3 ] == 0x9d and b[ 4 ] == 1 and b[ 5 ] == 0x2a and ( b[ 6 ] | b[ 7 ] << 8 ) == (int) wd and ( b[ 8 ] | b[ 9 ] << 8 ) == (int) ht );
  bool refused = false;
  try {
    const UncompressedChunk u( Chunk( b, n ), wd, ht, partial ); const Chunk p = u.first_partition();
    if ( not partial ) {
      sym_assert( known and fits and sane, "what is accepted is whole and consistent" );
      sym_assert( u.key_frame() == key and u.show_frame() == (bool) ( b[ 0 ] >> 4 & 1 ) and u.experimental() == ( version != 0 ) and u.corruption_level() == NO_CORRUPTION, "flags" );
    } else if ( u.corruption_level() == CORRUPTED_FRAME ) sym_assert( n < off, "too short for its fixed part" );
    else sym_assert( known and sane and ( u.corruption_level() == NO_CORRUPTION ) == fits, "a truncated first partition is reported" );
    if ( u.corruption_level() == NO_CORRUPTION ) {
      sym_assert( p.buffer() == b + off and p.size() == first, "first partition" );
      const unsigned num = sym_param( "num", 1 ), rest = n - off - first; const uint8_t * q = p.buffer() + first;
      try {
        const auto parts = u.dct_partitions( num ); const uint8_t * at = q + 3 * ( num - 1 ); sym_assert( parts.size() == num and rest >= 3 * ( num - 1 ), "number of partitions" );
        for ( unsigned i = 0; i < num; i++ ) {
          const uint64_t len = i + 1 < num ? q[ 3 * i ] | q[ 3 * i + 1 ] << 8 | q[ 3 * i + 2 ] << 16 : b + n - at;
          sym_assert( parts.at( i ).buffer() == at and parts.at( i ).size() == len and at + len <= b + n, "each partition follows the last, within the frame" ); at += len;
        }
        sym_reach( "taken apart" );
      } catch ( const std::out_of_range & ) {
        uint64_t need = 3 * ( num - 1 ); bool shortage = need > rest; if ( not shortage ) { for ( unsigned i = 0; i + 1 < num; i++ ) need += q[ 3 * i ] | q[ 3 * i + 1 ] << 8 | q[ 3 * i + 2 ] << 16; shortage = need > rest; }
        sym_assert( shortage, "partitions are refused only when they do not fit" ); sym_reach( "partitions refused" );
      }
    } else if ( u.corruption_level() == CORRUPTED_FIRST_PARTITION ) { sym_assert( p.buffer() == b + off and p.size() == n - off, "what there is of the first partition" ); sym_reach( "partial" ); }
  } catch ( const Invalid & ) { refused = true; } catch ( const Unsupported & ) { refused = true; }
  if ( refused ) { sym_assert( partial ? ( not known ) | ( not sane ) : not( known and fits and sane ), "only inconsistent frames are refused" ); sym_reach( "refused" ); }
  delete[] b; sym_reach( "read" );
}
/* slices and bit fields of a range of octets stay inside it */
extern "C" void slices( void )
{
  const unsigned n = sym_param( "n", 5 ); uint8_t * b = new uint8_t[ n ]; sym_bytes( b, n, "octets" ); const Chunk c( b, n );
  const uint64_t off = sym_u64( "offset" ); const uint64_t len = sym_u64( "length" ); bool refused = false;
  try { const Chunk s = c( off, len ); sym_assert( off <= n and len <= n - off and s.size() == len and s.buffer() == b + off, "a slice is inside" ); sym_reach( "slice" ); } catch ( const std::out_of_range & ) { refused = true; }
  if ( refused ) { sym_assert( ( off > n ) | ( len > n - off ), "refused only when it is not" ); sym_reach( "refused" ); }
  refused = false; try { const Chunk s = c( off ); sym_assert( off <= n and s.size() == n - off and s.buffer() == b + off, "a tail is inside" ); } catch ( const std::out_of_range & ) { refused = true; }
  if ( refused ) sym_assert( off > n, "refused only when it is not" );
  delete[] b;
}
extern "C" void bits( void )
{
  const unsigned n = sym_param( "n", 8 ), off = sym_param( "offset", 0 ), len = sym_param( "length", 1 ); uint8_t * b = new uint8_t[ n ]; sym_bytes( b, n, "octets" ); const Chunk c( b, n ); bool refused = false;
  try {
    const uint64_t got = c.bits( off, len ); uint64_t all = 0; for ( unsigned i = 0; i < n and i < 8; i++ ) all |= (uint64_t) b[ i ] << 8 * i;
    sym_assert( got == ( all >> off & ( ( (uint64_t) 1 << len ) - 1 ) ), "the field's bits, least significant first" ); sym_reach( "field" );
  } catch ( const std::out_of_range & ) { refused = true; }
  if ( refused ) { sym_assert( off + len > 8 * n, "refused only beyond the end" ); sym_reach( "refused" ); }
  delete[] b;
}
