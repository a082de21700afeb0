// C28: IVF files written are read back; C29: any byte string opened as an IVF file
#include "sym.h"
#include "fakefd.hh"
#include "ivf.hh"
#include "ivf_writer.hh"

static uint32_t le( size_t at, int n ) { uint32_t r = 0; for ( int i = 0; i < n; i++ ) r |= (uint32_t) disk[ at + i ] << ( 8 * i ); return r; }

extern "C" void roundtrip( void )
{
  const int frames = sym_param( "frames", 2 ); const int longest = sym_param( "longest", 2 );
  disk_room = 32 + frames * ( 12 + longest ); disk = (uint8_t *) malloc( disk_room );
  const uint16_t w = sym_u16( "width" ); const uint16_t h = sym_u16( "height" ); const uint32_t rate = sym_u32( "rate" ); const uint32_t scale = sym_u32( "scale" ); const uint32_t mini = sym_u32( "minihash" );
  char fourcc[ 4 ]; sym_bytes( fourcc, 4, "fourcc" );
  uint8_t data[ 8 ][ 8 ]; size_t len[ 8 ];
  const bool hash = sym_param( "hash", 0 );
  {
    IVFWriter out( "@", std::string( fourcc, 4 ), w, h, rate, scale );
    sym_assert( out.width() == w and out.height() == h, "writer's dimensions" );
    sym_assert( disk_size == 32 and le( 24, 4 ) == 0, "an empty file holds no frames" );
    size_t end = 32;
    for ( int i = 0; i < frames; i++ ) {
      len[ i ] = sym_concrete( sym_range( "length", 0, longest ) ); sym_bytes( data[ i ], longest, "frame" );
      const size_t at = out.append_frame( Chunk( data[ i ], len[ i ] ) );
      sym_assert( at == end + 12, "reported place of the frame" ); end += 12 + len[ i ];
      sym_assert( disk_size == end, "file length" ); sym_assert( le( 24, 4 ) == (uint32_t) i + 1, "frame count in the file" );
      if ( hash and i == 0 ) { out.set_expected_decoder_entry_hash( mini ); sym_assert( le( 28, 4 ) == mini and disk_size == end, "entry hash in the file" ); }
    }
    sym_assert( maps == 0, "mappings released" );
  }
  sym_assert( close_count == 1, "closed once" );
  IVF in( "@" );
  sym_assert( in.width() == w and in.height() == h and in.frame_rate() == rate and in.time_scale() == scale, "dimensions and rate" );
  sym_assert( in.fourcc().size() == 4 and not memcmp( in.fourcc().data(), fourcc, 4 ), "format" );
  sym_assert( in.frame_count() == (uint32_t) frames, "frame count" );
  if ( hash ) sym_assert( in.expected_decoder_minihash() == mini, "entry hash" );
  for ( int i = 0; i < frames; i++ ) {
    const Chunk c = in.frame( i ); sym_assert( c.size() == len[ i ], "frame length" );
    for ( size_t k = 0; k < len[ i ]; k++ ) sym_assert( c.buffer()[ k ] == data[ i ][ k ], "frame bytes" );
  }
  bool refused = false; try { in.frame( frames ); } catch ( const std::exception & ) { refused = true; } sym_assert( refused, "no further frame" );
  sym_reach( "read back" );
}

extern "C" void hostile( void )
{
  const size_t n = sym_param( "n", 46 );
  disk_room = disk_size = n; disk = (uint8_t *) malloc( n ? n : 1 ); sym_bytes( disk, n, "file" );
  sym_alloc_cap( 80 ); // room for five index entries; a file of this length holds fewer
  const uint32_t index = sym_range( "index", 0, 5 );
  try {
    IVF in( "@" );
    sym_assert( n >= 32 and not memcmp( disk, "DKIF", 4 ) and le( 4, 2 ) == 0 and le( 6, 2 ) == 32, "accepted a file without an IVF header" );
    sym_assert( in.width() == le( 12, 2 ) and in.height() == le( 14, 2 ) and in.frame_count() == le( 24, 4 ), "header fields" );
    sym_reach( "opened" );
    // where the length fields put frame `index`
    size_t at = 32; bool exists = index < in.frame_count();
    const uint32_t i = sym_concrete( index );
    if ( exists ) for ( uint32_t k = 0; k < i; k++ ) { sym_assert( at + 12 <= n, "index runs outside the file" ); at += 12 + (size_t) le( at, 4 ); }
    if ( exists ) sym_assert( at + 12 <= n, "index runs outside the file" );
    try {
      const Chunk c = in.frame( i );
      sym_assert( exists, "yields a frame the file does not have" );
      sym_assert( c.size() == le( at, 4 ) and c.buffer() == disk + at + 12, "frame is where the length fields put it" );
      sym_assert( c.size() <= n - at - 12, "frame lies inside the file" );
      uint8_t x = 0; const size_t size = sym_concrete( c.size() ); for ( size_t k = 0; k < size; k++ ) x ^= c.buffer()[ k ]; sym_log( "x", x );
      sym_reach( "frame" );
    } catch ( const std::exception & ) { sym_assert( not exists or le( at, 4 ) > n - at - 12, "refused a frame that is there" ); sym_reach( "frame refused" ); }
  } catch ( const std::exception & ) { sym_reach( "refused" ); }
}
