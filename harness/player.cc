// C41: a player of a file shows exactly the shown frames, in order, from the first key frame on
#include "sym.h"
#include "fakefd.hh"
#include <memory>
#include <vector>
#include "exception.hh"
#include "player.hh"
static const int N = 6, LEN = 12;
static int given; static bool shown[ N ], broken[ N ]; static int asked[ N ]; static uint8_t marks[ N ]; struct Damaged {};
/* stands for decoding (linked over the real one): frame i, when it is shown, is a picture with its mark */
Optional<RasterHandle> Decoder::parse_and_decode_frame( const Chunk & c )
{
  sym_assert( given < N, "no more frames than the file holds" ); const int i = c.size() >= LEN ? c.buffer()[ LEN - 1 ] : N - 1;
  sym_assert( i < N - 1 and (int) c.size() == LEN + i % 2, "a frame of the file, whole" ); asked[ given++ ] = i;
  if ( broken[ i ] ) throw Invalid( "damaged" );
  if ( not shown[ i ] ) return {};
  MutableRasterHandle r( 16, 16 ); r.get().Y().at( 0, 0 ) = marks[ i ]; return { RasterHandle( std::move( r ) ) };
}
static void le( size_t at, uint32_t v, int n ) { for ( int i = 0; i < n; i++ ) disk[ at + i ] = v >> ( 8 * i ); }
extern "C" void play( void )
{
  const int n = sym_param( "frames", 3 ); disk_room = disk_size = 32 + n * ( 12 + LEN + 1 ); disk = (uint8_t *) calloc( disk_room, 1 );
  memcpy( disk, "DKIF", 4 ); le( 6, 32, 2 ); sym_bytes( disk + 8, 4, "fourcc" ); le( 12, 16, 2 ); le( 14, 16, 2 ); le( 16, 24, 4 ); le( 20, 1, 4 ); le( 24, n, 4 );
  const bool vp8 = not memcmp( disk + 8, "VP80", 4 );
  bool key[ N ]; size_t at = 32; int start = n;
  for ( int i = 0; i < n; i++ ) {
    key[ i ] = sym_concrete( sym_bits( "key", 1 ) ); shown[ i ] = sym_concrete( sym_bits( "shown", 1 ) ); broken[ i ] = sym_param( "broken", 0 ) ? sym_concrete( sym_bits( "broken", 1 ) ) : false; marks[ i ] = sym_u8( "mark" );
    const int len = LEN + i % 2; le( at, len, 4 ); at += 12; static const uint8_t start_code[] = { 0x9d, 1, 0x2a, 16, 0, 16, 0 };
    disk[ at ] = ( key[ i ] ? 0 : 1 ) | ( shown[ i ] ? 16 : 0 ); memcpy( disk + at + 3, start_code, 7 ); if ( len > LEN ) disk[ at + LEN ] = sym_u8( "last" );
    disk[ at + LEN - 1 ] = i; at += len; if ( key[ i ] and start == n ) start = i;
  }
  std::unique_ptr<Player> p; bool refused = false;
  try { p.reset( new Player( "@" ) ); } catch ( const Unsupported & ) { refused = true; }
  sym_assert( refused == not vp8, "a file of another format is refused, and only that" ); if ( refused ) { sym_reach( "refused" ); return; }
  sym_assert( given == 0, "opening decodes nothing" ); sym_assert( p->width() == 16 and p->height() == 16, "the file's dimensions" );
  int next = start; const int steps = sym_param( "steps", n + 1 );
  for ( int k = 0; k < steps; k++ ) {
    sym_assert( p->eof() == ( next == n ), "the end is where the frames end" );
    int want = next; while ( want < n and not shown[ want ] and not broken[ want ] ) want++;
    const int before = given; bool none = false, damaged = false;
    try { const RasterHandle r = p->advance(); sym_assert( want < n and not broken[ want ], "a picture where the file has none" ); sym_assert( r.get().Y().at( 0, 0 ) == marks[ want ], "the next shown picture" ); sym_assert( p->cur_frame_no() == (unsigned) want, "its number" ); sym_assert( p->original_size() == (unsigned) LEN + want % 2, "its size" ); sym_reach( "picture" ); }
    catch ( const Unsupported & ) { none = true; } catch ( const Invalid & ) { damaged = true; }
    sym_assert( none == ( want == n ), "the end is reported there, and only there" ); sym_assert( damaged == ( want < n and broken[ want ] ), "damage is reported where it is" );
    const int upto = want < n ? want + 1 : n; sym_assert( given - before == upto - next, "every frame on the way is decoded once" );
    for ( int i = 0; i < upto - next; i++ ) sym_assert( asked[ before + i ] == next + i, "and in order" );
    next = upto; if ( none ) sym_reach( "end" );
    if ( given > N - 2 ) break;
  }
  sym_reach( "played" );
}
