// C31: pictures in and out of YUV4MPEG, for display sizes that are not whole macroblocks
#include "sym.h"
#include "fakefd.hh"
#include <new>
#include "yuv4mpeg.hh"

extern "C" void * _ZTV14YUV4MPEGReader[];
extern "C" void through( void )
{
  const unsigned w = sym_param( "w", 17 ); const unsigned h = sym_param( "h", 3 ); const int frames = sym_param( "frames", 2 );
  const unsigned cw = ( w + 1 ) / 2, ch = ( h + 1 ) / 2, body = w * h + 2 * cw * ch;
  disk_room = frames * ( 6 + body ) + 64; disk = (uint8_t *) malloc( disk_room );
  for ( int f = 0; f < frames; f++ ) { memcpy( disk + disk_size, "FRAME\n", 6 ); sym_bytes( disk + disk_size + 6, body, "picture" ); disk_size += 6 + body; }
  const size_t total = disk_size;
  { MutableRasterHandle stale( w, h ); sym_bytes( &stale.get().Y().at( 0, 0 ), stale.get().width() * stale.get().height(), "stale" ); sym_bytes( &stale.get().U().at( 0, 0 ), stale.get().width() * stale.get().height() / 4, "stale" ); sym_bytes( &stale.get().V().at( 0, 0 ), stale.get().width() * stale.get().height() / 4, "stale" ); }
  alignas( YUV4MPEGReader ) static char room[ sizeof( YUV4MPEGReader ) ]; YUV4MPEGReader & reader = *(YUV4MPEGReader *) room;
  *(void **) room = (void *) &_ZTV14YUV4MPEGReader[ 2 ]; // a reader whose header has been read
  new ( &reader.header_ ) YUV4MPEGHeader(); reader.header_.width = w; reader.header_.height = h; new ( &reader.fd_ ) FileDescriptor( FD );
  for ( int f = 0; f < frames; f++ ) {
    const size_t start = f * ( 6 + body ) + 6;
    Optional<RasterHandle> got = reader.get_next_frame();
    sym_assert( got.initialized(), "a frame that is there is read" ); sym_assert( read_at == start + body, "a frame takes exactly its bytes" );
    const BaseRaster & r = got.get().get();
    sym_assert( r.display_width() == w and r.display_height() == h and r.width() == ( w + 15 ) / 16 * 16 and r.height() == ( h + 15 ) / 16 * 16, "dimensions" );
    const TwoD<uint8_t> * planes[ 3 ] = { &r.Y(), &r.U(), &r.V() }; size_t at = start;
    for ( int p = 0; p < 3; p++ ) {
      const unsigned dw = p ? cw : w, dh = p ? ch : h;
      sym_assert( planes[ p ]->width() == r.width() / ( p ? 2 : 1 ) and planes[ p ]->height() == r.height() / ( p ? 2 : 1 ), "plane dimensions" );
      bool same = true; for ( unsigned y = 0; y < planes[ p ]->height(); y++ ) for ( unsigned x = 0; x < planes[ p ]->width(); x++ ) same = same & ( planes[ p ]->at( x, y ) == disk[ at + ( y < dh ? y : dh - 1 ) * dw + ( x < dw ? x : dw - 1 ) ] );
      sym_assert( same, "picture and its extension by the nearest edge pixels" ); at += dw * dh;
    }
    at = start;
    for ( const Chunk & c : r.display_rectangle_as_planar() ) { bool same = true; for ( size_t i = 0; i < c.size(); i++ ) same = same & ( c.buffer()[ i ] == disk[ at + i ] ); sym_assert( same, "planar output" ); at += c.size(); }
    sym_assert( at == start + body, "planar output holds every displayed pixel and no other" );
    if ( f == frames - 1 ) {
      disk_size = total; uint8_t * in = disk; disk = (uint8_t *) malloc( 6 + body ); disk_room = 6 + body; disk_size = 0;
      YUV4MPEGFrameWriter::write( r, reader.fd_ );
      sym_assert( disk_size == 6 + body and not memcmp( disk, "FRAME\n", 6 ), "written frame" );
      bool same = true; for ( unsigned i = 0; i < body; i++ ) same = same & ( disk[ 6 + i ] == in[ start + i ] ); sym_assert( same, "written frame" );
      disk = in; disk_size = total;
    }
  }
  sym_assert( not reader.get_next_frame().initialized(), "the end of the file is reported" );
  YUV4MPEGHeader hd = reader.header_; sym_assert( hd.y_plane_length() == w * h and hd.uv_plane_length() == cw * ch and hd.frame_length() == body, "frame length" );
  sym_reach( "pictures" );
}
