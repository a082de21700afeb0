// C34: every history of taking, writing, freezing, hashing, sharing and returning pooled pictures
#include "sym.h"
#include <memory>
#include "exception.hh"
#include <vector>
#include "raster_handle.hh"
template<> size_t VP8RasterHandle<HashCachedRaster>::hash( void ) const;

/* stands for the real digest of all pixels (which is linked over): any function of the contents will do here */
size_t BaseRaster::raw_hash( void ) const { return (size_t) Y_.at( 3, 5 ) * 257 + V_.at( 1, 2 ) + 7; }
typedef VP8MutableRasterHandle<HashCachedRaster> M; typedef VP8RasterHandle<HashCachedRaster> F;
struct Slot { std::unique_ptr<M> m; std::unique_ptr<F> f, shared; const HashCachedRaster * at = nullptr; uint8_t mark = 0; unsigned w = 0; };
static const int SLOTS = 2;
extern "C" void history( void )
{
  const int k = sym_param( "k", 5 ); RasterPoolDebug::allow_resize = sym_param( "resize", 0 );
  { Slot s[ SLOTS ]; std::vector<std::pair<const HashCachedRaster *, unsigned>> returned;
  for ( int step = 0; step < k; step++ ) {
    const uint64_t op = sym_concrete( sym_range( "op", 0, 5 ) ); const uint64_t which = sym_concrete( sym_range( "slot", 0, SLOTS - 1 ) ); Slot & x = s[ which ];
    switch ( op ) {
    case 0: { sym_assume( not x.at ); // take
      const unsigned dw = sym_param( "dw", 0 ), h = 16 - sym_param( "dh", 0 ); const unsigned aligned = sym_param( "resize", 0 ) or sym_param( "sizes", 1 ) == 2 ? 16 * sym_concrete( sym_range( "size", 1, 2 ) ) : 16, w = aligned - dw;
      try { x.m.reset( new M( w, h ) ); } catch ( const Unsupported & ) { bool other = false; for ( const auto & r : returned ) other |= r.second != w; sym_assert( other, "refused although every returned picture has this size" ); sym_assert( not RasterPoolDebug::allow_resize, "resizing was allowed" ); sym_reach( "refused" ); break; }
      x.at = &x.m->get(); x.w = w;
      for ( int i = 0; i < SLOTS; i++ ) if ( i != (int) which ) sym_assert( s[ i ].at != x.at, "the picture is in use by someone else" );
      sym_assert( x.at->display_width() == w and x.at->display_height() == h and x.at->width() == aligned and x.at->height() == 16, "requested size" );
      sym_assert( not x.at->has_cache(), "carries a hash of earlier contents" );
      if ( not RasterPoolDebug::allow_resize and not returned.empty() ) { bool again = false; for ( auto & r : returned ) if ( r.first == x.at ) { again = true; r = returned.back(); returned.pop_back(); break; } sym_assert( again, "a returned picture becomes available again" ); sym_reach( "reused" ); }
      x.mark = sym_u8( "mark" ); x.m->get().Y().at( 3, 5 ) = x.mark; x.m->get().V().at( 1, 2 ) = x.mark; break; }
    case 1: sym_assume( x.m != nullptr ); x.mark = sym_u8( "mark" ); x.m->get().Y().at( 3, 5 ) = x.mark; x.m->get().V().at( 1, 2 ) = x.mark; break;
    case 2: sym_assume( x.m != nullptr ); x.f.reset( new F( std::move( *x.m ) ) ); x.m.reset(); sym_assert( &x.f->get() == x.at, "freezing keeps the picture" ); break;
    case 3: { sym_assume( x.f != nullptr ); const size_t h = x.f->hash(); sym_assert( h == x.at->raw_hash(), "hash of the present contents" ); sym_assert( h == x.f->hash(), "hash is stable" ); sym_reach( "hashed" ); break; }
    case 4: sym_assume( x.f != nullptr and not x.shared ); x.shared.reset( new F( *x.f ) ); x.f.reset(); x.f.swap( x.shared ); break; // another owner takes over
    case 5: sym_assume( x.at ); returned.push_back( { x.at, x.w } ); x.m.reset(); x.f.reset(); x.shared.reset(); x.at = nullptr; break;
    }
    for ( int i = 0; i < SLOTS; i++ ) if ( s[ i ].at ) { const auto & r = s[ i ].m ? s[ i ].m->get() : s[ i ].f->get(); sym_assert( &r == s[ i ].at and r.Y().at( 3, 5 ) == s[ i ].mark and r.V().at( 1, 2 ) == s[ i ].mark, "a picture in use keeps its contents" ); }
  }
  sym_reach( "history" ); }
}
