// C35
#include "sym.h"
#include "encoder.hh"
extern "C" void calcprob( void )
{
  const uint32_t f = sym_bits( "zeros", sym_param( "bits", 24 ) ), t = sym_bits( "ones", sym_param( "bits", 24 ) );
  sym_assume( f < 0x800000 and t < 0x800000 );
  const unsigned p = Encoder::calc_prob( f, f + t );
  if ( f == 0 ) { sym_assert( p == 0, "no zero branch seen" ); }
  else {
    sym_assert( p >= 1 and p <= 255, "usable probability" );
    const uint64_t q = (uint64_t) f * 256 / ( f + t );
    sym_assert( p == ( q < 1 ? 1 : q > 255 ? 255 : q ), "scaled count ratio" );
    sym_possible( q == 0, "clamped low" ); sym_possible( q == 256, "clamped high" );
  }
  sym_reach( "prob" );
}
