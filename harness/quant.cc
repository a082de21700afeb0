// C10: quantiser steps
#include "sym.h"
#include "decoder.hh"
#include "decoder_state.hh"
#include "frame.hh"

/* RFC 6386 14.1, dixie dequant_init / vp8 quant tables, written independently of the code under test */
static const int DC[ 128 ] = { 4,5,6,7,8,9,10,10,11,12,13,14,15,16,17,17,18,19,20,20,21,21,22,22,23,23,24,25,25,26,27,28,29,30,31,32,33,34,35,36,37,37,38,39,40,41,42,43,44,45,46,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,70,71,72,73,74,75,76,76,77,78,79,80,81,82,83,84,85,86,87,88,89,91,93,95,96,98,100,101,102,104,106,108,110,112,114,116,118,122,124,126,128,130,132,134,136,138,140,143,145,148,151,154,157 };
static const int AC[ 128 ] = { 4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,60,62,64,66,68,70,72,74,76,78,80,82,84,86,88,90,92,94,96,98,100,102,104,106,108,110,112,114,116,119,122,125,128,131,134,137,140,143,146,149,152,155,158,161,164,167,170,173,177,181,185,189,193,197,201,205,209,213,217,221,225,229,234,239,245,249,254,259,264,269,274,279,284 };
static int cl( int q ) { return q < 0 ? 0 : q > 127 ? 127 : q; }
struct Steps { int y_dc, y_ac, y2_dc, y2_ac, uv_dc, uv_ac; };
static Steps standard( int q, int ydc, int y2dc, int y2ac, int uvdc, int uvac )
{
  Steps s;
  s.y_ac = AC[ cl( q ) ]; s.y_dc = DC[ cl( q + ydc ) ];
  s.y2_dc = 2 * DC[ cl( q + y2dc ) ]; s.y2_ac = 155 * AC[ cl( q + y2ac ) ] / 100; if ( s.y2_ac < 8 ) s.y2_ac = 8;
  s.uv_dc = DC[ cl( q + uvdc ) ]; if ( s.uv_dc > 132 ) s.uv_dc = 132;
  s.uv_ac = AC[ cl( q + uvac ) ];
  return s;
}
static void same( const Quantizer & q, const Steps & s, const char * what )
{
  sym_assert( q.y_dc == s.y_dc, what ); sym_assert( q.y_ac == s.y_ac, what ); sym_assert( q.y2_dc == s.y2_dc, what );
  sym_assert( q.y2_ac == s.y2_ac, what ); sym_assert( q.uv_dc == s.uv_dc, what ); sym_assert( q.uv_ac == s.uv_ac, what );
  sym_assert( q.y().first == q.y_dc and q.y().second == q.y_ac and q.y2().first == q.y2_dc and q.y2().second == q.y2_ac and q.uv().first == q.uv_dc and q.uv().second == q.uv_ac, "DC step first, AC step second" );
}
static int delta( Flagged< Signed<4> > & f, const char * name )
{
  const int d = sym_range( name, -15, 15 ); const bool present = sym_bool( "present" );
  f = Flagged< Signed<4> >( present, (int8_t) d );
  return present ? d : 0;
}
static BoolDecoder & zeros() { static BoolDecoder z( Chunk( nullptr, 0 ) ); return z; }
struct Ix { QuantIndices q { zeros() }; int base, d[ 5 ]; };
static void any_indices( Ix & x )
{
  x.base = sym_range( "base", 0, 127 ); x.q.y_ac_qi = x.base;
  x.d[ 0 ] = delta( x.q.y_dc, "y_dc" ); x.d[ 1 ] = delta( x.q.y2_dc, "y2_dc" ); x.d[ 2 ] = delta( x.q.y2_ac, "y2_ac" ); x.d[ 3 ] = delta( x.q.uv_dc, "uv_dc" ); x.d[ 4 ] = delta( x.q.uv_ac, "uv_ac" );
}

extern "C" void frame_steps( void )
{
  Ix x; any_indices( x );
  const Quantizer q( x.q );
  same( q, standard( x.base, x.d[ 0 ], x.d[ 1 ], x.d[ 2 ], x.d[ 3 ], x.d[ 4 ] ), "frame quantiser step" );
  sym_reach( "frame" );
}

template <class F> static void segment_steps()
{
  F frame( 16, 16 );
  Ix x; any_indices( x ); frame.mutable_header().quant_indices = x.q;
  Optional<Segmentation> seg( true, 1u, 1u );
  seg.get().absolute_segment_adjustments = sym_bool( "absolute" );
  int adj[ 4 ];
  for ( int i = 0; i < 4; i++ ) { adj[ i ] = sym_range( "adjustment", -127, 127 ); seg.get().segment_quantizer_adjustments.at( i ) = adj[ i ]; }
  const auto qs = frame.calculate_segment_quantizers( seg );
  for ( int i = 0; i < 4; i++ ) {
    const int q = cl( adj[ i ] + ( seg.get().absolute_segment_adjustments ? 0 : x.base ) );
    same( qs.at( i ), standard( q, x.d[ 0 ], x.d[ 1 ], x.d[ 2 ], x.d[ 3 ], x.d[ 4 ] ), "segment quantiser step" );
  }
  sym_reach( "segments" );
}
extern "C" void segment_steps_key( void ) { segment_steps<KeyFrame>(); }
extern "C" void segment_steps_inter( void ) { segment_steps<InterFrame>(); }
