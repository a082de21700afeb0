// C27 and the sender half of C25: free functions of salsify-sender.cc, with main renamed
#include "sym.h"
#include <getopt.h>
#include <cstring>
#include <cassert>
#define main salsify_sender_main
#include SYM_REPO_FILE( src/salsify/salsify-sender.cc )
#undef main

extern "C" void budget( void )
{
  const uint32_t avg = sym_u32( "avg_delay" ), maxd = sym_param( "default_limit", 1 ) ? 100000 : sym_u32( "max_delay" );
  const uint64_t sent = sym_u64( "last_sent" ), acked = sym_u64( "last_acked" );
  const uint64_t in_flight = sent - acked;                 /* acked == -1 before the first acknowledgement */
  sym_assume( in_flight < ( UINT64_C( 1 ) << 40 ) );
  const uint64_t fit = maxd / ( avg == 0 ? 1 : avg );
  const size_t got = sym_param( "default_limit", 1 ) ? target_size( avg, acked, sent ) : target_size( avg, acked, sent, maxd );
  sym_assert( got == ( fit > in_flight ? 1400 * ( fit - in_flight ) : 0 ), "frame budget" );
  sym_possible( got == 0 and fit > 0, "exhausted" ); sym_possible( got == 1400, "one packet" );
  sym_reach( "budget" );
}

extern "C" void ackseq( void )
{
  const unsigned n = sym_param( "frames", 4 );
  std::vector<uint64_t> cum;
  uint64_t total = 0;
  for ( unsigned i = 0; i < n; i++ ) { total += sym_range( "fragments", 1, 65535 ); cum.push_back( total ); }
  const uint32_t frame_no = sym_u32( "frame_no" ); const uint16_t fragment_no = sym_u16( "fragment_no" );
  AckPacket ack( 1, frame_no, fragment_no, 1000, 77, std::deque<uint32_t>() );
  const uint64_t before = ack.frame_no() == 0 ? 0 : ack.frame_no() - 1 < n ? cum[ ack.frame_no() - 1 ] : 0;
  try {
    const uint64_t seq = ack_seq_no( ack, cum );
    sym_log( "sequence", seq );                            /* the value is used */
    if ( ack.frame_no() == 0 or ack.frame_no() - 1 < n ) { sym_assert( seq == before + ack.fragment_no(), "sequence number of an acknowledged fragment" ); }
    sym_reach( "acked" );
  } catch ( const std::exception & ) { sym_assert( ack.frame_no() > n, "only acknowledgements of frames never sent are refused" ); sym_reach( "refused" ); }
}
