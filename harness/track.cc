// C22: the encoder's own state and references against those of a decoder that receives what it wrote
#include "state.cc"
#include SYM_REPO_FILE( src/encoder/encoder.cc )

template <class F> static void build( F & f )
{
  auto & mb = f.macroblock_headers_.get().at( 0, 0 );
  mb.Y2_.set_coded( true ); mb.Y_.forall( [] ( YBlock & b ) { b.set_Y_after_Y2(); } );
  mb.Y2_.mutable_coefficients().at( 0 ) = 5; mb.U_.at( 1, 0 ).mutable_coefficients().at( 3 ) = -2; mb.Y_.at( 2, 1 ).mutable_coefficients().at( 1 ) = 1;
  mb.Y2_.calculate_has_nonzero(); auto nz = [] ( auto & b ) { b.calculate_has_nonzero(); }; mb.Y_.forall( nz ); mb.U_.forall( nz ); mb.V_.forall( nz );
  mb.calculate_has_nonzero(); if ( not f.header_.prob_skip_false.initialized() ) mb.mb_skip_coeff_.clear();
}
static bool same_pixels( const VP8Raster & a, const VP8Raster & b )
{
  bool e = a.display_width() == b.display_width() and a.display_height() == b.display_height();
  auto plane = [&] ( const TwoD<uint8_t> & p, const TwoD<uint8_t> & q ) { for ( unsigned y = 0; y < p.height(); y++ ) for ( unsigned x = 0; x < p.width(); x++ ) e = e & ( p.at( x, y ) == q.at( x, y ) ); };
  plane( a.Y(), b.Y() ); plane( a.U(), b.U() ); plane( a.V(), b.V() ); return e;
}
/* a reference picture with some arbitrary pixels */
static RasterHandle arbitrary()
{
  MutableRasterHandle r( 16, 16 ); for ( unsigned i = 0; i < 4; i++ ) r.get().Y().at( 5 * i, 3 + i ) = sym_u8( "pixel" );
  r.get().U().at( 2, 2 ) = sym_u8( "pixel" ); r.get().V().at( 7, 7 ) = sym_u8( "pixel" ); return RasterHandle( std::move( r ) );
}
static void follow( Encoder & e, Decoder & d, const std::vector<uint8_t> & sent )
{
  const auto got = d.get_frame_output( Chunk( sent ) );
  sym_assert( tape_read() == tape_written(), "the receiver reads everything" );
  sym_assert( e.decoder_state_ == d.state_, "the same state" ); // C21: compares every component
  sym_assert( same_pixels( e.references_.last.get(), d.references_.last.get() ), "last reference" ); sym_assert( same_pixels( e.references_.golden.get(), d.references_.golden.get() ), "golden reference" ); sym_assert( same_pixels( e.references_.alternative.get(), d.references_.alternative.get() ), "alternate reference" );
}
static uint8_t coded[ 64 ];
template <class M, class F> static void track( M & m, F & f )
{
  Tables t; Seg s; Lf l; Decoder d( 16, 16 ); d.state_ = past( t, s, l );
  d.references_.last = arbitrary(); d.references_.golden = arbitrary(); d.references_.alternative = arbitrary();
  Encoder e( d, false, BEST_QUALITY );
  f.header_ = m.h; f.header_.update_segmentation.clear(); /* which the encoder never announces */ f.header_.loop_filter_level = sym_param( "level", 0 ); f.header_.quant_indices.y_ac_qi = 30; f.header_.log2_number_of_dct_partitions = sym_param( "log2", 0 ); f.set_show( sym_bits( "show", 1 ) ); build( f );
  tape_reset( TAPE_COPY ); for ( unsigned i = 0; i < 9; i++ ) tape_output( coded, 2 + i );
  for ( unsigned i = 0; i < 2; i++ ) { follow( e, d, e.write_frame( f ) ); sym_reach( i ? "again" : "tracked" ); }
}
extern "C" void key_track( void ) { start(); KeyModel m; m.common_first(); KeyFrame f( 16, 16 ); f.macroblock_headers_.get().at( 0, 0 ).Y2_.set_prediction_mode( TM_PRED ); track( m, f ); }
extern "C" void inter_track( void )
{
  start(); InterModel m; m.common_first(); m.common_second(); InterFrame f( 16, 16 ); auto & mb = f.macroblock_headers_.get().at( 0, 0 );
  const int ref = sym_param( "ref", 1 ); mb.header_.is_inter_mb = ref > 0;
  if ( ref ) { mb.header_.set_reference( (reference_frame) ref ); mb.Y2_.set_prediction_mode( ZEROMV ); mb.Y_.forall( [] ( YBlock & b ) { b.set_motion_vector( MotionVector() ); } ); } else mb.Y2_.set_prediction_mode( H_PRED );
  track( m, f );
}
