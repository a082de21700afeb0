From 1af5e8c156ecebdeecfe98fd4176ec4095153367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:40 +0000
Subject: [PATCH 01/16] fix: do not let an acknowledgement's state count drive
 the allocation

---
 src/net/packet.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index 3d0b322..d948752 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -302,10 +302,13 @@ AckPacket::AckPacket( const Chunk & str )
     fragment_no_( str( 6, 2 ).le16() ),
     avg_delay_( str( 8, 4 ).le32() ),
     current_state_( str( 12, 4 ).le32() ),
-    complete_states_( str( 16, 4 ).le32() )
+    complete_states_()
 {
-  for ( size_t i = 0; i < complete_states_.size(); i++ ) {
-    complete_states_[ i ] = str( 20 + i * 4, 4 ).le32();
+  /* the count comes from the network: store only states that are really there */
+  const size_t complete_states_count = str( 16, 4 ).le32();
+
+  for ( size_t i = 0; i < complete_states_count; i++ ) {
+    complete_states_.push_back( str( 20 + i * 4, 4 ).le32() );
   }
 }
 
-- 
2.43.0


From fb8d127a114888ae6078566fdee06241f569a004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:40 +0000
Subject: [PATCH 02/16] fix: refuse acknowledgements of frames that were never
 sent

---
 src/salsify/salsify-sender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index f3dd111..20b2c9b 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -182,7 +182,7 @@ uint64_t ack_seq_no( const AckPacket & ack,
                      const vector<uint64_t> & cumulative_fpf )
 {
   return ( ack.frame_no() > 0 )
-       ? ( cumulative_fpf[ ack.frame_no() - 1 ] + ack.fragment_no() )
+       ? ( cumulative_fpf.at( ack.frame_no() - 1 ) + ack.fragment_no() )
        : ack.fragment_no();
 }
 
-- 
2.43.0


From 69668ee5bd19ad17350cfb2f159fcb6ddb5991d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:14 +0000
Subject: [PATCH 03/16] fix: clamp a segment's quantizer index to 0..127 before
 the deltas apply

---
 src/decoder/frame.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 3ac43e9..83bde05 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -193,10 +193,13 @@ SafeArray<Quantizer, num_segments> Frame<FrameHeaderType, MacroblockType>::calcu
   if ( segmentation.initialized() ) {
     for ( uint8_t i = 0; i < num_segments; i++ ) {
       QuantIndices segment_indices( header_.quant_indices );
-      segment_indices.y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
+      const int segment_qi = segmentation.get().segment_quantizer_adjustments.at( i )
         + ( segmentation.get().absolute_segment_adjustments
-            ? static_cast<Unsigned<7>>( 0 )
-            : segment_indices.y_ac_qi );
+            ? 0
+            : static_cast<int>( segment_indices.y_ac_qi ) );
+
+      /* the index can leave 0..127; clamp it before it is stored unsigned */
+      segment_indices.y_ac_qi = min( max( segment_qi, 0 ), 127 );
 
       segment_quantizers.at( i ) = Quantizer( segment_indices );
     }
-- 
2.43.0


From 91fa82c32506e8b94d3d85752ec7a7d5e66f8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:14 +0000
Subject: [PATCH 04/16] fix: clamp a segment's loop-filter level to 0..63
 before the deltas apply

---
 src/decoder/frame.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 83bde05..0f0853d 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -156,11 +156,14 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
         FilterParameters segment_filter( header_.filter_type,
                                          header_.loop_filter_level,
                                          header_.sharpness_level );
-        segment_filter.filter_level = segmentation.get().segment_filter_adjustments.at( i )
+        const int segment_level = segmentation.get().segment_filter_adjustments.at( i )
           + ( segmentation.get().absolute_segment_adjustments
               ? 0
               : segment_filter.filter_level );
 
+        /* the reference and mode deltas apply to the clamped level */
+        segment_filter.filter_level = min( max( segment_level, 0 ), 63 );
+
         segment_loopfilters.at( i ) = segment_filter;
       }
     }
-- 
2.43.0


From d822b1de768e2a14f76727735c7c83c4a2102ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:15 +0000
Subject: [PATCH 05/16] fix: do not read past the end of the reference in 4x4
 motion compensation

The SSSE3 four-wide horizontal filter loads sixteen bytes from two columns
left of the block. Near the bottom right corner of the reference that load
ran up to seven bytes past the end of the plane; use the edge-extending
path there.
---
 src/decoder/prediction.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decoder/prediction.cc b/src/decoder/prediction.cc
index c714b99..9c5aeb6 100644
--- a/src/decoder/prediction.cc
+++ b/src/decoder/prediction.cc
@@ -660,10 +660,17 @@ void VP8Raster::Block<size>::inter_predict( const MotionVector & mv,
   const int source_column = column_ * size + ( mv.x() >> 3 );
   const int source_row = row_ * size + ( mv.y() >> 3 );
 
+  /* the four-wide horizontal filter loads sixteen bytes of each row it reads;
+     on the last row of the reference these must not run past its end */
+  const bool over_read = size == 4
+    and source_row + size + 3 == reference.height()
+    and source_column - 2 + 16 > reference.width();
+
   if ( source_column - 2 < 0
        or source_column + size + 3 > reference.width()
        or source_row - 2 < 0
-       or source_row + size + 3 > reference.height() ) {
+       or source_row + size + 3 > reference.height()
+       or over_read ) {
 
     EdgeExtendedRaster safe_reference( reference );
 
-- 
2.43.0


From c9190d8982adf8d3d6c03beb4be55cd898f31cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 06/16] fix: size the motion search's copy of the reference for
 whole macroblocks

SafeReferences::load makes the copy from the display size, but copy_raster
writes whole-macroblock rows plus both margins: with a width that is not a
multiple of 16 the last row was written past the end of the buffer.
---
 src/decoder/safe_raster.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder/safe_raster.cc b/src/decoder/safe_raster.cc
index 1105c7a..8f34ebf 100644
--- a/src/decoder/safe_raster.cc
+++ b/src/decoder/safe_raster.cc
@@ -31,7 +31,8 @@
 #include "decoder.hh"
 
 SafeRaster::SafeRaster( uint16_t width, uint16_t height )
-  : safe_Y_( width + MARGIN_WIDTH * 2, height + MARGIN_WIDTH * 2 ),
+  : safe_Y_( 16 * VP8Raster::macroblock_dimension( width ) + MARGIN_WIDTH * 2,
+             16 * VP8Raster::macroblock_dimension( height ) + MARGIN_WIDTH * 2 ),
     display_width_( width ), display_height_( height )
 {}
 
-- 
2.43.0


From 3c1a786c1fd50c99f910fb52c0f96e6eec730cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:00 +0000
Subject: [PATCH 07/16] fix: advance the IVF index by 64-bit arithmetic

A frame length of 2^32-12 or more wrapped the 32-bit sum of header and frame length, so a malformed
file was indexed at the wrong positions (and the same header over and over) instead of being refused.
---
 src/util/ivf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ivf.cc b/src/util/ivf.cc
index 171769e..acaea21 100644
--- a/src/util/ivf.cc
+++ b/src/util/ivf.cc
@@ -67,7 +67,7 @@ try :
           const uint32_t frame_len = frame_header.le32();
 
           frame_index_.emplace_back( position + frame_header_len, frame_len );
-          position += frame_header_len + frame_len;
+          position += uint64_t( frame_header_len ) + frame_len;
         }
       }
 catch ( const out_of_range & e )
-- 
2.43.0


From 91a382061f465182528fc4ad71b37d2b512e2e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 08/16] fix: round chroma up when reading YUV4MPEG pictures of
 odd size

The reader took width/2 by height/2 chroma samples while the pictures, the writer and the format use the
rounded-up half, so the last chroma row and column were left over from another picture and every later
frame was read from the wrong position.
---
 src/input/yuv4mpeg.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 3b69bc9..f58b2e0 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -55,7 +55,7 @@ size_t YUV4MPEGHeader::frame_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height * 3 ) / 2;
+      return y_plane_length() + 2 * uv_plane_length();
     default: throw LogicError();
   }
 }
@@ -77,7 +77,7 @@ size_t YUV4MPEGHeader::uv_plane_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height / 4 );
+      return ( ( 1 + width ) / 2 ) * ( ( 1 + height ) / 2 );
     default: throw LogicError();
   }
 }
@@ -290,13 +290,13 @@ Optional<RasterHandle> YUV4MPEGReader::get_next_frame()
     memcpy( &raster.get().Y().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().U().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().V().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-- 
2.43.0


From c365e7f2620670570009576f1022f357d4b89ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 09/16] fix: include the mode adjustments in the hash of
 FilterAdjustments

The range ran from the mode adjustments' begin to the reference
adjustments' end, which is empty, so two decoder states differing only in
their mode deltas had the same hash.
---
 src/decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 6f78782..b273c82 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -334,7 +334,7 @@ size_t FilterAdjustments::hash( void ) const
 
   boost::hash_range( hash_val, loopfilter_ref_adjustments.begin(), loopfilter_ref_adjustments.end() );
 
-  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_ref_adjustments.end() );
+  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_mode_adjustments.end() );
 
   return hash_val;
 }
-- 
2.43.0


From 7d73660477384d953ab0401565aff86134e661e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 10/16] fix: refuse malformed decoder state files in release
 builds too

The labels and lengths of a saved state were only checked by assertions,
which the default build compiles out, so a file with the wrong part in the
wrong place was restored as a state of its own.
---
 src/decoder/decoder.cc              | 37 +++++++++++------------------
 src/decoder/enc_state_serializer.hh | 36 ++++++++++++++--------------
 src/decoder/probability_tables.cc   |  7 ++----
 3 files changed, 34 insertions(+), 46 deletions(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index b273c82..6e31f91 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -48,7 +48,7 @@ Decoder::Decoder( DecoderState state, References refs )
 Decoder::Decoder(EncoderStateDeserializer &idata)
   : state_(move(DecoderState::deserialize(idata)))
   , references_(move(References::deserialize(idata))) {
-  assert(idata.remaining() == 0);
+  EncoderStateDeserializer::require(idata.remaining() == 0);
 }
 
 size_t Decoder::serialize(EncoderStateSerializer &odata) const {
@@ -70,12 +70,10 @@ size_t Decoder::serialize(EncoderStateSerializer &odata) const {
 
 Decoder Decoder::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER);
-  (void) data_type;   // not used except in assert
+  EncoderStateDeserializer::require(data_type == EncoderSerDesTag::DECODER);
 
   uint32_t len = idata.get<uint32_t>();
-  assert(len == idata.remaining());
-  (void) len;         // not used except in assert
+  EncoderStateDeserializer::require(len == idata.remaining());
 
   return Decoder(idata);
 }
@@ -198,12 +196,10 @@ size_t References::serialize(EncoderStateSerializer &odata) const {
 
 References References::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::REFERENCES);
-  (void) data_type;   // unused
+  EncoderStateDeserializer::require(data_type == EncoderSerDesTag::REFERENCES);
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  EncoderStateDeserializer::require(get_len <= idata.remaining());
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
@@ -244,11 +240,13 @@ DecoderState::DecoderState(EncoderStateDeserializer &idata, const unsigned s_wid
   , height(s_height)
   , probability_tables(move(ProbabilityTables::deserialize(idata))) {
   EncoderSerDesTag seg_opt = idata.get_tag();
+  EncoderStateDeserializer::require(seg_opt == EncoderSerDesTag::OPT_FULL || seg_opt == EncoderSerDesTag::OPT_EMPTY);
   if (seg_opt == EncoderSerDesTag::OPT_FULL) {
     segmentation = move(Segmentation::deserialize(idata));
   }
 
   EncoderSerDesTag filt_opt = idata.get_tag();
+  EncoderStateDeserializer::require(filt_opt == EncoderSerDesTag::OPT_FULL || filt_opt == EncoderSerDesTag::OPT_EMPTY);
   if (filt_opt == EncoderSerDesTag::OPT_FULL) {
     filter_adjustments = move(FilterAdjustments::deserialize(idata));
   }
@@ -315,12 +313,10 @@ size_t DecoderState::serialize(EncoderStateSerializer &odata) const {
 
 DecoderState DecoderState::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER_STATE);
-  (void) data_type;   // unused
+  EncoderStateDeserializer::require(data_type == EncoderSerDesTag::DECODER_STATE);
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  EncoderStateDeserializer::require(get_len <= idata.remaining());
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
@@ -358,14 +354,11 @@ size_t FilterAdjustments::serialize(EncoderStateSerializer &odata) const {
 
 FilterAdjustments::FilterAdjustments(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::FILT_ADJ);
-  (void) data_type;   // not used except in assert
+  EncoderStateDeserializer::require(data_type == EncoderSerDesTag::FILT_ADJ);
 
   uint32_t expect_len = num_reference_frames + 4;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // not used except in assert
-  (void) get_len;     // "
+  EncoderStateDeserializer::require(expect_len == get_len);
 
   for (unsigned i = 0; i < num_reference_frames; i++) {
     loopfilter_ref_adjustments.at(i) = idata.get<int8_t>();
@@ -423,16 +416,14 @@ size_t Segmentation::serialize(EncoderStateSerializer &odata) const {
 
 Segmentation Segmentation::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
+  EncoderStateDeserializer::require(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
   bool abs = data_type == EncoderSerDesTag::SEGM_ABS;
 
   uint32_t get_len = idata.get<uint32_t>();
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
-  uint32_t expect_len = 4 + num_segments + num_segments + width * height;
-  assert(expect_len == get_len);
-  (void) expect_len;    // unused except in assert
-  (void) get_len;       // unused except in assert
+  uint32_t expect_len = 4 + num_segments + num_segments + static_cast<uint32_t>(width) * height;
+  EncoderStateDeserializer::require(expect_len == get_len);
 
   return Segmentation(idata, abs, width, height);
 }
diff --git a/src/decoder/enc_state_serializer.hh b/src/decoder/enc_state_serializer.hh
index b1c362c..33fed34 100644
--- a/src/decoder/enc_state_serializer.hh
+++ b/src/decoder/enc_state_serializer.hh
@@ -37,6 +37,7 @@
 #include <utility>
 #include <vector>
 
+#include "exception.hh"
 #include "file.hh"
 #include "file_descriptor.hh"
 
@@ -153,6 +154,13 @@ class EncoderStateDeserializer : File {
       return static_cast<EncoderSerDesTag>((*this)(ptr_++, 1).octet());
     }
 
+    /* refuse a state whose labels or lengths are not those that were written */
+    static void require(const bool valid) {
+      if (not valid) {
+        throw Invalid("malformed decoder state");
+      }
+    }
+
     template<typename T> T get(void) {
       T ret = (T) 0;
       for (unsigned i = sizeof(ret); i > 0; i--) {
@@ -166,24 +174,16 @@ class EncoderStateDeserializer : File {
     MutableRasterHandle get_ref(EncoderSerDesTag t, const uint16_t width, const uint16_t height) {
       MutableRasterHandle raster(width, height);
 
-      if (this->peek_tag() == t) {
-        EncoderSerDesTag data_type = this->get_tag();
-        assert(data_type == t);
-        (void) t;           // not used except in assert
-        (void) data_type;   // not used except in assert
-        unsigned rwidth = raster.get().width();
-        unsigned rheight = raster.get().height();
-
-        uint32_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
-        uint32_t get_len = this->get<uint32_t>();
-        assert(get_len == expect_len);
-        (void) get_len;     // only used in assert
-        (void) expect_len;  // only used in assert
-
-        raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-      }
+      require(this->get_tag() == t);
+      unsigned rwidth = raster.get().width();
+      unsigned rheight = raster.get().height();
+
+      uint32_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
+      require(this->get<uint32_t>() == expect_len);
+
+      raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
 
       return raster;
     }
diff --git a/src/decoder/probability_tables.cc b/src/decoder/probability_tables.cc
index d0093cd..3f39802 100644
--- a/src/decoder/probability_tables.cc
+++ b/src/decoder/probability_tables.cc
@@ -159,15 +159,12 @@ uint32_t ProbabilityTables::serialize(EncoderStateSerializer &odata) const {
 
 ProbabilityTables::ProbabilityTables(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::PROB_TABLE);
-  (void) data_type;   // unused except in assert
+  EncoderStateDeserializer::require(data_type == EncoderSerDesTag::PROB_TABLE);
 
   uint32_t expect_len = BLOCK_TYPES * COEF_BANDS * PREV_COEF_CONTEXTS * ENTROPY_NODES +
                         y_mode_probs.size() + uv_mode_probs.size() + 2 * MV_PROB_CNT;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // uunusd except in assert
-  (void) get_len;     // "
+  EncoderStateDeserializer::require(expect_len == get_len);
 
   for (unsigned i = 0; i < BLOCK_TYPES; i++) {
     for (unsigned j = 0; j < COEF_BANDS; j++) {
-- 
2.43.0


From 6907b7360973dccde59a43701162272cbb1e6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 11/16] fix: average luma vectors for chroma without wrapping
 at 16 bits

---
 src/decoder/macroblock.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/macroblock.cc b/src/decoder/macroblock.cc
index de92984..268ca5a 100644
--- a/src/decoder/macroblock.cc
+++ b/src/decoder/macroblock.cc
@@ -291,8 +291,8 @@ MotionVector MotionVector::luma_to_chroma( const MotionVector & s1,
                                            const MotionVector & s3,
                                            const MotionVector & s4 )
 {
-  const int16_t x = s1.x() + s2.x() + s3.x() + s4.x();
-  const int16_t y = s1.y() + s2.y() + s3.y() + s4.y();
+  const int x = s1.x() + s2.x() + s3.x() + s4.x();
+  const int y = s1.y() + s2.y() + s3.y() + s4.y();
 
   return MotionVector( x >= 0 ?  (x + 4) >> 3 : -((-x + 4) >> 3),
                        y >= 0 ?  (y + 4) >> 3 : -((-y + 4) >> 3) );
-- 
2.43.0


From f2681fa8fa5acda444637d95c7d22b6f4cc64013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 12/16] fix: refuse chunk slices whose end wraps around

---
 src/util/chunk.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index eb43c18..6a98d53 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -93,7 +93,9 @@ public:
   Chunk operator() ( const uint64_t & offset, const uint64_t & length ) const
   {
     bounds_check( offset );
-    bounds_check( offset + length );
+    if ( length > size_ - offset ) {
+      throw std::out_of_range( "attempted to read past end of chunk" );
+    }
     return Chunk( buffer_ + offset, length );
   }
 
-- 
2.43.0


From 880f1a09b2105419e74e5bc0a9dea5a7e53a93ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 13/16] fix: extract bit fields beyond the 31st bit of a chunk
 correctly

---
 src/util/chunk.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index 6a98d53..f708376 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -63,7 +63,7 @@ private:
     if ( n > 63 ) {
       throw std::out_of_range( "bit mask size is unsupported" );
     }
-    return ( 1 << n ) - 1;
+    return ( uint64_t( 1 ) << n ) - 1;
   }
 
 public:
@@ -135,7 +135,7 @@ public:
 
     uint64_t val = 0;
     for ( uint64_t i = 0; i < byte_len; i++ ) {
-      val |= buffer_[ i ] << ( i * 8 );
+      val |= uint64_t( buffer_[ i ] ) << ( i * 8 );
     }
 
     return ( val >> bit_offset ) & bit_mask( bit_length );
-- 
2.43.0


From e46de5b6e3f211288793f44a0ad585678a96cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:14 +0000
Subject: [PATCH 14/16] fix: refuse partitions too long for a frame's length
 fields

---
 src/encoder/serializer.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/encoder/serializer.cc b/src/encoder/serializer.cc
index 4287568..faea482 100644
--- a/src/encoder/serializer.cc
+++ b/src/encoder/serializer.cc
@@ -757,6 +757,10 @@ static vector< uint8_t > make_frame( const bool key_frame,
 
   vector< uint8_t > ret;
 
+  if ( first_partition.size() >= ( 1 << 19 ) ) {
+    throw Invalid( "first partition too large." );
+  }
+
   const uint32_t first_partition_length = first_partition.size();
 
   /* frame tag */
@@ -785,6 +789,10 @@ static vector< uint8_t > make_frame( const bool key_frame,
 
   /* DCT partition lengths */
   for ( unsigned int i = 0; i < dct_partitions.size() - 1; i++ ) {
+    if ( dct_partitions.at( i ).size() >= ( 1 << 24 ) ) {
+      throw Invalid( "DCT partition too large." );
+    }
+
     const uint32_t length = dct_partitions.at( i ).size();
     ret.emplace_back( length & 0xff );
     ret.emplace_back( (length & 0xff00) >> 8 );
-- 
2.43.0


From fb09bbec413f2ecabf0eaac03cc2413e424bb819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 15/16] fix: the encoder drops segmentation when its frame does
 not keep it

A decoder clears its segmentation on a frame that does not announce any; the
encoder kept that of the decoder it was started from, so that its references
were reconstructed and filtered with other steps and levels than the receiver's.
---
 src/encoder/encode_inter.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index f442ad8..10d13c7 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -28,6 +28,7 @@
 
 #include <limits>
 
+#include "decoder_state.hh"
 #include "encoder.hh"
 #include "scorer.hh"
 
@@ -167,6 +168,17 @@ void Encoder::update_decoder_state( const InterFrame & frame )
   } else {
     decoder_state_.filter_adjustments.clear();
   }
+
+  /* a decoder drops its segmentation unless the frame says to keep it */
+  if ( frame.header().update_segmentation.initialized() ) {
+    if ( decoder_state_.segmentation.initialized() ) {
+      decoder_state_.segmentation.get().update( frame.header() );
+    } else {
+      decoder_state_.segmentation.initialize( frame.header(), width(), height() );
+    }
+  } else {
+    decoder_state_.segmentation.clear();
+  }
 }
 
 Encoder::MVSearchResult Encoder::diamond_search( const VP8Raster::Macroblock & original_mb,
-- 
2.43.0


From c0c15290152e4796f73e30c9bd678d6caf27fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:08 +0000
Subject: [PATCH 16/16] fix: keep a decoder whose state is still listed as
 complete

When the same state was completed twice, dropping the states older than the
one the sender used erased the decoder although its state remained in the
list of complete states sent in acknowledgements; a later frame that named it
was decoded from whatever state the player was in.
---
 src/salsify/salsify-receiver.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/salsify/salsify-receiver.cc b/src/salsify/salsify-receiver.cc
index 20f6386..cbf62ef 100644
--- a/src/salsify/salsify-receiver.cc
+++ b/src/salsify/salsify-receiver.cc
@@ -28,7 +28,9 @@
 
 #include <getopt.h>
 
+#include <algorithm>
 #include <cstdlib>
+#include <iterator>
 #include <random>
 #include <unordered_map>
 #include <utility>
@@ -281,7 +283,10 @@ int main( int argc, char *argv[] )
 
           for ( ; it != complete_states.end(); it++ ) {
             if ( *it != expected_source_state ) {
-              decoders.erase( *it );
+              /* the same state may have been reached again since, and is then still listed */
+              if ( find( next( it ), complete_states.end(), *it ) == complete_states.end() ) {
+                decoders.erase( *it );
+              }
             }
             else {
               break;
-- 
2.43.0

