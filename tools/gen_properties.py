#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"observe_at": observe} if observe else {}))))
D="src/decoder/"; E="src/encoder/"; U="src/util/"; N="src/net/"; S="src/salsify/"; I="src/input/"
TST="The stable tests are one encode/decode loopback and six state-serialisation cases over a couple of streams; "

p("C01","Boolean entropy coder round trip",
 "Whatever sequence of boolean values, each with its own 8-bit probability, is written through the boolean entropy encoder, the decoder reading the finished bytes with the same probabilities returns exactly that sequence. This includes carries that ripple back through any number of bytes already emitted.",
 ["inputs","histories"],"every sequence of (bit, probability) pairs, including probability 0 and 255, up to the stated length, and every reachable encoder state for the single-step form",
 TST+"they never force a carry through a run of 0xff bytes or extreme probabilities.",
 [E+"bool_encoder.hh",D+"bool_decoder.hh"],[("BoolEncoder::put/flush/finish, carry propagation",E+"bool_encoder.hh"),("BoolDecoder::get and renormalisation",D+"bool_decoder.hh")])
p("C02","Boolean decoder follows the VP8 standard on every byte string",
 "For every byte string and every sequence of probabilities, the boolean decoder returns the bits the VP8 standard defines for that string, reading bytes beyond its end as zero, and never reads memory outside the string.",
 ["inputs"],"every buffer up to the stated length (including empty and truncated), every probability sequence",
 TST+"they only decode streams this encoder produced and never run a partition dry.",
 [D+"bool_decoder.hh",U+"chunk.hh"],[("BoolDecoder::get, load_octet",D+"bool_decoder.hh")])
p("C03","Syntax-tree codes round trip and follow the standard trees",
 "Every symbol of every coding tree (luma, chroma and sub-block intra modes, motion-vector modes, split layouts, sub-block vector modes, segment numbers, short vectors), written with any node probabilities, is read back as the same symbol, and the bit path used is the one the VP8 standard assigns to it.",
 ["inputs"],"all trees, all symbols, all node probabilities",
 TST+"rare symbols (split layouts, golden references, segments) never occur in them.",
 [D+"tree.cc",D+"modemv_data.cc",E+"encode_tree.cc",D+"modemv_data.hh"],[("Tree<> parse",D+"tree.cc"),("tree encode",E+"encode_tree.cc"),("tree tables",D+"modemv_data.cc")])
p("C04","Coefficient tokens round trip, and the context they leave is exact",
 "For any block of quantised coefficients within the codable range, any block type, any neighbour context and any token probabilities, writing the block and reading it back yields the same coefficients, consuming exactly the bits written, and marks the block as having nonzero coefficients exactly when tokens were coded. A coefficient too large to code is refused instead of being written as another value.",
 ["inputs"],"all coefficient values per position, all token categories, all block types and contexts, within the stated number of simultaneously symbolic positions",
 TST+"large-category tokens at particular positions and odd contexts are not sampled.",
 [D+"tokens.cc",D+"tokens.hh",E+"serializer.cc",D+"block.hh"],[("Block::parse_tokens",D+"tokens.cc"),("Block::serialize_tokens",E+"serializer.cc")])
p("C05","Motion-vector differences round trip for the whole codable range",
 "Every motion-vector component difference in the codable range, written with any vector probabilities, is read back as the same value using exactly the bits written.",
 ["inputs"],"all even component values of magnitude up to 2046, all vector probabilities",
 TST+"long vectors and the implicit bit-3 rule are hit only by accident.",
 [D+"macroblock.cc",E+"serializer.cc"],[("MotionVector::read_component",D+"macroblock.cc"),("encode(int16_t, probabilities)",E+"serializer.cc")])
p("C06","Frame headers round trip field by field",
 "For every key-frame and inter-frame header, writing the header and parsing it back yields a header equal in every field, present or absent, with the same bits consumed as written.",
 ["inputs","configurations"],"all values of every header field; optional groups present or absent in every combination up to the stated bounds",
 TST+"the encoder under test only ever writes a handful of header configurations.",
 [D+"frame_header.hh",D+"vp8_header_structures.hh",E+"serializer.cc"],[("header parsing constructors",D+"frame_header.hh"),("encode(header)",E+"serializer.cc")])
p("C07","Macroblock modes, references and vectors round trip",
 "For every macroblock description (segment, skip flag, reference frame, intra or inter mode, sub-block modes, split layout and vectors) next to any neighbours, writing it and parsing it back yields the same description, using exactly the bits written.",
 ["inputs"],"all modes, references, split layouts and vectors of a macroblock with symbolic neighbours, within the stated frame size",
 TST+"split vectors, golden/alternate references and segment maps are never produced by the encoder the tests drive.",
 [D+"macroblock.cc",E+"serializer.cc",D+"macroblock.hh"],[("Macroblock constructor, decode_prediction_modes",D+"macroblock.cc"),("Macroblock::serialize, encode_prediction_modes",E+"serializer.cc")])
p("C08","Frame container: tag, sizes and partitions are recovered exactly",
 "A frame assembled from a first partition and one to eight coefficient partitions, with any flags and dimensions, is taken apart again into the same flags, dimensions and partition bytes. Frames whose start code, dimensions or partition sizes are inconsistent are refused or reported as truncated, and no byte outside the given frame is ever read.",
 ["inputs"],"all flag values, partition counts 1/2/4/8 and small partition sizes; arbitrary frame bytes up to the stated length for the reader",
 TST+"they only feed well-formed frames with one partition.",
 [D+"uncompressed_chunk.cc",E+"serializer.cc",U+"chunk.hh",D+"uncompressed_chunk.hh"],[("UncompressedChunk constructor, dct_partitions",D+"uncompressed_chunk.cc"),("make_frame",E+"serializer.cc"),("Chunk slicing",U+"chunk.hh")])
p("C09","Arbitrary compressed input never corrupts the decoder's memory",
 "Parsing any byte string as a key frame or inter frame of a decoder's dimensions either succeeds or is refused with an exception; it never reads or writes outside its own objects, and never indexes a table out of range.",
 ["inputs"],"all byte strings up to the stated length as the first partition and coefficient partitions of a one-macroblock frame",
 TST+"no corrupted or truncated stream is ever decoded.",
 [D+"frame.cc",D+"macroblock.cc",D+"tokens.cc",D+"decoder_state.hh",D+"uncompressed_chunk.cc"],[("parse_and_apply",D+"decoder_state.hh"),("Frame::parse_macroblock_headers/parse_tokens",D+"frame.cc")])
p("C10","Quantiser steps follow the standard for every index and delta",
 "For every base index, every delta and every segment adjustment (absolute or relative), the six quantiser steps used for luma, second-order luma and chroma are those of the VP8 standard: every index is clamped to 0..127, with the second-order DC doubled, second-order AC scaled by 155/100 but at least 8, and chroma DC at most 132.",
 ["inputs","configurations"],"all 128 indices, all 4-bit signed deltas, all segment adjustments",
 TST+"they use few quantisers, no deltas and no segments.",
 [D+"quantization.cc",D+"frame.cc",D+"quantization.hh"],[("Quantizer constructor, clamp_q",D+"quantization.cc"),("Frame::calculate_segment_quantizers",D+"frame.cc")])
p("C11","Dequantisation and inverse transforms equal the standard's arithmetic",
 "For all coefficients and quantiser steps in the codable range, dequantisation multiplies each coefficient by its step, and the inverse DCT (added to any prediction and clamped to 0..255) and the inverse Walsh-Hadamard transform give bit for bit the results the VP8 standard prescribes, including the DC-only shortcuts.",
 ["inputs"],"all 16 coefficients and all prediction pixels symbolic",
 TST+"saturation and rounding corners of the vector code are not reached.",
 [D+"transform.cc",D+"idctllm_mmx.asm",D+"iwalsh_sse2.asm",D+"quantization.cc"],[("DCTCoefficients::idct_add, iwht",D+"transform.cc"),("vector inverse DCT",D+"idctllm_mmx.asm"),("vector inverse WHT",D+"iwalsh_sse2.asm")])
p("C12","Forward transforms and residue subtraction equal their reference arithmetic",
 "For every source block and every prediction, the residue is their exact difference, and the forward DCT and forward Walsh-Hadamard transform give bit for bit the reference encoder's integer arithmetic.",
 ["inputs"],"all pixels of source and prediction; all residues in range",
 TST+"they sample a few natural blocks only.",
 [D+"dct.cc",D+"dct_sse2.asm",D+"fwalsh_sse2.asm",D+"subtract_sse2.asm"],[("DCTCoefficients::subtract_dct, wht",D+"dct.cc"),("vector forward DCT",D+"dct_sse2.asm")])
p("C13","Intra prediction equals the standard for every mode and position",
 "For every intra mode of 16x16, 8x8 and 4x4 blocks, at every kind of position in the frame (interior, first row, first column, corner, right-hand edge), and for all neighbouring pixels, the predicted pixels are those the VP8 standard prescribes, including the 127/129 borders and the above-right rule for sub-blocks.",
 ["inputs","configurations"],"all modes, all block positions in a small frame, all pixel values",
 TST+"they cannot cover every mode at every border with extreme pixel values.",
 [D+"prediction.cc",D+"intrapred_sse2.asm",D+"intrapred_ssse3.asm",D+"vp8_raster.hh"],[("intra_predict",D+"prediction.cc"),("vector predictors",D+"intrapred_sse2.asm")])
p("C14","Inter prediction equals the standard for every vector, on or off the frame",
 "For every motion vector and every reference picture, motion-compensated prediction of a block gives bit for bit the VP8 six-tap result over the reference extended without bound by its edge pixels; no memory outside the reference or the block is accessed, however far the vector points.",
 ["inputs"],"all sub-pixel phases, vectors inside, straddling and far outside the frame, all pixel values",
 TST+"vectors far off the frame and all 64 phases are not sampled.",
 [D+"prediction.cc",D+"subpixel_ssse3.asm",D+"safe_raster.cc"],[("Block::inter_predict, safe_inter_predict, unsafe_inter_predict",D+"prediction.cc"),("vector six-tap filters",D+"subpixel_ssse3.asm"),("SafeRaster",D+"safe_raster.cc")])
p("C15","Loop filters equal the standard's pixel arithmetic",
 "For all pixels around an edge and all limits and thresholds, the simple filter and the normal macroblock-edge and inner-edge filters, horizontal and vertical, luma and chroma, change exactly the pixels the VP8 standard says, to exactly the values it says, and nothing else.",
 ["inputs"],"all pixel values around an edge, all reachable limit and threshold values",
 TST+"they sample few pixel combinations around thresholds.",
 [D+"loopfilter.cc",D+"loopfilter_filters.hh",D+"loopfilter_sse2.asm",D+"loopfilter_block_sse2_x86_64.asm"],[("SimpleLoopFilter/NormalLoopFilter::filter",D+"loopfilter.cc"),("vector loop filters",D+"loopfilter_sse2.asm")])
p("C16","Loop-filter strength of each macroblock follows the standard",
 "For every frame filter level, sharpness, segment adjustment, reference/mode delta and macroblock type, the filter level, interior limit, edge limits and high-variance threshold used on a macroblock are those of the VP8 standard, with the level clamped to 0..63 after the segment adjustment and again after the deltas, and inner edges are skipped exactly for macroblocks without coefficients whose mode has no sub-blocks.",
 ["inputs","configurations"],"all levels, sharpness values, segment adjustments, deltas and macroblock kinds",
 TST+"segments and non-zero deltas never occur in them.",
 [D+"loopfilter.cc",D+"frame.cc",D+"macroblock.cc",D+"loopfilter.hh"],[("FilterParameters::adjust, SimpleLoopFilter/NormalLoopFilter constructors",D+"loopfilter.cc"),("Frame::loopfilter",D+"frame.cc"),("Macroblock::loopfilter",D+"macroblock.cc")])
p("C17","Motion-vector prediction follows the standard",
 "For every combination of neighbouring macroblocks' references and vectors and every sign-bias setting, the best, nearest and near vectors, the mode-probability contexts and the clamping of vectors to the frame surroundings are those of the VP8 standard.",
 ["inputs"],"all neighbour vectors, references, sign biases and macroblock positions",
 TST+"ties, sign inversion and frame-edge clamping are rarely hit by the sample streams.",
 [D+"scorer.hh",D+"macroblock.cc"],[("Scorer::add, calculate, clamp",D+"scorer.hh"),("decode_prediction_modes",D+"macroblock.cc")])
p("C18","Reference pictures are replaced exactly as the frame directs",
 "After any frame, each of the three reference pictures is the newly decoded picture or one of the earlier references exactly as the frame's refresh and copy flags direct, with buffer copies taking the references as they were before this frame, and a key frame replacing all three.",
 ["inputs","histories"],"all refresh/copy flag combinations, any prior references",
 TST+"golden and alternate copy flags are never exercised.",
 [D+"frame.cc",D+"decoder.cc"],[("Frame::copy_to, reference_buffer updates",D+"frame.cc")])
p("C19","Decoder state evolves across frames as headers direct",
 "Probabilities announced by a frame persist to later frames exactly when the frame says so and are otherwise used for that frame alone; filter deltas and segment adjustments persist until changed or disabled; a key frame resets all of them to defaults. Token, mode and vector probability updates replace exactly the entries they name.",
 ["inputs","histories"],"any prior state, any header",
 TST+"one-frame-only probabilities and segment/delta persistence are not exercised.",
 [D+"decoder_state.hh",D+"probability_tables.cc",D+"decoder.cc"],[("DecoderState::parse_and_apply",D+"decoder_state.hh"),("ProbabilityTables::update, coeff_prob_update",D+"probability_tables.cc")])
p("C20","Saved decoder state restores to an equal state",
 "Serialising any decoder state (probabilities, segmentation with its map, filter deltas, dimensions and reference picture) and reading it back gives an equal state with the same bytes consumed as written; truncated or mislabelled state files are refused.",
 ["inputs"],"all values of every state component, segmentation and filter deltas present or absent, small dimensions, every truncation point",
 TST+"they serialise states of two streams and never a truncated file.",
 [D+"decoder.cc",D+"enc_state_serializer.hh",D+"decoder.hh"],[("serialize/deserialize members",D+"decoder.cc"),("EncoderStateSerializer/Deserializer",D+"enc_state_serializer.hh")])
p("C21","State identity: equal states hash equally and every component counts",
 "Two decoder states compare equal exactly when all their components are equal, equal states have equal hashes, and the hash takes every component as input: each probability, each segment adjustment and map entry, each filter delta, and the dimensions of the picture.",
 ["inputs"],"all pairs of states differing in any component",
 TST+"they compare a state with its own copy, never with a state differing in one component.",
 [D+"decoder.cc",D+"decoder.hh",D+"raster_handle.cc",U+"raster.cc"],[("operator== and hash members",D+"decoder.cc")])
p("C22","Encoder tracks exactly the state its receiver reaches",
 "After emitting any frame, the probability tables and filter deltas the encoder carries forward are exactly those a decoder in the same prior state holds after decoding that frame.",
 ["inputs","histories"],"any prior state and any frame header the encoder can emit",
 TST+"the loopback test only follows one configuration over one clip.",
 [E+"encode_inter.cc",E+"encode_intra.cc",E+"encoder.cc",D+"decoder_state.hh"],[("Encoder::update_decoder_state",E+"encode_inter.cc"),("DecoderState::parse_and_apply",D+"decoder_state.hh")])
p("C23","Video packets survive the wire",
 "Every video fragment packet, serialised and parsed, yields the same connection, source state, target state, frame, fragment index, fragment count, timing and payload; a datagram that is too short, has an impossible fragment index or carries no payload is refused, without reading outside it.",
 ["inputs"],"all field values, payloads up to the stated length, all datagrams up to the stated length",
 "No test touches the network code.",
 [N+"packet.cc",N+"packet.hh"],[("Packet(Chunk), to_string",N+"packet.cc")])
p("C24","Fragmented frames reassemble from any arrival order",
 "A frame cut into packets is reassembled into exactly the original bytes whatever the order and duplication in which its packets arrive; it is complete exactly when every fragment has arrived, and packets that do not belong to it are refused.",
 ["inputs","schedules","fault_sequences"],"all arrival orders and duplications of up to the stated number of packets, all payload bytes at fragment boundaries",
 "No test touches the network code.",
 [N+"packet.cc",N+"packet.hh"],[("FragmentedFrame constructors, add_packet, complete, frame",N+"packet.cc")])
p("C25","Acknowledgements survive the wire and hostile ones are harmless",
 "Every acknowledgement, serialised and parsed, yields the same connection, frame, fragment, delay, current state and list of complete states; any datagram is either parsed or refused without reading outside it, and an acknowledgement naming a frame that was never sent cannot make the sender read outside its records.",
 ["inputs"],"all field values, up to the stated number of states; all datagrams up to the stated length; all frame/fragment numbers",
 "No test touches the network code.",
 [N+"packet.cc",S+"salsify-sender.cc"],[("AckPacket",N+"packet.cc"),("ack_seq_no",S+"salsify-sender.cc")])
p("C26","Pacer releases packets in order and never early",
 "Packets leave the pacer in the order they were queued; a packet is never due before the previous one's release time plus its own gap, is due immediately if the queue had run dry, and the reported wait is never longer than a millisecond beyond the true release time.",
 ["inputs","schedules"],"all queueing times, gaps and polling times up to the stated number of packets",
 "No test touches the network code.",
 [N+"pacer.hh"],[("Pacer::push, ms_until_due, pop",N+"pacer.hh")])
p("C27","Sender never budgets more than the network is estimated to carry",
 "For every reported delay and every count of packets in flight, the sender's frame budget is the number of packets deliverable within the delay limit minus those in flight, times the packet size, and zero once more packets are in flight than fit.",
 ["inputs"],"all delays, in-flight counts and limits",
 "No test touches the sender.",
 [S+"salsify-sender.cc"],[("target_size",S+"salsify-sender.cc")])
p("C28","IVF files written are read back exactly, frame count included",
 "A video file written frame by frame and reopened yields the same format, dimensions, rate, frame count and frame bytes in the same order, and after every appended frame the count in the file is right.",
 ["inputs","histories"],"all header values; up to the stated number of frames and bytes per frame",
 TST+"they never compare a written container field by field.",
 [U+"ivf_writer.cc",U+"ivf.cc",U+"ivf.hh"],[("IVFWriter::append_frame",U+"ivf_writer.cc"),("IVF constructor, frame()",U+"ivf.cc")])
p("C29","Malformed IVF files are refused without touching memory outside the file",
 "Opening any byte string as an IVF file and asking for any frame either yields bytes that lie inside the file at the position its length fields give, or is refused with an exception.",
 ["inputs"],"all files up to the stated length",
 TST+"no malformed container is ever opened.",
 [U+"ivf.cc",U+"chunk.hh"],[("IVF constructor, frame()",U+"ivf.cc"),("Chunk bounds",U+"chunk.hh")])
p("C30","File and socket I/O is complete under short transfers and faults",
 "However the operating system splits writes and reads, a whole-buffer write delivers every byte once and in order, an exact read returns exactly the requested bytes or reports end of file, and any failing call is reported as an error instead of being taken as progress.",
 ["fault_sequences","schedules"],"every sequence of short transfers and errors for buffers up to the stated length",
 TST+"the kernel never splits their transfers or fails them.",
 [U+"file_descriptor.hh"],[("FileDescriptor::write, read, read_exactly, getline",U+"file_descriptor.hh")])
p("C31","Pictures leave the system with exactly their display rectangle",
 "For every display size, the planar output of a picture is exactly its luma rows then its chroma rows of the display rectangle (chroma rounded up), with no padding pixel included and none missing; pixels beyond the display rectangle of an input picture are copies of its nearest edge pixel.",
 ["inputs","configurations"],"all display sizes up to the stated bound, all pixel values",
 TST+"they use a single, macroblock-aligned size.",
 [U+"raster.cc",U+"raster.hh",I+"yuv4mpeg.cc"],[("BaseRaster::display_rectangle_as_planar, dump",U+"raster.cc"),("edge_extend",I+"yuv4mpeg.cc")])
p("C32","Block distortion measures equal their definitions",
 "For all pixels, the sum of absolute differences, sum of squared errors and variance the encoder uses to compare a block with a prediction equal their mathematical definitions for every supported block size.",
 ["inputs"],"all pixel values of both blocks",
 TST+"the measures are only used, never compared with a definition.",
 [E+"variance.cc",E+"variance_sse2.cc",D+"sad_sse2.asm"],[("Encoder::sad/sse/variance",E+"variance.cc"),("vector variance",E+"variance_sse2.cc"),("vector SAD",D+"sad_sse2.asm")])
p("C33","Encoder quantisation stays within one step and inside the codable range",
 "For every transform coefficient and every quantiser index, quantising and dequantising changes the coefficient by less than one quantiser step and never flips its sign, and every quantised value is one the token coder can represent.",
 ["inputs"],"all residue-derived coefficient values, all 128 indices, all block kinds",
 TST+"they look at overall picture quality only.",
 [D+"quantization.cc",D+"dct.cc"],[("Block::quantize / dequantize",D+"quantization.cc")])
p("C34","Pooled pictures are never shared and never keep a stale identity",
 "A picture buffer handed out by the pool is not in use by anyone else, has the requested size, and never carries a hash computed for earlier contents; a returned buffer becomes available again.",
 ["histories"],"every sequence of acquire, freeze, hash, copy and release operations up to the stated length",
 TST+"pool reuse after hashing is not checked.",
 [D+"raster_handle.cc",D+"raster_handle.hh"],[("RasterPool, RasterDeleter, HashCachedRaster",D+"raster_handle.cc")])
p("C35","Probability optimisation always yields usable probabilities",
 "For every pair of branch counts, the probability the encoder derives lies in 1..255 when the zero branch was seen and is zero otherwise, and it is the count ratio scaled to 256 and truncated.",
 ["inputs"],"all pairs of counts up to the stated bound",
 TST+"they never reach extreme counts.",
 [E+"encoder.cc"],[("Encoder::calc_prob",E+"encoder.cc")])
p("C36","A whole clip encoded and decoded ends in the same pictures",
 "For every input clip and every encoder setting, decoding the emitted frames reproduces exactly the reference pictures the encoder holds.",
 ["inputs","configurations","histories"],"all clips and settings",
 "The loopback test follows one clip.",
 [E+"encoder.cc",D+"decoder.cc"],[("Encoder::encode_with_quantizer etc.",E+"encoder.cc")])
p("C37","Sender and receiver of a live session stay on shared states",
 "Under every pattern of packet loss, reordering and delay, the sender only encodes against a state the receiver can still hold, and after a loss it falls back to an acknowledged one.",
 ["schedules","fault_sequences","histories"],"all loss and delay patterns of a session",
 "No test runs a session.",
 [S+"salsify-sender.cc",S+"salsify-receiver.cc"],[("main() event handlers",S+"salsify-sender.cc")])
p("C38","Decoding results do not depend on thread scheduling",
 "Concurrent encoders sharing picture pools and cached hashes produce the same results under every thread schedule.",
 ["schedules"],"all interleavings",
 "The tests are single threaded.",
 [D+"raster_handle.cc",D+"frame_pool.cc"],[("RasterPool/FramePool mutexes",D+"raster_handle.cc")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
