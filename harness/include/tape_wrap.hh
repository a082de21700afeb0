// Forced in front of every unit of a tape job: keeps BoolDecoder::get and BoolEncoder::put out of line, so that tape.cc's
// definitions replace them.  The arithmetic coder itself is decided by C01 and C02.
#pragma once
#ifdef __clang__
#pragma clang attribute push( __attribute__(( noinline )), apply_to = function )
#endif
#include "bool_decoder.hh"
#include "bool_encoder.hh"
#ifdef __clang__
#pragma clang attribute pop
#endif
