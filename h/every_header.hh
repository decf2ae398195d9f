// all public headers, in the order of their names or the reverse
#ifndef REVERSED
#include "bitman.hh"
#include "bitstream.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "cauchy_prime_field_erasure_coding.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "crc.hh"
#include "exclusive_reduce.hh"
#include "galois_field.hh"
#include "hadamard_decoder.hh"
#include "hadamard_encoder.hh"
#include "interleave.hh"
#include "ldpc_decoder.hh"
#include "ldpc_encoder.hh"
#include "mls.hh"
#include "osd.hh"
#include "permute.hh"
#include "polar_decoder.hh"
#include "polar_encoder.hh"
#include "polar_freezer.hh"
#include "polar_helper.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
#include "polar_sequence.hh"
#include "prime_field.hh"
#include "reed_solomon_decoder.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_error_correction.hh"
#include "rotate.hh"
#include "short_bch_code_decoder.hh"
#include "short_bch_code_encoder.hh"
#include "simd.hh"
#include "simd_sort.hh"
#include "simplex_decoder.hh"
#include "simplex_encoder.hh"
#include "sort.hh"
#include "xorshift.hh"
#else
#include "xorshift.hh"
#include "sort.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
#include "simd_sort.hh"
#include "simd.hh"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
#include "rotate.hh"
#include "reed_solomon_error_correction.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "prime_field.hh"
#include "polar_sequence.hh"
#include "polar_parity_aided.hh"
#include "polar_list_decoder.hh"
#include "polar_helper.hh"
#include "polar_freezer.hh"
#include "polar_encoder.hh"
#include "polar_decoder.hh"
#include "permute.hh"
#include "osd.hh"
#include "mls.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
#include "interleave.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "galois_field.hh"
#include "exclusive_reduce.hh"
#include "crc.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "cauchy_prime_field_erasure_coding.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#include "bitstream.hh"
#include "bitman.hh"
#endif
