/* Optional part: the header-style extraction code that tests include as text. */
#include <dieharder/libdieharder.h>
#include "static_get_bits.c"
unsigned int vf_static_bits(unsigned int nbits) { return get_rand_bits_uint(nbits, 0, rng); }
unsigned int vf_static_ntuple(unsigned int w, unsigned int nbits, unsigned int off) {
  return get_bit_ntuple_from_uint(w, nbits, nbits >= 32 ? 0xffffffffu : ((1u << nbits) - 1), off);
}
unsigned int vf_static_ntuple_whole(unsigned int w, unsigned int nbits, unsigned int off) {
  return get_bit_ntuple_from_whole_uint(w, nbits, nbits >= 32 ? 0xffffffffu : ((1u << nbits) - 1), off);
}
