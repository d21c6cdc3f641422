// exact summaries of the modular primitives only (the FFInt operators themselves are executed)
#include "ffsym.h"
#include "firefly/FFInt.hpp"
extern "C" {
#ifdef DEFAULT
uint64_t ffmodel__ZN7firefly7mod_mulEmmm(uint64_t a, uint64_t b, uint64_t m) { return sym_modmul(a, b, m); }
uint64_t ffmodel__ZN7firefly7mod_invEmm(uint64_t a, uint64_t m) { return sym_modinv(a, m); }
#endif
}
