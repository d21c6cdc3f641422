// exact models of the FLINT word-modulus functions the library calls
#include "ffsym.h"
#include <cstdlib>
extern "C" {
uint64_t ffmodel_n_preinvert_limb(uint64_t m) { return 1; }
uint64_t ffmodel__ZL16n_mulmod2_preinvmmmm(uint64_t a, uint64_t b, uint64_t m, uint64_t) { return sym_modmul(a, b, m); }
uint64_t ffmodel__ZL8n_invmodmm(uint64_t a, uint64_t m) { if (a == 0) abort(); return sym_modinv(a, m); }
uint64_t ffmodel__ZL8n_addmodmmm(uint64_t a, uint64_t b, uint64_t m) { return sym_modadd(a, b, m); }
uint64_t ffmodel_n_powmod2_preinv(uint64_t a, int64_t e, uint64_t m, uint64_t) {
  if (e < 0) { if (a == 0) abort(); a = sym_modinv(a, m); }
  if (a == 0) return e == 0;
  if (e > 0 && (uint64_t)e >= m >> 1 && (uint64_t)e < m) { e = (int64_t)((uint64_t)e - (m - 1)); a = sym_modinv(a, m); } // m is prime: a^(m-1) = 1
  uint64_t x = e < 0 ? 0 - (uint64_t)e : (uint64_t)e, r = 1;
  while (x) { if (x & 1) r = sym_modmul(r, a, m); x >>= 1; if (x) a = sym_modmul(a, a, m); }
  return r;
}
}
