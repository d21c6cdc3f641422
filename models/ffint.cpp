// Summaries of the prime-field operations.  Their exactness for every input is the subject of C01 (and C01 only);
// all other checks reason about residues algebraically.
#include "ffsym.h"
#include "firefly/FFInt.hpp"
using firefly::FFInt;
static inline FFInt mkff(uint64_t n) { FFInt r; r.n = n; return r; }
extern "C" {
#ifdef DEFAULT
uint64_t ffmodel__ZN7firefly7mod_mulEmmm(uint64_t a, uint64_t b, uint64_t m) { return sym_modmul(a, b, m); }
uint64_t ffmodel__ZN7firefly7mod_invEmm(uint64_t a, uint64_t m) { return sym_modinv(a, m); }
#endif
FFInt& ffmodel__ZN7firefly5FFIntpLERKS0_(FFInt* t, const FFInt& o) { t->n = sym_modadd(t->n, o.n, FFInt::p); return *t; }
FFInt& ffmodel__ZN7firefly5FFIntmIERKS0_(FFInt* t, const FFInt& o) { t->n = sym_modsub(t->n, o.n, FFInt::p); return *t; }
FFInt& ffmodel__ZN7firefly5FFIntmLERKS0_(FFInt* t, const FFInt& o) { t->n = sym_modmul(t->n, o.n, FFInt::p); return *t; }
FFInt& ffmodel__ZN7firefly5FFIntdVERKS0_(FFInt* t, const FFInt& o) { if (o.n == 0) t->n = 0; else t->n = sym_modmul(t->n, sym_modinv(o.n, FFInt::p), FFInt::p); return *t; }
FFInt ffmodel__ZN7fireflyplERKNS_5FFIntES2_(const FFInt& a, const FFInt& b) { return mkff(sym_modadd(a.n, b.n, FFInt::p)); }
FFInt ffmodel__ZN7fireflymiERKNS_5FFIntES2_(const FFInt& a, const FFInt& b) { return mkff(sym_modsub(a.n, b.n, FFInt::p)); }
FFInt ffmodel__ZN7fireflymlERKNS_5FFIntES2_(const FFInt& a, const FFInt& b) { return mkff(sym_modmul(a.n, b.n, FFInt::p)); }
FFInt ffmodel__ZN7fireflydvERKNS_5FFIntES2_(const FFInt& a, const FFInt& b) { if (b.n == 0) return mkff(0); return mkff(sym_modmul(a.n, sym_modinv(b.n, FFInt::p), FFInt::p)); }
FFInt ffmodel__ZNK7firefly5FFIntngEv(const FFInt* t) { return mkff(sym_modsub(0, t->n, FFInt::p)); }
}
