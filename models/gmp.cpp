// Instrumented model of the GMP integer functions the library uses.  Values are exact integers of
// magnitude < 2^253 (an overflow of that bound ends the path as "limit", never as success).
#include <gmp.h>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include "ffsym.h"
typedef signed _BitInt(256) S;
typedef unsigned _BitInt(256) U;
extern "C" {
void sym_limit(const char*);
static const int LIMBS = 4;
static inline U mag(mpz_srcptr x) { return *(const U*)x->_mp_d; }
static inline S val(mpz_srcptr x) { U m = mag(x); return x->_mp_size < 0 ? -(S)m : (S)m; }
static void room(mpz_ptr x) {
  if (x->_mp_alloc < LIMBS || !x->_mp_d) { x->_mp_d = (mp_limb_t*)malloc(LIMBS * 8); x->_mp_alloc = LIMBS; }
}
static int limbs(U m) {
  int n = 0;
  n = m != 0 ? 1 : n;
  n = m > (U)0xffffffffffffffffull ? 2 : n;
  n = (m >> 128) != 0 ? 3 : n;
  n = (m >> 192) != 0 ? 4 : n;
  return n;
}
static void put(mpz_ptr x, S v) {
  room(x);
  bool neg = v < 0;
  U m = neg ? (U)-v : (U)v;
  if ((m >> 253) != 0) sym_limit("gmp model: magnitude bound exceeded");
  int n = limbs(m);
  *(U*)x->_mp_d = m;
  x->_mp_size = neg ? -n : n;
}
#define M(n) ffmodel___gmpz_##n
void M(init)(mpz_ptr x) { x->_mp_alloc = 0; x->_mp_d = nullptr; put(x, 0); }
void M(init_set)(mpz_ptr x, mpz_srcptr y) { x->_mp_alloc = 0; x->_mp_d = nullptr; put(x, val(y)); }
void M(init_set_si)(mpz_ptr x, long v) { x->_mp_alloc = 0; x->_mp_d = nullptr; put(x, v); }
void M(init_set_ui)(mpz_ptr x, unsigned long v) { x->_mp_alloc = 0; x->_mp_d = nullptr; put(x, (S)(U)v); }
void M(clear)(mpz_ptr x) { free(x->_mp_d); x->_mp_d = nullptr; x->_mp_alloc = 0; }
void M(set)(mpz_ptr x, mpz_srcptr y) { put(x, val(y)); }
void M(set_si)(mpz_ptr x, long v) { put(x, v); }
void M(set_ui)(mpz_ptr x, unsigned long v) { put(x, (S)(U)v); }
void M(swap)(mpz_ptr x, mpz_ptr y) { __mpz_struct t = *x; *x = *y; *y = t; }
void M(add)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { put(r, val(a) + val(b)); }
void M(add_ui)(mpz_ptr r, mpz_srcptr a, unsigned long b) { put(r, val(a) + (S)(U)b); }
void M(sub)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { put(r, val(a) - val(b)); }
void M(sub_ui)(mpz_ptr r, mpz_srcptr a, unsigned long b) { put(r, val(a) - (S)(U)b); }
void M(ui_sub)(mpz_ptr r, unsigned long a, mpz_srcptr b) { put(r, (S)(U)a - val(b)); }
static void mulcheck(U a, U b) {
  // |a*b| must stay below the bound: compare bit sizes conservatively
  if ((a >> 126) != 0 || (b >> 126) != 0) {
    unsigned na = 0, nb = 0;
    for (U t = a; t; t >>= 1) ++na;
    for (U t = b; t; t >>= 1) ++nb;
    if (na + nb > 253) sym_limit("gmp model: product bound exceeded");
  }
}
static void mul(mpz_ptr r, U a, bool na, U b, bool nb) {
  mulcheck(a, b);
  U p = a * b;
  put(r, na != nb ? -(S)p : (S)p);
}
void M(mul)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { mul(r, mag(a), a->_mp_size < 0, mag(b), b->_mp_size < 0); }
void M(mul_ui)(mpz_ptr r, mpz_srcptr a, unsigned long b) { mul(r, mag(a), a->_mp_size < 0, b, false); }
void M(mul_si)(mpz_ptr r, mpz_srcptr a, long b) { mul(r, mag(a), a->_mp_size < 0, b < 0 ? (U)(-(S)b) : (U)b, b < 0); }
void M(mul_2exp)(mpz_ptr r, mpz_srcptr a, unsigned long k) { if (k > 200) sym_limit("gmp model: shift"); mul(r, mag(a), a->_mp_size < 0, (U)1 << k, false); }
static void dz(bool z) { if (z) __builtin_trap(); } // GMP raises SIGFPE on division by zero
static void divmod(mpz_ptr q, mpz_ptr r, U n, bool nn, U d, bool nd) {
  dz(d == 0);
  U a = n / d, b = n % d;
  if (q) put(q, nn != nd ? -(S)a : (S)a);
  if (r) put(r, nn ? -(S)b : (S)b);
}
void M(tdiv_q)(mpz_ptr q, mpz_srcptr n, mpz_srcptr d) { divmod(q, nullptr, mag(n), n->_mp_size < 0, mag(d), d->_mp_size < 0); }
void M(tdiv_r)(mpz_ptr r, mpz_srcptr n, mpz_srcptr d) { divmod(nullptr, r, mag(n), n->_mp_size < 0, mag(d), d->_mp_size < 0); }
unsigned long M(tdiv_q_ui)(mpz_ptr q, mpz_srcptr n, unsigned long d) { U r = mag(n) % (U)d; divmod(q, nullptr, mag(n), n->_mp_size < 0, d, false); return (unsigned long)r; }
unsigned long M(tdiv_r_ui)(mpz_ptr q, mpz_srcptr n, unsigned long d) { U r = mag(n) % (U)d; divmod(nullptr, q, mag(n), n->_mp_size < 0, d, false); return (unsigned long)r; }
void M(mod)(mpz_ptr r, mpz_srcptr n, mpz_srcptr d) { dz(mag(d) == 0); U m = mag(n) % mag(d); put(r, n->_mp_size < 0 ? (m == 0 ? (S)0 : (S)(mag(d) - m)) : (S)m); }
unsigned long M(fdiv_ui)(mpz_srcptr n, unsigned long d) { dz(d == 0); U m = mag(n) % (U)d; return (unsigned long)(n->_mp_size < 0 ? (m == 0 ? (U)0 : (U)d - m) : m); }
void M(fdiv_q)(mpz_ptr q, mpz_srcptr n, mpz_srcptr d) { dz(mag(d) == 0); S a = val(n), b = val(d); S x = a / b; if (x * b != a && ((a < 0) != (b < 0))) x -= 1; put(q, x); }
void M(fdiv_r)(mpz_ptr q, mpz_srcptr n, mpz_srcptr d) { dz(mag(d) == 0); S a = val(n), b = val(d); S x = a % b; if (x != 0 && ((x < 0) != (b < 0))) x += b; put(q, x); }
void M(divexact)(mpz_ptr q, mpz_srcptr n, mpz_srcptr d) { divmod(q, nullptr, mag(n), n->_mp_size < 0, mag(d), d->_mp_size < 0); }
static int c3(S a, S b) { int r = a < b ? -1 : 0; return a > b ? 1 : r; }
int M(cmp)(mpz_srcptr a, mpz_srcptr b) { return c3(val(a), val(b)); }
int M(cmp_si)(mpz_srcptr a, long b) { return c3(val(a), (S)b); }
int M(cmp_ui)(mpz_srcptr a, unsigned long b) { return c3(val(a), (S)(U)b); }
int M(cmpabs)(mpz_srcptr a, mpz_srcptr b) { return c3((S)mag(a), (S)mag(b)); }
int M(cmpabs_ui)(mpz_srcptr a, unsigned long b) { return c3((S)mag(a), (S)(U)b); }
void M(gcd)(mpz_ptr r, mpz_srcptr a_, mpz_srcptr b_) {
  U a = mag(a_), b = mag(b_);
  while (b != 0) { U t = a % b; a = b; b = t; }
  put(r, (S)a);
}
void M(lcm)(mpz_ptr r, mpz_srcptr a_, mpz_srcptr b_) {
  U a = mag(a_), b = mag(b_), p = a, q = b;
  if (a == 0 || b == 0) { put(r, 0); return; }
  while (b != 0) { U t = a % b; a = b; b = t; }
  mulcheck(p / a, q);
  put(r, (S)(p / a * q));
}
int M(invert)(mpz_ptr r, mpz_srcptr a_, mpz_srcptr m_) {
  U m = mag(m_), a = mag(a_) % m;
  if (a_->_mp_size < 0 && a != 0) a = m - a;
  S t = 0, nt = 1; U x = m, y = a;
  while (y != 0) { U q = x / y; S tt = t - (S)q * nt; t = nt; nt = tt; U z = x - q * y; x = y; y = z; }
  if (x != 1) return 0;
  put(r, t < 0 ? t + (S)m : t);
  return 1;
}
void M(pow_ui)(mpz_ptr r, mpz_srcptr b, unsigned long e) {
  if (e > 252) sym_limit("gmp model: exponent");
  U a = 1, m = mag(b);
  for (unsigned long i = 0; i < e; ++i) { mulcheck(a, m); a *= m; }
  put(r, (b->_mp_size < 0 && (e & 1)) ? -(S)a : (S)a);
}
void M(powm_ui)(mpz_ptr r, mpz_srcptr b, unsigned long e, mpz_srcptr m_) {
  U m = mag(m_), a = 1 % m, x = mag(b) % m;
  if (b->_mp_size < 0 && x != 0) x = m - x;
  for (unsigned long i = 0; i < e; ++i) { mulcheck(a, x); a = a * x % m; }
  put(r, (S)a);
}
size_t M(sizeinbase)(mpz_srcptr x, int base) {
  if (base != 2) sym_limit("gmp model: sizeinbase");
  U m = mag(x);
  size_t n = 1;
  for (int i = 1; i < 256; ++i) n = (m >> i) != 0 ? i + 1 : n;
  return n;
}
unsigned long M(get_ui)(mpz_srcptr x) { return (unsigned long)mag(x); }
long M(get_si)(mpz_srcptr x) { return (long)val(x); }
int M(fits_slong_p)(mpz_srcptr x) { S v = val(x); return v >= (S)(-0x7fffffffffffffffL - 1) && v <= (S)0x7fffffffffffffffL; }
int M(fits_ulong_p)(mpz_srcptr x) { S v = val(x); return v >= 0 && v <= (S)(U)0xffffffffffffffffull; }
char* M(get_str)(char* buf, int base, mpz_srcptr x) {
  if (base != 10) sym_limit("gmp model: get_str base");
  char tmp[96];
  int n = 0;
  U m = mag(x);
  do { tmp[n++] = '0' + (char)(m % 10); m /= 10; } while (m != 0);
  bool neg = x->_mp_size < 0;
  if (!buf) buf = (char*)malloc(n + 2);
  int k = 0;
  if (neg) buf[k++] = '-';
  while (n) buf[k++] = tmp[--n];
  buf[k] = 0;
  return buf;
}
int M(set_str)(mpz_ptr x, const char* s, int base) {
  if (base != 0 && base != 10) sym_limit("gmp model: set_str base");
  // whitespace is allowed and ignored by GMP
  while (*s == ' ' || (*s >= 9 && *s <= 13)) ++s;
  bool neg = false;
  if (*s == '-') { neg = true; ++s; }
  if (!(*s >= '0' && *s <= '9')) return -1;
  if (base == 0 && *s == '0' && s[1] != 0) sym_limit("gmp model: prefixed literal");
  S v = 0; int nd = 0;
  while (*s) {
    if (*s == ' ' || (*s >= 9 && *s <= 13)) { ++s; continue; }
    if (!(*s >= '0' && *s <= '9')) return -1;
    if (++nd > 75) sym_limit("gmp model: literal too long");
    v = v * 10 + (S)(int)(*s - '0');
    ++s;
  }
  put(x, neg ? -v : v);
  return 0;
}
int M(init_set_str)(mpz_ptr x, const char* s, int base) { M(init)(x); return M(set_str)(x, s, base); }
static void xfree(void* p, size_t) { free(p); }
static void* xalloc(size_t n) { return malloc(n); }
static void* xrealloc(void* p, size_t, size_t n) { return realloc(p, n); }
void ffmodel___gmp_get_memory_functions(void* (**a)(size_t), void* (**r)(void*, size_t, size_t), void (**f)(void*, size_t)) {
  if (a) *a = xalloc;
  if (r) *r = xrealloc;
  if (f) *f = xfree;
}
}
