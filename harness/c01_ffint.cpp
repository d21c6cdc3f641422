// C01: FFInt is the prime field Z_p with canonical representatives
#include "util.h"
#include "firefly/BaseReconst.hpp"
typedef unsigned __int128 u128;
static FFInt F(u64 n) { FFInt f; f.n = n; return f; }
static u64 P;
static u64 mm(u64 a, u64 b) { return sym_modmul(a, b, P); }
static u64 mpw(u64 a, u64 e) { u64 r = 1; while (e) { if (e & 1) r = mm(r, a); e >>= 1; if (e) a = mm(a, a); } return r; }
static const u64 PRIMES[] = {9223372036854775783ull, 9223372036854767293ull, 4611686018427388039ull, 4294967311ull, 18446744073709551557ull >> 1 /*unused*/};
extern "C" void ff_harness(int, char** argv) {
  sym_expect_reach("end");
  int group = atoi(argv[1]);
  if (group == 0) { // additive group and comparisons, modulus symbolic
    u64 p = su("p", 2, (1ull << 63) - 1), a = su("a", 0, (1ull << 63) - 2), b = su("b", 0, (1ull << 63) - 2);
    sym_assume(a < p); sym_assume(b < p);
    FFInt::set_new_prime(p);
    u64 s = a + b, ws = s >= p ? s - p : s, wd = a >= b ? a - b : a + (p - b), wn = a == 0 ? 0 : p - a;
    FFInt x = F(a), y = F(b);
    sym_assert((x + y).n == ws, "a+b is not the canonical sum");
    sym_assert((x - y).n == wd, "a-b is not the canonical difference");
    sym_assert((-x).n == wn, "-a is not the canonical negative");
    sym_assert((+x).n == a, "+a is not a");
    { FFInt t = x; t += y; sym_assert(t.n == ws, "a+=b is not the canonical sum"); t = x; t -= y; sym_assert(t.n == wd, "a-=b is not the canonical difference"); }
    { FFInt t = x; t += t; u64 d = a + a; sym_assert(t.n == (d >= p ? d - p : d), "a+=a is not the canonical sum"); t = x; t -= t; sym_assert(t.n == 0, "a-=a is not zero"); }
    u64 wi = a + 1 == p ? 0 : a + 1, wdn = a == 0 ? p - 1 : a - 1;
    { FFInt t = x, r = ++t; sym_assert(t.n == wi && r.n == wi, "++a is not a+1"); t = x; r = t++; sym_assert(t.n == wi && r.n == a, "a++ does not add one and return the old value"); }
    { FFInt t = x, r = --t; sym_assert(t.n == wdn && r.n == wdn, "--a is not a-1"); t = x; r = t--; sym_assert(t.n == wdn && r.n == a, "a-- does not subtract one and return the old value"); }
    sym_assert((x == y) == (a == b) && (x != y) == (a != b), "equality of field elements is not equality of residues");
    sym_assert((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "order of field elements is not the order of the residues");
    sym_assert(!x == (a == 0), "operator! is not the test for zero");
    sym_assert(x.n == a && y.n == b, "an operation modified its operand");
  } else if (group == 1) { // construction from machine integers
    u64 p = su("p", 2, (1ull << 63) - 1), v = su("v", 0, ~0ull);
    FFInt::set_new_prime(p);
    // m % p is canonical by definition, so equality with the reference settles canonicity as well
    auto chk = [&](const FFInt& f, bool neg, u64 m, const char* msg) { u64 r = m % p; if (neg && r) r = p - r; sym_assert(f.n == r, msg); };
    i64 s = (i64)v; int i = (int)(uint32_t)v; short h = (short)v;
    switch (atoi(argv[2])) {
    case 0: chk(FFInt(v), false, v, "FFInt(uint64_t) is not the residue"); break;
    case 1: chk(FFInt(s), s < 0, s < 0 ? 0 - v : v, "FFInt(int64_t) is not the canonical residue"); break;
    case 2: chk(FFInt(i), i < 0, i < 0 ? 0 - (u64)(i64)i : (u64)i, "FFInt(int) is not the canonical residue"); break;
    case 3: chk(FFInt((uint32_t)v), false, (uint32_t)v, "FFInt(uint32_t) is not the residue"); break;
    case 4: chk(FFInt(h), h < 0, h < 0 ? 0 - (u64)(i64)h : (u64)h, "FFInt(short) is not the canonical residue"); break;
    }
    FFInt z; sym_assert(z.n == 0, "FFInt() is not zero"); FFInt c(z); sym_assert(c.n == 0, "copy differs");
  } else if (group == 2) { // modular inverse by the extended Euclidean algorithm
#ifdef DEFAULT
    u64 p = atoi(argv[2]); P = p; if (argv[3]) P = p = PRIMES[atoi(argv[3])];
    u64 lim = atoi(argv[2]);
    u64 a = argv[3] ? su("a", 1, lim) : su("a", 1, p - 1);
    if (argv[3] && sym_concretize(su("minus", 0, 1))) a = p - a;
    u64 r = mod_inv(a, p);
    sym_assert(r < p, "mod_inv is not canonical");
    if (!argv[3]) sym_assert((r * a) % p == 1 % p, "mod_inv(a) * a is not 1"); else sym_assert((u64)((u128)r * a % p) == 1, "mod_inv(a) * a is not 1");
#endif
  } else if (group == 3) { // powers; exponents with at most two bits set, small ones, and their negatives
    P = PRIMES[atoi(argv[2])]; FFInt::set_new_prime(P);
    u64 a = su("a", 1, P - 1), e; int kind = atoi(argv[3]);
    if (kind == 0) e = su("e", 0, 40);
    else { u64 i = sym_concretize(su("i", 0, 61)), j = sym_concretize(su("j", 0, 61)); e = (1ull << i) ^ (j < i ? 1ull << j : 0); if (e >= P) e = 1; }
    e = sym_concretize(e);
    FFInt x = F(a);
    u64 w = mpw(a, e), wn = sym_modinv(w, P);
    sym_assert(x.pow(e).n == w, "a.pow(uint64_t) is not the power");
    sym_assert(pow(x, e).n == w, "pow(a, uint64_t) is not the power");
    if (e < (1ull << 31)) { sym_assert(x.pow((int)e).n == w && x.pow((uint32_t)e).n == w, "a.pow(int) is not the power"); sym_assert(x.pow(-(int)e).n == wn, "a.pow(negative int) is not the inverse power"); }
    sym_assert(x.pow((i64)e).n == w && x.pow(-(i64)e).n == wn, "a.pow(int64_t) is not the power");
    if (e < P - 1) sym_assert(x.pow(F(e)).n == w && pow(x, F(e)).n == w, "a.pow(FFInt) is not the power");
    sym_assert(x.pow(F(P - 1)).n == 1, "a^(p-1) is not 1");
    if (e > 0 && e < P - 1) sym_assert(x.pow(F(P - 1 - e)).n == wn, "a.pow(FFInt(p-1-e)) is not the inverse power");
    FFInt z = F(0); if (e > 0) sym_assert(z.pow(e).n == 0, "0^e is not zero"); else sym_assert(z.pow(e).n == 1, "0^0 is not one");
    sym_assert(x.n == a, "pow modified its operand");
  } else if (group == 4) { // multiplicative operators on top of the primitives
    P = PRIMES[atoi(argv[2])]; FFInt::set_new_prime(P);
    u64 a = su("a", 0, P - 1), b = su("b", 0, P - 1); FFInt x = F(a), y = F(b);
    sym_assert((x * y).n == mm(a, b), "a*b is not the product"); { FFInt t = x; t *= y; sym_assert(t.n == mm(a, b), "a*=b is not the product"); t = x; t *= t; sym_assert(t.n == mm(a, a), "a*=a is not the square"); }
    u64 q = b == 0 ? 0 : mm(a, sym_modinv(b, P));
    sym_assert((x / y).n == q, "a/b is not the quotient (zero for b=0)"); { FFInt t = x; t /= y; sym_assert(t.n == q, "a/=b is not the quotient (zero for b=0)"); t = y; t /= t; sym_assert(t.n == (b == 0 ? 0 : 1), "b/=b is not one"); }
    if (b) sym_assert((x / y * y).n == a, "a/b*b is not a");
    sym_assert(x.n == a && y.n == b, "an operation modified its operand");
  } else if (group == 5) { // the machine multiplication, product and quotient as exact integers
#ifdef DEFAULT
    u64 m = su("m", 2, (1ull << 63) - 1), a = su("a", 0, (1ull << 63) - 2), b = su("b", 0, (1ull << 63) - 2);
    sym_assume(a < m); sym_assume(b < m);
    sym_assert_mulmod(mod_mul(a, b, m), a, b, m, "mod_mul(a,b,m) is not a*b mod m");
#endif
  } else if (group == 6) { // construction from big integers
    u64 p = strtoull(argv[2], 0, 10); FFInt::set_new_prime(p);
    u64 hi = su("hi", 0, strtoull(argv[3], 0, 10)), lo = su("lo", 0, argv[4] ? strtoull(argv[4], 0, 10) : ~0ull);
    bool neg = sym_concretize(su("neg", 0, 1));
    mpz_class h, l; mpz_set_ui(h.get_mpz_t(), hi); mpz_set_ui(l.get_mpz_t(), lo);
    mpz_class v = (h << 64) + l; if (neg) v = -v;
    FFInt f(v);
    u128 w = ((u128)hi << 64 | lo) % p; if (neg && w) w = p - w;
    sym_assert(f.n == (u64)w, "FFInt(mpz_class) is not the canonical residue");
  }
  sym_reach("end");
}
