// C07: univariate Poly: ring operations, Euclidean division, gcd
#include "util.h"
#include "firefly/Poly.hpp"
static Poly mkp(const char* b, int deg, bool monicnz) { std::vector<FFInt> c; for (int i = 0; i <= deg; ++i) c.push_back(sff(nm(b, i), (i == deg && monicnz) ? 1 : 0)); return Poly(c); }
static u64 X;
static u64 ev(const Poly& p) { u64 r = 0; for (size_t i = p.coeff.size(); i-- > 0;) r = radd(rmul(r, X), p.coeff[i].n); return r; }
static u64 cf(const Poly& p, size_t i) { return i < p.coeff.size() ? p.coeff[i].n : 0; }
extern "C" void ff_harness(int, char** argv) {
  sym_expect_reach("end");
  const int GROUP = atoi(argv[1]), DA = atoi(argv[2]), DB = atoi(argv[3]);
  FFInt::set_new_prime(PRIME);
  X = su("x", 0, PRIME - 1);
if (GROUP == 0) {
  Poly a = mkp("a", DA, false), b = mkp("b", DB, false); FFInt c = sff("c");
  sym_assert(ev(a + b) == radd(ev(a), ev(b)), "Poly sum has the wrong value");
  sym_assert(ev(a - b) == rsub(ev(a), ev(b)), "Poly difference has the wrong value");
  sym_assert(ev(b + a) == radd(ev(a), ev(b)), "Poly sum (swapped) has the wrong value");
  sym_assert(ev(b - a) == rsub(ev(b), ev(a)), "Poly difference (swapped) has the wrong value");
  sym_assert(ev(a * b) == rmul(ev(a), ev(b)), "Poly product has the wrong value");
  sym_assert(ev(a * c) == rmul(ev(a), c.n), "Poly times scalar has the wrong value");
  if (c.n) sym_assert(rmul(ev(a / c), c.n) == ev(a), "Poly divided by scalar has the wrong value");
  for (size_t i = 0; i <= (size_t)(DA + DB); ++i) { u64 w = 0; for (size_t j = 0; j <= i; ++j) w = radd(w, rmul(cf(a, j), cf(b, i - j))); sym_assert(cf(a * b, i) == w && cf(a + b, i) == radd(cf(a, i), cf(b, i)) && cf(a - b, i) == rsub(cf(a, i), cf(b, i)), "Poly sum, difference or product has a wrong coefficient"); }
  size_t d = 0; for (size_t i = 0; i < a.coeff.size(); ++i) if (a.coeff[i].n) d = i;
  sym_assert(a.get_deg() == d, "Poly::get_deg is not the largest index of a non-zero coefficient");
} else if (GROUP == 1) {
  Poly a = mkp("a", DA, true), b = mkp("b", DB, true);
  auto qr = fast_euclidean_division(a, b);
  sym_assert(ev(qr.first * b + qr.second) == ev(a), "a != q*b + r in fast_euclidean_division");
  for (size_t i = DB; i < (size_t)qr.second.coeff.size(); ++i) sym_assert(qr.second.coeff[i].n == 0, "remainder of fast_euclidean_division has a degree not below the divisor");
  for (size_t i = 0; i <= (size_t)DA; ++i) { u64 s = cf(qr.second, i); for (size_t j = 0; j <= i; ++j) s = radd(s, rmul(cf(qr.first, j), cf(b, i - j))); sym_assert(s == cf(a, i), "coefficients of q*b + r differ from a"); }
} else {
  // gcd of (g*u, g*v): divisible by g and dividing both
  Poly a = mkp("a", DA, true), b = mkp("b", DB, true);
  Poly g = gcd(a, b);
  size_t dg = g.get_deg();
  sym_assert(g.coeff[dg].n != 0, "gcd is zero");
  Poly r1 = a % g, r2 = b % g;
  for (size_t i = 0; i < r1.coeff.size(); ++i) sym_assert(r1.coeff[i].n == 0, "gcd does not divide the first polynomial");
  for (size_t i = 0; i < r2.coeff.size(); ++i) sym_assert(r2.coeff[i].n == 0, "gcd does not divide the second polynomial");
  // a common root is a root of the gcd
  if (ev(a) == 0 && ev(b) == 0) sym_assert(ev(g) == 0, "a common root is not a root of the gcd");
}
  sym_reach("end");
}
