// C06: PolynomialFF implements the polynomial ring (checked by evaluation at a symbolic point and term by term)
#include "util.h"
#include "firefly/PolynomialFF.hpp"
typedef std::vector<uint32_t> Ex;
static u64 X[4]; static int NV;
static std::vector<FFInt> pt() { std::vector<FFInt> v; for (int i = 0; i < NV; ++i) { FFInt f; f.n = X[i]; v.push_back(f); } return v; }
static u64 mono(const Ex& e) { u64 r = 1; for (size_t i = 0; i < e.size(); ++i) r = rmul(r, rpow(X[i], e[i])); return r; }
static u64 ev(const PolynomialFF& p) { u64 r = 0; for (auto& t : p.coefs) r = radd(r, rmul(t.second.n, mono(t.first))); return r; } // independent evaluation
static void canon(const PolynomialFF& p, const char* m) { for (auto& t : p.coefs) sym_assert(t.second.n < PRIME && (int)t.first.size() == (int)p.n && (int)p.n == NV, m); }
static void nozero(const PolynomialFF& p) { for (auto& t : p.coefs) sym_assert(t.second.n != 0, "PolynomialFF result keeps a vanishing coefficient"); }
static PolynomialFF mkp(const char* b, const std::vector<Ex>& es, u64 lo) { ff_map m; int i = 0; for (auto& e : es) m.emplace(std::make_pair(e, sff(nm(b, i++), lo))); return PolynomialFF(NV, m); }
static PolynomialFF mkmask(const char* b, const std::vector<Ex>& es, u64 lo) { // any subset of the monomials
  u64 mask = sym_concretize(su(std::string(b) + "_mask", 0, (1u << es.size()) - 1)); std::vector<Ex> s;
  for (size_t i = 0; i < es.size(); ++i) if (mask >> i & 1) s.push_back(es[i]);
  return mkp(b, s, lo);
}
static u64 cf(const PolynomialFF& p, const Ex& e) { auto it = p.coefs.find(e); return it == p.coefs.end() ? 0 : it->second.n; }
static uint32_t deg(const Ex& e) { uint32_t d = 0; for (auto x : e) d += x; return d; }
static void sums(const std::vector<Ex>& P) {
  PolynomialFF a = mkmask("a", P, 1), b = mkmask("b", P, 1), a0 = a, b0 = b;
  u64 va = ev(a), vb = ev(b);
  PolynomialFF s = a + b, d = a - b, sp = a, sm = a; sp += b; sm -= b;
  sym_assert(ev(s) == radd(va, vb) && ev(sp) == radd(va, vb), "PolynomialFF sum evaluates to another value than the sum of the values");
  sym_assert(ev(d) == rsub(va, vb) && ev(sm) == rsub(va, vb), "PolynomialFF difference evaluates to another value than the difference of the values");
  for (auto& e : P) {
    sym_assert(cf(s, e) == radd(cf(a, e), cf(b, e)) && cf(sp, e) == cf(s, e), "PolynomialFF sum has a wrong coefficient");
    sym_assert(cf(d, e) == rsub(cf(a, e), cf(b, e)) && cf(sm, e) == cf(d, e), "PolynomialFF difference has a wrong coefficient");
    sym_assert(cf(a, e) == cf(a0, e) && cf(b, e) == cf(b0, e), "PolynomialFF sum or difference modifies an operand");
  }
  for (auto* q : {&s, &d, &sp, &sm}) { nozero(*q); }
  for (auto* q : {&s, &d}) canon(*q, "PolynomialFF result not canonical");
  sym_assert((a - a).zero() && (a + b - b - a).zero(), "PolynomialFF a-a is not zero");
}
extern "C" void ff_harness(int, char** argv) {
  sym_expect_reach("end");
  int group = atoi(argv[1]); NV = atoi(argv[2]);
  FFInt::set_new_prime(PRIME);
  for (int i = 0; i < NV; ++i) X[i] = su(nm("x", i), 0, PRIME - 1);
  std::vector<Ex> A, B;
  if (NV == 1) { A = {{0}, {1}, {3}, {5}}; B = {{0}, {1}, {2}}; }
  else if (NV == 2) { A = {{0, 0}, {1, 0}, {1, 2}, {0, 4}}; B = {{0, 0}, {0, 1}, {1, 0}}; }
  else { A = {{0, 0, 0}, {1, 0, 2}, {0, 1, 1}, {2, 1, 0}}; B = {{0, 0, 1}, {0, 1, 0}, {1, 0, 0}}; }
  if (group == 0) { if (NV == 3) A.pop_back(); sums(A); }
  else if (group == 1) { // scalar multiplication, division, evaluation
    PolynomialFF a = mkmask("a", A, 0); FFInt c = sff("c");
    u64 va = ev(a);
    std::vector<FFInt> p = pt();
    sym_assert(a.calc(p).n == va, "PolynomialFF::calc differs from term-wise evaluation");
    PolynomialFF m1 = a * c, m2 = a; m2 *= c;
    sym_assert(ev(m1) == rmul(va, c.n) && ev(m2) == rmul(va, c.n), "PolynomialFF times scalar has the wrong value");
    canon(m1, "PolynomialFF times scalar not canonical");
    if (c.n != 0) {
      PolynomialFF q1 = a / c, q2 = a; q2 /= c;
      sym_assert(rmul(ev(q1), c.n) == va && rmul(ev(q2), c.n) == va, "PolynomialFF divided by scalar has the wrong value");
    }
    bool z = true; for (auto& t : a.coefs) z &= t.second.n == 0;
    PolynomialFF r = a; r.remove_zero_coefs();
    sym_assert(ev(r) == va, "remove_zero_coefs changes the value"); nozero(r);
    sym_assert(r.zero() == z, "PolynomialFF::zero wrong after remove_zero_coefs");
    // a value change after an evaluation must be seen by the next evaluation
    PolynomialFF w = a; u64 w1 = w.calc(p).n; w *= FFInt(2); sym_assert(w1 == va && w.calc(p).n == radd(va, va), "PolynomialFF::calc returns a stale value after *=");
    w += a; sym_assert(w.calc(p).n == radd(va, radd(va, va)), "PolynomialFF::calc returns a stale value after +="); w -= a; w -= a; sym_assert(w.calc(p).n == va, "PolynomialFF::calc returns a stale value after -=");
  } else if (group == 2) { // product of two polynomials, multiplication by a variable
    PolynomialFF a = mkp("a", {A[0], A[1], A[2]}, 0), b = mkp("b", {B[0], B[1], B[2]}, 0);
    PolynomialFF c = a * b;
    sym_assert(ev(c) == rmul(ev(a), ev(b)), "PolynomialFF product evaluates to another value than the product of the values");
    canon(c, "PolynomialFF product not canonical");
    for (int z = 1; z <= NV; ++z) { PolynomialFF m = a.mul(z); sym_assert(ev(m) == rmul(ev(a), X[z - 1]) && m.coefs.size() == a.coefs.size(), "PolynomialFF::mul is not multiplication by the variable"); canon(m, "PolynomialFF::mul not canonical"); }
  } else if (group == 6) { // product: cancellations (x-s)(x+s)-like, no vanishing terms left
    PolynomialFF a = mkp("a", {B[1], B[2]}, 1), b = mkp("b", {B[1], B[2]}, 1);
    PolynomialFF c = a * b;
    sym_assert(ev(c) == rmul(ev(a), ev(b)), "PolynomialFF product evaluates to another value than the product of the values");
    nozero(c);
  } else if (group == 3) { // shift of the variables
    PolynomialFF a = mkp("a", A, 0);
    std::vector<FFInt> sh; for (int i = 0; i < NV; ++i) sh.push_back(sff(nm("s", i)));
    PolynomialFF s = a.add_shift(sh);
    u64 vs = ev(s);
    canon(s, "add_shift result not canonical");
    for (int i = 0; i < NV; ++i) X[i] = radd(X[i], sh[i].n);
    sym_assert(vs == ev(a), "add_shift(s) evaluated at x differs from the polynomial at x+s");
  } else if (group == 4) { // homogenisation, evaluation without the first variable
    PolynomialFF a = mkp("a", A, 0);
    u64 va = ev(a); uint32_t D = 0; for (auto& t : a.coefs) D = std::max(D, deg(t.first));
    uint32_t dg = D + (uint32_t)sym_concretize(su("extra", 0, 2));
    PolynomialFF h = a; h.homogenize(dg);
    for (auto& t : h.coefs) sym_assert(deg(t.first) == dg && (int)t.first.size() == NV + 1, "homogenize leaves a term of another degree");
    h.n = NV + 1;
    sym_assert(h.coefs.size() == a.coefs.size(), "homogenize loses a term");
    sym_assert(h.calc_n_m_1(pt()).n == va, "homogenised polynomial at z0=1 differs from the original polynomial");
    FFInt z0 = sff("z0"); std::vector<FFInt> p = {z0}; for (auto& x : pt()) p.push_back(x);
    u64 want = 0; for (auto& t : a.coefs) want = radd(want, rmul(rmul(t.second.n, mono(t.first)), rpow(z0.n, dg - deg(t.first))));
    sym_assert(h.calc(p).n == want, "homogenised polynomial has the wrong value");
  } else if (group == 5) { // degrees
    ff_map m; std::vector<Ex> es(3); for (int i = 0; i < NV; ++i) for (int k = 0; k < (NV > 2 ? 2 : 3); ++k) es[k].push_back(sym_concretize(su(nm("pqr", k) + "_" + std::to_string(i), 0, NV > 1 ? 2 : 4)));
    uint32_t mx = 0, mn = 100; int k = 1;
    for (auto& e : es) if (!e.empty()) { m.emplace(std::make_pair(e, FFInt(k++))); mx = std::max(mx, deg(e)); mn = std::min(mn, deg(e)); }
    PolynomialFF b(NV, m);
    Ex x = b.max_deg(), n = b.min_deg();
    sym_assert(deg(x) == mx && b.coefs.count(x), "max_deg is not the exponent of a term of maximal total degree");
    sym_assert(deg(n) == mn && b.coefs.count(n), "min_deg is not the exponent of a term of minimal total degree");
    PolynomialFF b2(NV, m); n = b2.min_deg(); sym_assert(deg(n) == mn && b2.coefs.count(n), "min_deg (asked first) is not the exponent of a term of minimal total degree");
  }
  sym_reach("end");
}
