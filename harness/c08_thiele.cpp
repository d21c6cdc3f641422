// C08: the Thiele interpolation accepted as finished reproduces the probed rational function
#include "util.h"
#include "firefly/FFThieleInterpolator.hpp"
#include "firefly/PolynomialFF.hpp"
#include "firefly/ReconstHelper.hpp"
static u64 evm(const ff_map& m, u64 x) { u64 r = 0; for (auto& t : m) r = radd(r, rmul(t.second.n, rpow(x, t.first[0]))); return r; }
static FFInt F(u64 n) { FFInt f; f.n = n; return f; }
// independent continued fraction: inverse differences; ok=false when one of them does not exist
struct Ref {
  std::vector<u64> t, a; bool last0 = false;
  // returns false if the new value gives no finite inverse difference; last0: it agrees with the interpolant built so far
  bool add(u64 y, u64 f) {
    u64 r = f; last0 = false;
    for (size_t k = 0; k < a.size(); ++k) { u64 d = rsub(r, a[k]); if (d == 0) { last0 = k + 1 == a.size(); return false; } r = rmul(rsub(y, t[k]), rinv(d)); }
    t.push_back(y); a.push_back(r); return true;
  }
  bool eval(u64 y, u64& out) { u64 r = a.back(); for (size_t k = a.size() - 1; k-- > 0;) { if (r == 0) return false; r = radd(a[k], rmul(rsub(y, t[k]), rinv(r))); } out = r; return true; }
};
extern "C" void ff_harness(int, char** argv) {
  sym_expect_reach("end"); sym_expect_reach("finished");
  FFInt::set_new_prime(PRIME);
  int group = atoi(argv[1]);
  if (group == 0) {
    // n arbitrary samples with existing inverse differences, then one more sample of the interpolant at any other point
    int n = atoi(argv[2]); ThieleInterpolator t; Ref ref; std::vector<u64> ys, fs; bool done = false;
    static const u64 Y[] = {3, 7, 2, 5, 8, 4, 9};
    // the samples are parametrised by their inverse differences a_i (a bijection wherever those exist)
    std::vector<u64> av;
    for (int i = 0; i < n; ++i) {
      u64 r = su(nm("a", i), 0, PRIME - 1); av.push_back(r);
      for (int k = i - 1; k >= 0; --k) { sym_assume(r != 0); r = radd(av[k], rmul(rsub(Y[i], Y[k]), rinv(r))); }
      ref.t.push_back(Y[i]); ref.a.push_back(av[i]);
      done = t.add_point(F(r), F(Y[i])); ys.push_back(Y[i]); fs.push_back(r);
      sym_assert(!done, "the Thiele interpolation stops at a sample that differs from the interpolant");
    }
    u64 v; sym_assume(ref.eval(Y[n], v));
    done = t.add_point(F(v), F(Y[n])); ys.push_back(Y[n]); fs.push_back(v);
    sym_assert(done, "the Thiele interpolation does not stop at a sample that equals the interpolant");
    ThieleInterpolator c(t);
    auto r = t.get_result();
    for (size_t i = 0; i < ys.size(); ++i) { sym_assert(rmul(fs[i], evm(r.second, ys[i])) == evm(r.first, ys[i]), "finished Thiele interpolation does not reproduce a fed value"); }
    bool nz = false; for (auto& x : r.second) nz |= x.second.n != 0; sym_assert(nz, "the denominator of the Thiele interpolation vanishes identically");
    for (auto* m : {&r.first, &r.second}) for (auto& x : *m) sym_assert(x.first.size() == 1 && x.second.n < PRIME && x.first[0] <= (uint32_t)n / 2 + 1, "malformed Thiele result");
    u64 dn = 0, dd = 0; for (auto& x : r.first) dn = std::max<u64>(dn, x.first[0]); for (auto& x : r.second) dd = std::max<u64>(dd, x.first[0]);
    sym_assert(dn <= (u64)n / 2 && dd <= (u64)(n - 1) / 2, "the Thiele result has a larger degree than the number of samples determines");
    auto r2 = c.get_result(); sym_assert(r2.first == r.first && r2.second == r.second, "a copy of a Thiele interpolation gives another result");
    sym_reach("finished");
  } else {
    // samples of a rational function with numerator degree dn and denominator degree dd
    int dn = atoi(argv[2]), dd = atoi(argv[3]), need = dn > dd ? 2 * dn : 2 * dd + 1;
    std::vector<u64> n, d; for (int i = 0; i <= dn; ++i) n.push_back(su(nm("n", i), i == dn ? 1 : 0, PRIME - 1)); for (int i = 0; i < dd; ++i) d.push_back(su(nm("d", i), 0, PRIME - 1)); d.push_back(1);
    auto P = [&](const std::vector<u64>& c, u64 x) { u64 r = 0; for (size_t i = c.size(); i-- > 0;) r = radd(rmul(r, x), c[i]); return r; };
    ThieleInterpolator t; Ref ref; bool done = false;
    for (int i = 0; i < need + 1 && !done; ++i) {
      u64 y = 1 + i; u64 D = P(d, y); sym_assume(D != 0);
      u64 f = rmul(P(n, y), rinv(D));
      bool ok = ref.add(y, f);
      if (!ok) sym_assume(ref.last0 && i >= need); // no accidental coincidence of the samples
      done = t.add_point(F(f), F(y));
    }
    sym_assert(done, "the Thiele interpolation of a low-degree rational function does not terminate");
    auto r = t.get_result();
    u64 x = su("x", 0, PRIME - 1);
    sym_assert(rmul(evm(r.first, x), P(d, x)) == rmul(evm(r.second, x), P(n, x)), "Thiele result differs from the interpolated function");
    sym_reach("finished");
  }
  sym_reach("end");
}
