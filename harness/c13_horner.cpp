// C13: printed polynomials and rational functions (monomial sums and Horner forms) evaluate, through the parser, to the function
#include "util.h"
#include "firefly/HornerGenerator.hpp"
#include "firefly/PolynomialFF.hpp"
#include "firefly/Polynomial.hpp"
#include "firefly/RationalFunction.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/BaseReconst.hpp"
#include "firefly/ReconstHelper.hpp"
#include "firefly/utils.hpp"
#include <map>
typedef std::vector<uint32_t> D;
typedef std::vector<std::string> VS;
// coefficient menu: text of numerator and denominator
static const char* CN[] = {"1", "-1", "2", "-3", "1", "-2", "12345678901234567890", "-5", "0"};
static const char* CD[] = {"1", "1", "1", "1", "2", "3", "1", "12345678901234567891", "1"};
static u64 modstr(const char* s) { bool n = *s == '-'; if (n) ++s; u64 r = 0; for (; *s; ++s) r = (r * 10 + (u64)(*s - '0')) % PRIME; return n && r ? PRIME - r : r; }
struct Q { int i; u64 val() const { return rmul(modstr(CN[i]), rinv(modstr(CD[i]))); } RationalNumber rn() const { return RationalNumber(mpz_class(std::string(CN[i])), mpz_class(std::string(CD[i]))); } };
struct T { D d; Q c; };
static const D SUP[3][9] = {{{0}, {1}, {2}, {3}, {5}, {4}, {7}, {11}, {6}}, {{0, 0}, {1, 0}, {0, 1}, {2, 1}, {1, 3}, {0, 2}, {3, 0}, {4, 4}, {0, 5}}, {{0, 0, 0}, {1, 0, 0}, {0, 1, 1}, {2, 0, 3}, {0, 0, 1}, {0, 2, 0}, {1, 1, 1}, {3, 0, 0}, {1, 0, 2}}};
static std::vector<T> poly(const std::string& b, int nv, int nt, int ns, int nc) {
  std::vector<T> r; int lo = 0;
  for (int k = 0; k < nt; ++k) {
    if (lo >= ns) break;
    int s = (int)sym_concretize(su(b + "s" + std::to_string(k), lo, ns)); if (s == ns) break; lo = s + 1;
    r.push_back({SUP[nv - 1][s], {(int)sym_concretize(su(b + "c" + std::to_string(k), 0, nc - 1))}});
  }
  return r;
}
static u64 ev(const std::vector<T>& p, const std::vector<u64>& x) { u64 r = 0; for (auto& t : p) { u64 m = t.c.val(); for (size_t i = 0; i < t.d.size(); ++i) m = rmul(m, rpow(x[i], t.d[i])); r = radd(r, m); } return r; }
static rn_map rnm(const std::vector<T>& p) { rn_map m; for (auto& t : p) m.emplace(t.d, t.c.rn()); return m; }
static u64 evs(const std::string& s, const VS& vars, const std::vector<u64>& x) {
  sym_note(s.c_str());
  std::vector<FFInt> v; for (auto a : x) { FFInt f; f.n = a; v.push_back(f); }
  VS f = {s}; ShuntingYardParser p(f, vars); return p.evaluate_pre(v)[0].n;
}
static FFInt F(u64 n) { FFInt f; f.n = n; return f; }
extern "C" void ff_harness(int, char** argv) {
  sym_expect_reach("end");
  FFInt::set_new_prime(PRIME);
  int mode = atoi(argv[1]), nv = atoi(argv[2]), nt = atoi(argv[3]), ns = atoi(argv[4]), nc = atoi(argv[5]);
  VS vars; for (int i = 0; i < nv; ++i) vars.push_back(i == 1 ? "yb2" : std::string(1, "xyz"[i]));
  std::vector<u64> x; for (int i = 0; i < nv; ++i) x.push_back(su(nm("x", i), 0, PRIME - 1));
  if (mode == 0) { // polynomials over the rationals
    auto p = poly("p", nv, nt, ns, nc); u64 want = ev(p, x);
    sym_assert(evs(generate_horner_rn(rnm(p), vars), vars, x) == want, "a rational Horner form has a wrong value");
    Polynomial P(rnm(p)); sym_assert(evs(P.to_string(vars), vars, x) == want, "a printed polynomial has a wrong value");
    P.sort(); sym_assert(evs(P.to_string(vars), vars, x) == want, "a sorted printed polynomial has a wrong value");
    if (!p.empty()) { sym_assert(evs(P.generate_horner(vars), vars, x) == want, "the Horner form of a polynomial has a wrong value");
      std::vector<FFInt> v; for (auto a : x) v.push_back(F(a)); PolynomialFF q = P.convert_to_PolynomialFF(); sym_assert(q.calc(v).n == want, "the image of a polynomial in the prime field has a wrong value"); }
  } else if (mode == 1) { // polynomials over the field
    ff_map m; u64 want = 0; int lo = 0; static const u64 C[] = {1, 2, 30, 17};
    for (int k = 0; k < nt && lo < ns; ++k) { int s = (int)sym_concretize(su(nm("s", k), lo, ns)); if (s == ns) break; lo = s + 1; u64 c = C[sym_concretize(su(nm("c", k), 0, nc - 1))]; D d = SUP[nv - 1][s]; m.emplace(d, F(c)); u64 t = c; for (int i = 0; i < nv; ++i) t = rmul(t, rpow(x[i], d[i])); want = radd(want, t); }
    sym_assert(evs(generate_horner_ff(m, vars), vars, x) == want, "a Horner form over the field has a wrong value");
    PolynomialFF p(nv, m); sym_assert(evs(p.to_string(vars), vars, x) == want, "a printed field polynomial has a wrong value");
  } else if (mode == 2) { // evaluation of long polynomials through their Horner form: nt terms, first variable set to one
    u64 a = sym_concretize(su("a", 1, 3)), b = sym_concretize(su("b", 0, 2)); ff_map m; u64 want = 0; int side = nv == 2 ? nt : nv == 3 ? 8 : 4;
    for (int k = 0; k < nt; ++k) { u64 c = 1 + (k * a + b * k * k) % (PRIME - 1); D d(nv, 0); int r = k; for (int i = 1; i < nv; ++i) { d[i] = r % side; r /= side; } d[0] = 70 - k; m.emplace(d, F(c)); u64 t = c; for (int i = 1; i < nv; ++i) t = rmul(t, rpow(x[i - 1], d[i])); want = radd(want, t); }
    if (ns) { D d(nv, 0); d[1] = 1; d[0] = 3; m.emplace(d, F(5)); want = radd(want, rmul(5, x[0])); } // the same powers of the remaining variables twice
    std::vector<FFInt> v; for (int i = 0; i < nv - 1; ++i) v.push_back(F(x[i]));
    PolynomialFF p(nv, m);
    sym_assert(p.calc_n_m_1(v).n == want, "evaluating a long polynomial gives a wrong value"); sym_assert(p.calc_n_m_1(v).n == want, "evaluating a long polynomial again gives a wrong value");
  } else { // rational functions; mode bit 0: with reordered variables, bit 1: factors
    bool ord = mode & 1, fac = mode & 2;
    auto n = poly("n", nv, nt, ns, nc), d = poly("d", nv, nt, ns, nc);
    RationalFunction rf{Polynomial(rnm(n)), Polynomial(rnm(d))};
    std::vector<u64> y = x; if (ord) { static const int PERM[2][3] = {{1, 0, 2}, {1, 2, 0}}; std::unordered_map<uint32_t, uint32_t> o; for (int i = 0; i < nv; ++i) { o[i] = PERM[nv - 2][i]; y[i] = x[PERM[nv - 2][i]]; } rf.set_var_order(o); }
    u64 num = ev(n, y), den = d.empty() ? 1 : ev(d, y);
    if (fac) for (int k = 0; k < nv; ++k) {
      auto fn = poly("fn" + std::to_string(k), 1, 1, 3, 2), fd = poly("fd" + std::to_string(k), 1, 1, 2, 1);
      Polynomial a(rnm(fn)), b(rnm(fd)); a.set_var_pos(k); b.set_var_pos(k); rf.add_factor(RationalFunction(a, b));
      std::vector<u64> z = {x[k]}; if (!fn.empty()) num = rmul(num, ev(fn, z)); if (!fd.empty()) den = rmul(den, ev(fd, z));
    }
    sym_assume(den != 0); u64 want = rmul(num, rinv(den));
    sym_assert(evs(rf.to_string(vars), vars, x) == want, "a printed rational function has a wrong value");
    sym_assert(evs(rf.generate_horner(vars), vars, x) == want, "the Horner form of a rational function has a wrong value");
  }
  sym_reach("end");
}
