// C16: complete reconstructions of black boxes with symbolic coefficients under a scheduler
#include "util.h"
#include "ffsched.h"
#include "firefly/Reconstructor.hpp"
#include <sstream>
struct Term { std::vector<uint32_t> e; mpz_class c; u64 sym; bool is; }; // coefficient c, or c plus the input sym - B
typedef std::vector<Term> Pol;
static int N, B;
static std::vector<std::pair<Pol, Pol>> fs;
static mpz_class Z(i64 v) { return mpz_class((long)v); }
static mpz_class ival(const Term& t) { mpz_class r(t.c); if (t.is) r += Z((i64)t.sym - B); return r; }
static FFInt fval(const Term& t) { FFInt c(t.c); if (t.is) { FFInt r, b; r.n = t.sym; b.n = B; c += r - b; } return c; }
static Pol parse(const std::string& s, int& k) {
  Pol p; std::stringstream ss(s); std::string w;
  while (std::getline(ss, w, '+')) { Term t; size_t c = w.find(':'); std::string co = w.substr(0, c); t.is = co[0] == 's'; t.c = mpz_class(t.is ? co.size() > 1 ? co.substr(1) : std::string("0") : co); t.sym = t.is ? su(nm("c", k++), 0, 2 * B) : 0; for (char x : w.substr(c + 1)) t.e.push_back(x - '0'); p.push_back(t); }
  return p;
}
namespace firefly {
struct BB : public BlackBoxBase<BB> {
  std::vector<std::pair<std::vector<FFInt>, std::vector<FFInt>>> c;
  BB() { }
  template<typename F> F pol(const std::vector<F>& v, const Pol& p, const std::vector<FFInt>& k) { F r(0); for (size_t i = 0; i < p.size(); ++i) { F m(k[i]); for (int j = 0; j < N; ++j) for (uint32_t e = 0; e < p[i].e[j]; ++e) m *= v[j]; r += m; } return r; }
  template<typename F> std::vector<F> operator()(const std::vector<F>& v) { std::vector<F> r; for (size_t i = 0; i < fs.size(); ++i) r.push_back(pol(v, fs[i].first, c[i].first) / pol(v, fs[i].second, c[i].second)); return r; }
  void prime_changed() { c.clear(); for (auto& f : fs) { std::vector<FFInt> a, b; for (auto& t : f.first) a.push_back(fval(t)); for (auto& t : f.second) b.push_back(fval(t)); c.emplace_back(a, b); } }
};
}
typedef std::map<std::vector<uint32_t>, mpz_class> ZP;
static void add(ZP& z, const std::vector<uint32_t>& a, const std::vector<uint32_t>& b, const mpz_class& c) { std::vector<uint32_t> e(N); for (int i = 0; i < N; ++i) e[i] = a[i] + b[i]; z[e] = z[e] + c; }
// res == f as rational functions: res.num * f.den == f.num * res.den
static bool equal(const RationalFunction& r, const std::pair<Pol, Pol>& f) {
  mpz_class L(1); for (auto& m : r.numerator.coefs) L *= m.coef.denominator; for (auto& m : r.denominator.coefs) L *= m.coef.denominator;
  ZP d; bool nz = false;
  for (auto& m : r.numerator.coefs) for (auto& t : f.second) { mpz_class q(L / m.coef.denominator); mpz_class v(q * m.coef.numerator); mpz_class w(v * ival(t)); add(d, m.powers, t.e, w); }
  for (auto& m : r.denominator.coefs) for (auto& t : f.first) { mpz_class q(L / m.coef.denominator); mpz_class v(q * m.coef.numerator); mpz_class w(v * ival(t)); w = Z(0) - w; add(d, m.powers, t.e, w); }
  for (auto& m : r.denominator.coefs) nz = nz || m.coef.numerator != 0;
  bool z = true; for (auto& x : d) z = z && x.second == 0;
  return z && nz;
}
extern "C" void ff_harness(int argc, char** argv) {
  sym_expect_reach("end");
  // spec n threads bunch flags B preemptions seed
  std::string spec = argv[1]; N = atoi(argv[2]); int thr = atoi(argv[3]), bunch = atoi(argv[4]); std::string flags = argv[5]; B = atoi(argv[6]); int pre = atoi(argv[7]); sched_time(atoi(argv[8]));
  int k = 0; { std::stringstream ss(spec); std::string w; while (std::getline(ss, w, ';')) { size_t s = w.find('/'); Pol a = parse(w.substr(0, s), k), b = s == std::string::npos ? parse("1:" + std::string(N, '0'), k) : parse(w.substr(s + 1), k); fs.emplace_back(a, b); } }
  for (auto& f : fs) { bool nz = false; for (auto& t : f.second) nz = nz || t.c != 0; if (!nz) { bool any = false; for (auto& t : f.second) any = any | (t.sym != (u64)B); sym_assume(any); } }
  sched_begin(pre, 1000000, flags.find('d') != std::string::npos);
  {
    BB bb; std::vector<RationalFunction> res; bool done, early = false;
    { Reconstructor<BB> r(N, thr, bunch, bb, Reconstructor<BB>::SILENT);
      if (flags.find('s') != std::string::npos) r.enable_shift_scan();
      if (flags.find('f') != std::string::npos) r.enable_factor_scan();
      if (flags.find('S') != std::string::npos) r.set_safe_interpolation();
      size_t lim = flags.find('p');
      if (lim != std::string::npos) { // at most so many primes, then what is finished by then
        r.reconstruct(flags[lim + 1] - '0'); done = r.reconstruction_done();
        int fin = 0; for (auto& x : r.get_early_results()) { size_t i = atoi(x.first.c_str()); ++fin; sym_assert(i < fs.size() && equal(x.second, fs[i]), "an early result differs from the black box"); }
        if (fin == (int)fs.size()) sym_reach("all"); else sym_reach("some missing");
        early = true;
      } else { r.reconstruct(); done = r.reconstruction_done(); res = r.get_result(); } }
    if (!early) {
    sym_assert(done, "the reconstruction returns without being done");
    sym_assert(res.size() == fs.size(), "the number of results is not the number of functions");
    for (size_t i = 0; i < fs.size(); ++i) sym_assert(equal(res[i], fs[i]), "a reconstructed function differs from the black box");
    }
  }
  sym_assert(sched_alive() == 0, "a thread is left behind");
  sched_end();
  sym_reach("end");
}
