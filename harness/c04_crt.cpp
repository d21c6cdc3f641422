// C04: Chinese remaindering
#include "util.h"
#include "firefly/utils.hpp"
#include "firefly/ReconstHelper.hpp"
static mpz_class Z(u64 v) { return mpz_class((unsigned long)v); }
static mpz_class M(const std::string& s) { std::string t = s; size_t i = t.find('*'); if (i == std::string::npos) return mpz_class(t); mpz_class a = M(t.substr(0, i)), b = M(t.substr(i + 1)); return a * b; }
extern "C" void ff_harness(int argc, char** argv) {
  sym_expect_reach("end");
  mpz_class m1 = M(argv[1]), m2 = M(argv[2]), r1, r2; u64 w = argc > 3 ? std::stoull(argv[3]) : 0;
  auto res = [&](const char* n, const mpz_class& m) { // the residue: all values, or a window of w values at the start, middle or end of the range
    if (!w) return Z(su(n, 0, m.get_ui() - 1));
    u64 place = sym_concretize(su(std::string(n) + "p", 0, 2)); u64 o = su(n, 0, w - 1); if (argc > 4) o = sym_concretize(o);
    mpz_class r = m - 1 - Z(o); if (place == 0) r = Z(o); if (place == 1) r = m / 2 + Z(o); return r; };
  r1 = res("r", m1); r2 = res("s", m2);
  auto a = run_chinese_remainder({r1, m1}, {r2, m2});
  sym_assert(a.second == m1 * m2, "the combined modulus is not the product");
  sym_assert(a.first >= 0 && a.first < m1 * m2, "the combined residue is not canonical");
  sym_assert(a.first % m1 == r1, "the combined residue has a wrong residue for the first modulus");
  sym_assert(a.first % m2 == r2, "the combined residue has a wrong residue for the second modulus");
  sym_reach("end");
}
