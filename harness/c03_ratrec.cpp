// C03: reconstruction of rational numbers from residues
#include "util.h"
#include "firefly/utils.hpp"
#include "firefly/ReconstHelper.hpp"
#include "firefly/RationalNumber.hpp"
static mpz_class Z(u64 v) { return mpz_class((unsigned long)v); }
static mpz_class modulus(char** argv) { std::string t = argv[3]; mpz_class p(t); return p; }
extern "C" void ff_harness(int argc, char** argv) {
  sym_expect_reach("end");
  int mode = atoi(argv[1]); bool mq = atoi(argv[2]); mpz_class p = modulus(argv);
  if (mode == 0) { // every residue: an accepted result solves the congruence within the bounds
    sym_expect_reach("accepted"); sym_expect_reach("refused");
    u64 P = std::stoull(argv[3]); u64 a = su("a", 0, argc > 4 ? std::stoull(argv[4]) : P - 1);
    auto r = mq ? get_rational_coef_mqrr(Z(a), p) : get_rational_coef(Z(a), p);
    mpz_class n = r.second.numerator, d = r.second.denominator;
    sym_assert(d > 0, "a reconstructed rational number has a non-positive denominator");
    if (r.first) {
      sym_assert((n - d * Z(a)) % p == 0, "a reconstructed rational number does not have the given residue");
      sym_assert(gcd(n, d) == 1, "a reconstructed rational number is not in lowest terms");
      if (!mq) sym_assert(2 * n * n <= p && 2 * d * d <= p, "a reconstructed rational number exceeds the bound for uniqueness");
      sym_reach("accepted");
    } else sym_reach("refused");
  } else { // every rational number within the bound is found
    i64 B = atoll(argv[4]); i64 N0 = argc > 5 ? atoll(argv[5]) : 0;
    u64 d = sym_concretize(su("d", 1, B)); i64 n = (i64)su("n", 0, 2 * B) - B;
    n += n < 0 ? -N0 : N0;
    mpz_class dm = Z(d), inv; mpz_invert(inv.get_mpz_t(), dm.get_mpz_t(), p.get_mpz_t());
    mpz_class a = (mpz_class((long)n) * inv) % p; if (a < 0) a += p;
    auto r = mq ? get_rational_coef_mqrr(a, p) : get_rational_coef(a, p);
    sym_assert(r.first, "a rational number within the bound is not found");
    sym_assert(r.second.denominator > 0 && r.second.numerator * dm == mpz_class((long)n) * r.second.denominator, "a rational number within the bound is reconstructed wrongly");
    sym_assert(gcd(r.second.numerator, r.second.denominator) == 1, "a reconstructed rational number is not in lowest terms");
  }
  sym_reach("end");
}
