// C05: RationalNumber is an exact field element in lowest terms
#include "ffsym.h"
#include "firefly/RationalNumber.hpp"
#include <sstream>
using namespace firefly;
#ifndef NB
#define NB 6
#endif
static mpz_class mk(const char* n, long lo, long hi) { long v = (long)sym_u64(n, 0, hi - lo) + lo; return mpz_class(v); }
static bool normal(const RationalNumber& r) { return r.denominator > 0 && gcd(r.numerator, r.denominator) == 1; }
extern "C" void ff_harness(int argc, char** argv) {
  sym_expect_reach("end");
  mpz_class a = mk("a", -NB, NB), b = mk("b", -NB, NB), c = mk("c", -NB, NB), d = mk("d", -NB, NB);
  sym_assume(b != 0); sym_assume(d != 0);
  RationalNumber x(a, b), y(c, d);
  sym_assert(normal(x), "constructed rational is not in lowest terms with positive denominator");
  sym_assert(x.numerator * b == a * x.denominator, "constructed rational has another value");
  int op = OP;
  if (op == 0) { RationalNumber z = x; z += y; sym_assert(normal(z), "+= not in lowest terms"); sym_assert(z.numerator * b * d == (a * d + c * b) * z.denominator, "+= wrong value"); }
  if (op == 1) { RationalNumber z = x; z -= y; sym_assert(normal(z), "-= not in lowest terms"); sym_assert(z.numerator * b * d == (a * d - c * b) * z.denominator, "-= wrong value"); }
  if (op == 2) { RationalNumber z = x; z *= y; sym_assert(normal(z), "*= not in lowest terms"); sym_assert(z.numerator * b * d == (a * c) * z.denominator, "*= wrong value"); }
  if (op == 3) { RationalNumber z = -x; sym_assert(normal(z), "negation not in lowest terms"); sym_assert(z.numerator * b == -a * z.denominator, "negation wrong value");
    sym_assert((x == y) == (a * d == c * b), "equality differs from equality of values"); }
  if (op == 4) { const RationalNumber x0 = x, y0 = y; RationalNumber z = x * y; sym_assert(normal(z), "product not in lowest terms"); sym_assert(z.numerator * b * d == (a * c) * z.denominator, "product has a wrong value");
    sym_assert(x == x0 && y == y0, "a product modifies an operand"); }
  if (op == 5) { RationalNumber z = gcd(x, y); // the largest rational number of which both are integer multiples
    sym_assert(z.denominator > 0 && z.numerator >= 0 && gcd(z.numerator, z.denominator) == 1, "the gcd is not in lowest terms");
    if (z.numerator == 0) sym_assert(a == 0 && c == 0, "the gcd vanishes");
    else { mpz_class m = x.numerator * z.denominator, mm = x.denominator * z.numerator, k = y.numerator * z.denominator, kk = y.denominator * z.numerator;
      sym_assert(m % mm == 0 && k % kk == 0, "the gcd does not divide both arguments");
      mpz_class u = m / mm, v = k / kk; sym_assert(gcd(u, v) == 1, "the gcd is not the greatest common divisor"); } }
  if (op == 6) { // printed forms: parentheses around everything that is not a positive number or quotient, the value inside
    for (int k = 0; k < 2; ++k) {
      std::string t; if (k == 0) t = x.string(); else { std::stringstream ss; ss << x; t = ss.str(); }
      bool par = !t.empty() && t.front() == '('; if (par) { sym_assert(t.back() == ')', "the printed form of a rational number has unbalanced parentheses"); t = t.substr(1, t.size() - 2); }
      sym_assert(par || a * b > 0, "the printed form of a rational number that is not positive has no parentheses");
      size_t i = t.find('/'); std::string ns = t.substr(0, i), ds = i == std::string::npos ? "1" : t.substr(i + 1);
      sym_assert(mpz_class(std::stol(ns)) == x.numerator && mpz_class(std::stol(ds)) == x.denominator, "the printed form of a rational number has another value");
    } }
  sym_reach("end");
}
