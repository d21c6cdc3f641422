PRE = '''#include "firefly/FFInt.hpp"
#include "firefly/ReconstHelper.hpp"
#include "firefly/utils.hpp"
#include <cstdio>
#include <cstdlib>
using namespace firefly;
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); return 1; } } while (0)
'''
S("rational_add_equal_denominators", "C05",
  [("source/RationalNumber.cpp", '''    } else numerator += rn.numerator;

    mpz_class gcd_(gcd(numerator, denominator));''', '''    } else {
      numerator += rn.numerator;

      // nothing to cancel for integers or an odd denominator increment
      if (denominator == 1 || rn.numerator < 0) return *this;
    }

    mpz_class gcd_(gcd(numerator, denominator));''')],
  PRE + '''#include "firefly/RationalNumber.hpp"
int main() { RationalNumber a(mpz_class(5), mpz_class(6)), b(mpz_class(-1), mpz_class(6)); a += b; CHECK(a == RationalNumber(mpz_class(2), mpz_class(3))); return 0; }''',
  "adding a negative rational with the same non-trivial denominator such that the sum can be reduced", "the sum is left unreduced and compares unequal to its value")
S("polyff_sum_keeps_zero", "C06",
  [("source/PolynomialFF.cpp", '''      for (const auto & el : a.coefs) {
        auto got = new_coefs.find(el.first);

        if (got == new_coefs.end()) {
          new_coefs.emplace(el);
        } else {
          got -> second += el.second;

          if (got -> second == 0)
            new_coefs.erase(el.first);
        }
      }''', '''      for (const auto & el : a.coefs) {
        auto got = new_coefs.emplace(el);

        if (!got.second)
          got.first -> second += el.second;
      }''')],
  PRE + '''#include "firefly/PolynomialFF.hpp"
int main() { FFInt::set_new_prime(primes()[0]); ff_map a, b; a.emplace(std::make_pair(std::vector<uint32_t>{1}, FFInt(3))); b.emplace(std::make_pair(std::vector<uint32_t>{1}, FFInt(-3))); b.emplace(std::make_pair(std::vector<uint32_t>{2}, FFInt(1)));
 PolynomialFF s = PolynomialFF(1, a) + PolynomialFF(1, b); CHECK(s.coefs.size() == 1); return 0; }''',
  "left operand with fewer terms than the right one and a coefficient that cancels", "a vanishing term stays in the sum")
S("poly_division_trailing_zeros", "C07",
  [("source/Poly.cpp", '''    size_t exp = m - s.get_deg();
    s.rev();

    for (size_t i = 1; i <= exp; i++) {''', '''    size_t exp = m - s.get_deg();
    s.rev();

    // restore the vanishing low coefficients dropped by the reversal
    for (size_t i = 1; i < exp; i++) {''')],
  PRE + '''#include "firefly/Poly.hpp"
int main() { FFInt::set_new_prime(primes()[0]); std::vector<FFInt> a{FFInt(0), FFInt(1), FFInt(1)}, b{FFInt(1), FFInt(1)}; // x^2 + x = x * (x + 1)
 auto r = fast_euclidean_division(Poly(a), Poly(b)); CHECK(r.first.get_deg() == 1 && r.first.coeff[0] == FFInt(0) && r.first.coeff[1] == FFInt(1)); return 0; }''',
  "a quotient whose constant coefficient vanishes", "quotient and remainder of the division are wrong")
S("lu_determinant_sign", "C09",
  [("source/include/firefly/DenseSolver.hpp", '''        p[n]++;''', '''        p[n] = n + 1;''')],
  PRE + '''#include "firefly/DenseSolver.hpp"
int main() { FFInt::set_new_prime(primes()[0]); mat_ff<FFInt> a{{FFInt(0), FFInt(2), FFInt(3)}, {FFInt(1), FFInt(0), FFInt(1)}, {FFInt(5), FFInt(7), FFInt(1)}}; // det = 0*(0-7) - 2*(1-5) + 3*(7-0) = 29
 std::vector<int> p; calc_lu_decomposition(a, p, 3); CHECK(calc_determinant_lu(a, p, 3) == FFInt(29)); mat_ff<FFInt> c{{FFInt(1), FFInt(2), FFInt(3)}, {FFInt(2), FFInt(5), FFInt(4)}, {FFInt(3), FFInt(1), FFInt(9)}};
 calc_lu_decomposition(c, p, 3); FFInt d = calc_determinant_lu(c, p, 3); CHECK(d == FFInt(1*(45-4) - 2*(18-12) + 3*(2-15))); mat_ff<FFInt> e{{FFInt(0), FFInt(1), FFInt(0)}, {FFInt(0), FFInt(0), FFInt(1)}, {FFInt(1), FFInt(0), FFInt(0)}}; calc_lu_decomposition(e, p, 3); CHECK(calc_determinant_lu(e, p, 3) == FFInt(1)); return 0; }''',
  "a matrix whose elimination needs two row exchanges", "the determinant has the wrong sign")
S("ffintvec_scalar_sub_alias", "C02",
  [("source/FFIntVec.cpp", '''  template<int N>
  bool operator!=(const FFIntVec<N>& a, const FFIntVec<N>& b) {
    return a.vec != b.vec;
  }''', '''  template<int N>
  bool operator!=(const FFIntVec<N>& a, const FFIntVec<N>& b) {
    // lanes are filled from the front, so decide on the ends first
    return a.vec.front() != b.vec.front() || a.vec.back() != b.vec.back();
  }''')],
  PRE + '''#include "firefly/FFIntVec.hpp"
int main() { FFInt::set_new_prime(primes()[0]); FFIntVec<4> a(FFInt(3)), b(FFInt(3)); b[1] = FFInt(4); CHECK(a != b); return 0; }''',
  "two bunches with at least four lanes differing in an inner lane only", "unequal bunches compare as equal")
S("thiele_vanishing_first_sample", "C08",
  [("source/FFThieleInterpolator.cpp", '''      FFInt mti = -ti[0];
      return''', '''      FFInt mti = -ti[0];

      // nothing to add for a vanishing leading coefficient
      if (ai[0] == 0)
        return std::make_pair(r.second.mul(1).coefs, r.first.coefs);

      return''')],
  PRE + '''#include "firefly/FFThieleInterpolator.hpp"
#include "firefly/PolynomialFF.hpp"
static FFInt ev(const ff_map& m, FFInt x) { FFInt r(0); for (auto& t : m) r += t.second * x.pow(t.first[0]); return r; }
int main() { FFInt::set_new_prime(primes()[0]); ThieleInterpolator t; bool done = false;
 auto f = [](FFInt x) { return (x - FFInt(5)) / (x + FFInt(9)); };
 for (int i = 5; i < 15 && !done; ++i) done = t.add_point(f(FFInt(i)), FFInt(i)); CHECK(done); auto r = t.get_result(); for (int i = 30; i < 36; ++i) CHECK(ev(r.first, FFInt(i)) == f(FFInt(i)) * ev(r.second, FFInt(i))); return 0; }''',
  "a function that vanishes at the first sample point", "the numerator of the result is wrong")
