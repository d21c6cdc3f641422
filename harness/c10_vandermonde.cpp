// C10: the (shifted) transposed Vandermonde solver recovers the coefficients
#include "util.h"
#include "firefly/utils.hpp"
#include "firefly/PolynomialFF.hpp"
#include "firefly/ReconstHelper.hpp"
extern "C" void ff_harness(int, char** argv) {
  sym_expect_reach("end");
  const int NVAR = atoi(argv[1]), NT = atoi(argv[2]);
  FFInt::set_new_prime(PRIME);
  // unknown polynomial sum_k c_k * z^deg_k, sampled at z = val^1, val^2, ..., val^m
  std::vector<std::vector<uint32_t>> degs;
  if (NVAR == 1) degs = {{0, 0}, {0, 1}, {0, 3}, {0, 2}, {0, 5}};
  else if (NVAR == 2) degs = {{3, 0, 0}, {2, 1, 0}, {1, 1, 1}, {0, 0, 3}};
  else degs = {{1, 0, 0, 2}, {0, 1, 1, 0}, {0, 0, 3, 1}, {2, 1, 0, 1}};
  if (argv[3]) for (auto& d : degs) for (auto& x : d) x *= atoi(argv[3]); // high powers
  degs.resize(NT);
  std::vector<FFInt> val; for (int i = 0; i < NVAR; ++i) val.push_back(sff(nm("z", i), 1));
  std::vector<u64> c, v; for (int k = 0; k < NT; ++k) { c.push_back(su(nm("c", k), 0, PRIME - 1)); u64 m = 1; for (int i = 0; i < NVAR; ++i) m = rmul(m, rpow(val[i].n, degs[k][i + 1])); v.push_back(m); }
  for (int i = 0; i < NT; ++i) for (int j = 0; j < i; ++j) sym_assume(v[i] != v[j]); // regular system
  std::vector<FFInt> nums;
  for (int i = 1; i <= NT; ++i) { u64 s = 0; for (int k = 0; k < NT; ++k) s = radd(s, rmul(c[k], rpow(v[k], i))); FFInt f; f.n = s; nums.push_back(f); }
  PolynomialFF r = solve_vandermonde_system(degs, nums, val);
  sym_assert((int)r.coefs.size() == NT && (int)r.n == NVAR + 1, "solve_vandermonde_system returns another set of monomials");
  for (int k = 0; k < NT; ++k) { auto it = r.coefs.find(degs[k]); sym_assert(it != r.coefs.end() && it->second.n == c[k], "solve_vandermonde_system returns a wrong coefficient"); }
  sym_reach("end");
}
