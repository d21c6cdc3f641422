// C09: dense linear algebra over the prime field
#include "util.h"
#include "firefly/DenseSolver.hpp"
typedef mat_ff<FFInt> M;
static M mk(const char* b, int n, int m) { M a(n, std::vector<FFInt>(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a[i][j] = sff(std::string(b) + std::to_string(i) + std::to_string(j)); return a; }
static u64 detr(const M& a, std::vector<int> rows, int col) { // cofactor expansion
  if (rows.size() == 1) return a[rows[0]][col].n;
  u64 r = 0;
  for (size_t k = 0; k < rows.size(); ++k) { std::vector<int> q = rows; q.erase(q.begin() + k); u64 t = rmul(a[rows[k]][col].n, detr(a, q, col + 1)); r = (k & 1) ? rsub(r, t) : radd(r, t); }
  return r;
}
static u64 det(const M& a, int n) { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(i); return detr(a, r, 0); }
extern "C" void ff_harness(int, char** argv) {
  sym_expect_reach("end");
  FFInt::set_new_prime(PRIME);
  const int GROUP = atoi(argv[1]), n = atoi(argv[2]);
if (GROUP == 0) {
  sym_expect_reach("singular");
  M a = mk("a", n, n + 1), o = a;
  u64 d = det(o, n);
  std::vector<FFInt> x; int ex;
  SYM_EXPECT_EXIT({ x = solve_gauss_system(a, n); }, ex);
  if (d == 0) { sym_assert(ex, "a singular system is solved without an error"); sym_reach("singular"); }
  else {
    sym_assert(!ex, "a regular system is refused");
    for (int i = 0; i < n; ++i) { u64 s = 0; for (int j = 0; j < n; ++j) s = radd(s, rmul(o[i][j].n, x[j].n)); sym_assert(s == o[i][n].n, "solve_gauss_system returns a vector that does not solve the system"); }
  }
} else if (GROUP == 1) {
  M a = mk("a", n, n), o = a; sym_assume(det(o, n) != 0);
  calc_inverse(a, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { u64 s = 0; for (int k = 0; k < n; ++k) s = radd(s, rmul(o[i][k].n, a[k][j].n)); sym_assert(s == (i == j ? 1u : 0u), "calc_inverse: A*A^-1 is not the unit matrix"); }
} else if (GROUP == 2) {
  M a = mk("a", n, n), o = a; u64 d = det(o, n); sym_assume(d != 0);
  std::vector<int> p; std::vector<FFInt> b; for (int i = 0; i < n; ++i) b.push_back(sff(nm("b", i)));
  calc_lu_decomposition(a, p, n);
  sym_assert(calc_determinant_lu(a, p, n).n == d, "calc_determinant_lu returns another value than the determinant");
  std::vector<FFInt> x = solve_lu(a, p, b, n);
  for (int i = 0; i < n; ++i) { u64 s = 0; for (int j = 0; j < n; ++j) s = radd(s, rmul(o[i][j].n, x[j].n)); sym_assert(s == b[i].n, "solve_lu returns a vector that does not solve the system"); }
} else {
  M a = mk("a", n, n), o = a; sym_assume(det(o, n) != 0);
  std::vector<int> p; M ia;
  calc_lu_decomposition(a, p, n);
  calc_inverse_lu(a, ia, p, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { u64 s = 0; for (int k = 0; k < n; ++k) s = radd(s, rmul(o[i][k].n, ia[k][j].n)); sym_assert(s == (i == j ? 1u : 0u), "calc_inverse_lu: A*A^-1 is not the unit matrix"); }
}
  sym_reach("end");
}
