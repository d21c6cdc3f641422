// C19: distribution of queued probes; C20: orders and enumeration of exponent tuples; C21: prime table and random points
#include "util.h"
#include "firefly/utils.hpp"
#include "firefly/ReconstHelper.hpp"
#include "firefly/BaseReconst.hpp"
typedef std::vector<uint32_t> D;
// exact Miller-Rabin for 64-bit numbers (the first twelve primes as bases)
static bool isprime(u64 n) {
  static const u64 B[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};
  if (n < 2) return false; for (u64 b : B) if (n % b == 0) return n == b;
  u64 d = n - 1; int s = 0; while (d % 2 == 0) { d /= 2; ++s; }
  auto mm = [&](u64 a, u64 b) { return (u64)((unsigned __int128)a * b % n); };
  for (u64 b : B) { u64 x = 1, y = b, e = d; while (e) { if (e & 1) x = mm(x, y); y = mm(y, y); e >>= 1; }
    if (x == 1 || x == n - 1) continue; bool w = true; for (int i = 1; i < s && w; ++i) { x = mm(x, x); if (x == n - 1) w = false; } if (w) return false; }
  return true;
}
extern "C" void ff_harness(int argc, char** argv) {
  sym_expect_reach("end");
  int mode = atoi(argv[1]);
  if (mode == 0) { // bunch size: all queue lengths, numbers of threads and bunch size limits
    uint32_t thr = (uint32_t)sym_concretize(su("thr", atoi(argv[2]), atoi(argv[3]))), max = 1u << sym_concretize(su("log", 0, 7)), q = (uint32_t)su("queue", 1, 0x7fffffff);
    uint32_t b = compute_bunch_size(q, thr, max);
    sym_assert(b >= 1 && (b & (b - 1)) == 0, "the bunch size is not a power of two");
    sym_assert(b <= max, "the bunch size exceeds the limit");
    sym_assert(b <= q, "the bunch size exceeds the queue");
    if (thr > 1) sym_assert(b == max || (u64)b * thr >= q, "a round of bunches does not take the whole queue although the limit allows it");
  } else if (mode == 1) { // number of probes for the free threads
    uint32_t tot = (uint32_t)sym_concretize(su("total", 1, atoi(argv[2]))), thr = (uint32_t)sym_concretize(su("free", 0, tot)), max = 1u << sym_concretize(su("log", 0, 7)), q = (uint32_t)su("queue", 1, atoi(argv[3]));
    uint32_t n = compute_job_number(q, thr, tot, max), left = q;
    for (uint32_t i = 0; i < thr && left; ++i) left -= compute_bunch_size(left, tot, max);
    sym_assert(n <= q, "more probes are handed out than queued");
    sym_assert(n == q - left, "the number of probes handed out is not the sum of the bunches of the free threads");
    sym_assert(n >= (thr < q ? thr : q), "a free thread gets no probe although some are queued");
  } else if (mode == 2) { // orders on exponent vectors
    int n = atoi(argv[2]); bool bin = atoi(argv[3]); D a, b; for (int i = 0; i < n; ++i) { a.push_back((uint32_t)su(nm("a", i), 0, bin ? 1 : 0xffffffffu)); b.push_back((uint32_t)su(nm("b", i), 0, bin ? 1 : 0xffffffffu)); }
    bool gt = false, eq = true; for (int i = 0; i < n; ++i) { if (a[i] != b[i]) { gt = a[i] > b[i]; eq = false; } }
    sym_assert(a_grt_b(a, b) == gt, "colexicographic comparison is wrong"); sym_assert(a_eq_b(a, b) == eq, "equality of exponent vectors is wrong");
    if (bin) { int da = 0, db = 0; for (int i = 0; i < n; ++i) { da += a[i]; db += b[i]; }
      bool ab = a_grt_b_s(a, b), ba = a_grt_b_s(b, a); sym_assert(!(ab && ba) && (eq ? !ab : ab || ba), "the order of 0/1 tuples is not a strict total order");
      if (da != db) sym_assert(ab == (da > db), "the order of 0/1 tuples does not respect the number of ones"); }
  } else if (mode == 3) { // successor of a 0/1 tuple: first by the number of ones, then lexicographically; nothing is skipped
    int n = atoi(argv[2]); D a, t; for (int i = 0; i < n; ++i) { a.push_back((uint32_t)su(nm("a", i), 0, 1)); t.push_back((uint32_t)su(nm("t", i), 0, 1)); }
    auto key = [&](const D& v) { u64 w = 0, l = 0; for (auto x : v) { w += x; l = 2 * l + x; } return (w << 32) | l; };
    u64 ka = key(a); D c = a; auto r = generate_next_permutation(c); bool all = (ka >> 32) == (u64)n;
    sym_assert(r.first == !all, "the enumeration of shifts does not end exactly after the tuple of ones");
    sym_assert(r.second.size() == (size_t)n, "a shift has a wrong length");
    if (all) sym_assert((key(r.second) >> 32) == 0, "the final tuple is not zero");
    else { for (auto x : r.second) sym_assert(x <= 1, "a shift is not a 0/1 tuple"); u64 kr = key(r.second), kt = key(t); sym_assert(kr > ka, "the next shift does not come after the current one"); sym_assert(!(kt > ka && kt < kr), "a shift is skipped"); }
  } else if (mode == 4) { // all shifts except the one with every variable shifted, ordered by the number of ones
    int n = atoi(argv[2]); D t; u64 w = 0; for (int i = 0; i < n; ++i) { t.push_back((uint32_t)su(nm("t", i), 0, 1)); w += t[i]; }
    auto v = generate_possible_shifts(n); int hits = 0; int last = 0;
    for (auto& s : v) { sym_assert(s.size() == (size_t)n, "a shift has a wrong length"); bool e = true; int k = 0; for (int i = 0; i < n; ++i) { e = e & (s[i] == t[i]); k += s[i]; } hits += e; sym_assert(k >= last, "shifts are not ordered by the number of shifted variables"); last = k; }
    sym_assert(hits == (w == (u64)n ? 0 : 1), "a shift is missing or occurs twice");
  } else if (mode == 5) { // the prime table
    auto& p = primes(); sym_assert(p.size() == 300, "the prime table does not have 300 entries");
    u64 i = sym_concretize(su("i", 0, p.size() - 1)); u64 hi = i ? p[i - 1] : (1ull << 63);
    sym_assert(p[i] < (1ull << 63) && isprime(p[i]), "a modulus is not a 63-bit prime"); sym_assert(p[i] < hi, "the primes are not strictly descending");
    bool gap = false; for (u64 q = p[i] + 2; q < hi && q > p[i]; q += 2) gap = gap || isprime(q); sym_assert(!gap, "a prime is missing from the table");
  } else if (mode == 6) { // random points
    const u64 P[] = {2, 3, 5, 7, 31, 4294967291ull, 9223372036854775783ull}; FFInt::set_new_prime(P[sym_concretize(su("p", 0, 6))]);
    u64 seed = sym_concretize(su("seed", 0, 7)), k = sym_concretize(su("before", 0, 3)), other = sym_concretize(su("other", 0, 2)); if (atoi(argv[2])) seed = ~seed;
    BaseReconst a; a.set_seed(other); for (u64 i = 0; i < k; ++i) { a.get_rand_64(); a.get_rand_32(); }
    std::vector<u64> s[2];
    for (int r = 0; r < 2; ++r) { BaseReconst b; b.set_seed(seed); for (int i = 0; i < 12; ++i) { FFInt x = b.get_rand_64(), y = b.get_rand_32(); sym_assert(x.n > 0 && x.n < FFInt::p && y.n > 0 && y.n < FFInt::p, "a random field element is zero or not canonical"); s[r].push_back(x.n); s[r].push_back(y.n); s[r].push_back(b.get_rand().n); } if (!r) a.get_rand_32(); }
    sym_assert(s[0] == s[1], "random numbers are not determined by the seed");
    std::vector<u64> o; BaseReconst b; b.set_seed(seed + 1 + k); for (int i = 0; i < 12; ++i) { FFInt x = b.get_rand_64(), y = b.get_rand_32(); o.push_back(x.n); o.push_back(y.n); o.push_back(b.get_rand().n); }
    if (FFInt::p > 1000) sym_assert(s[0] != o, "different seeds give the same random numbers");
  }
  sym_reach("end");
}
