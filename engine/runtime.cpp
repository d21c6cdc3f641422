// ffsym runtime: concolic symbolic execution over Z3.  See ENGINE.md.
#include <z3++.h>
#include <gmpxx.h>
#include <iostream>
#include <functional>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <chrono>
#include <setjmp.h>
#include <execinfo.h>
#include <signal.h>
#include <unistd.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <fcntl.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef unsigned _BitInt(256) u128; // "wide" concrete value: expressions have up to 256 bits
typedef signed _BitInt(256) s128;
static const unsigned WMAX = 256;

enum Op { O_ADD = 1, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
          O_UMIN, O_UMAX, O_SMIN, O_SMAX, O_UADDSAT, O_USUBSAT,
          O_UADDO, O_USUBO, O_UMULO, O_SADDO, O_SSUBO, O_SMULO };
enum Pred { P_EQ = 1, P_NE, P_ULT, P_ULE, P_UGT, P_UGE, P_SLT, P_SLE, P_SGT, P_SGE };
enum Cast { C_ZEXT = 1, C_SEXT, C_TRUNC };
enum Un { U_BSWAP = 1, U_CTPOP, U_CTLZ, U_CTTZ, U_ABS };
enum FpOp { F_UITOFP = 1, F_SITOFP, F_FPTOUI, F_FPTOSI, F_ADD, F_SUB, F_MUL, F_DIV, F_EXT, F_TRUNC };

// expression kinds; binary ops use Op codes directly
enum Kind : u8 { K_CONST = 100, K_VAR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_NOT, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT, K_MODMUL, K_MODINV, K_MODADD, K_MODSUB, K_FZERO,
  K_FP_FROMU, K_FP_FROMS, K_FP_BIN, K_FP_CONST, K_FP_TOU, K_FP_TOS, K_FP_CVT };

struct Expr {
  u8 kind; u8 fpop; unsigned short w; u32 aux; // aux: var index / extract offset / modulus index / fp format
  Expr *a, *b, *c;
  u128 val;      // concrete value on this run (ints)
  long double fval = 0;
  u128 lo, hi;   // unsigned interval
  s128 slo, shi; // signed interval
  u32 id;
  int z = -1;    // cache of full translation (index in zcache)
};

// ------------------------------------------------------------------ globals shared with instrumented code
extern "C" {
Expr* _sym_args[64];
void* _sym_callee;
Expr* _sym_ret[64];
void* _sym_ret_fn;
jmp_buf sym_exit_buf;
int sym_exit_armed;
extern const char* _sym_fn_names[] __attribute__((weak));
extern const u32 _sym_fn_count __attribute__((weak));
void ff_harness(int, char**);
}

static inline u128 maskw(unsigned w) { return w >= WMAX ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx(u128 v, unsigned w) { if (w >= WMAX) return (s128)v; u128 m = (u128)1 << (w - 1); return (s128)((v ^ m) - m); }
static unsigned nbits(u128 v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n ? n : 1; }

// ------------------------------------------------------------------ options
static struct Opt {
  int jobs = 8; double budget = 300; int qtimeout = 10000; int path_s = 120; long maxpaths = 1000000000L; std::string out; std::string seedfile;
  bool stop_first = true; int fp = 0; int verbose = 0; long maxbranch = 2000000; const char* dumpdir = nullptr; std::string logic = "";
  int maxviol = 20; unsigned seed = 1; int memgb = 3; bool dfs = false; bool guess = true; unsigned long fd = 2000;
} opt;

// ------------------------------------------------------------------ per run state
struct Run {
  std::vector<u128> in;      // inputs by index
  size_t prefix = 0; u64 hash = 0; // hash of the branch directions of the prefix
};
static bool g_active = false; // inside a symbolic run
static Run g_run;
static int g_fd = -1;
static std::vector<std::string> g_names;
static std::vector<u128> g_lo, g_hi, g_used;
static size_t g_branches = 0;
static u64 st_q = 0, st_sat = 0, st_unsat = 0, st_unk = 0, st_assert = 0, st_assert_proved = 0, st_ext = 0, st_folded = 0;
static double st_time = 0;
static std::set<std::string> g_reach, g_expect, g_externals;
static std::vector<u8> g_fn;

// ------------------------------------------------------------------ expr DAG
struct Key { u8 k, f; unsigned short w; u32 aux; Expr *a, *b, *c; u128 v;
  bool operator==(const Key& o) const { return k == o.k && f == o.f && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && v == o.v; } };
struct KH { size_t operator()(const Key& k) const {
  u64 h = k.k * 0x9E3779B97F4A7C15ull + k.w * 0x85EBCA6Bull + k.aux * 0xC2B2AE3D27D4EB4Full + k.f;
  auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
  mix((u64)k.a); mix((u64)k.b); mix((u64)k.c); mix((u64)k.v); mix((u64)(k.v >> 64)); return h ^ (h >> 29); } };
static std::unordered_map<Key, Expr*, KH>* g_tab;
static u32 g_ids = 0;

static s128 smin_(unsigned w) { return w >= WMAX ? (s128)((u128)1 << (WMAX - 1)) : -((s128)1 << (w - 1)); }
static s128 smax_(unsigned w) { return (s128)(maskw(w) >> 1); }
struct SR { s128 lo, hi; bool ok; };
static void normRange(Expr* e) { // make the two intervals consistent
  u128 half = maskw(e->w) >> 1;
  s128 l = smin_(e->w), h = smax_(e->w);
  if (e->hi <= half) { l = (s128)e->lo; h = (s128)e->hi; }
  else if (e->lo > half) { l = sx(e->lo, e->w); h = sx(e->hi, e->w); }
  if (l > e->slo) e->slo = l;
  if (h < e->shi) e->shi = h;
  if (e->slo >= 0) { if ((u128)e->slo > e->lo) e->lo = (u128)e->slo; if ((u128)e->shi < e->hi) e->hi = (u128)e->shi; }
  else if (e->shi < 0) { u128 a = (u128)e->slo & maskw(e->w), b = (u128)e->shi & maskw(e->w); if (a > e->lo) e->lo = a; if (b < e->hi) e->hi = b; }
}
static Expr* mk(u8 k, unsigned w, u32 aux, Expr* a, Expr* b, Expr* c, u128 val, u128 lo, u128 hi, u8 f = 0, u128 keyv = 0, long double fv = 0, SR sr = SR{0, 0, false}) {
  Key key{k, f, (unsigned short)w, aux, a, b, c, keyv};
  auto it = g_tab->find(key);
  if (it != g_tab->end()) return it->second;
  Expr* e = (Expr*)malloc(sizeof(Expr));
  new (e) Expr();
  e->kind = k; e->fpop = f; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = val & maskw(w); e->lo = lo; e->hi = hi; e->id = ++g_ids; e->fval = fv;
  if (sr.ok) { e->slo = sr.lo; e->shi = sr.hi; } else { e->slo = smin_(w); e->shi = smax_(w); }
  normRange(e);
  (*g_tab)[key] = e;
  return e;
}
static Expr* cst(u128 v, unsigned w) { v &= maskw(w); return mk(K_CONST, w, 0, 0, 0, 0, v, v, v, 0, v); }
static inline bool isC(Expr* e) { return e->kind == K_CONST; }
static inline bool isFpK(u8 k) { return k == K_FP_FROMU || k == K_FP_FROMS || k == K_FP_BIN || k == K_FP_CONST || k == K_FP_CVT; }

static u128 evalbin(u32 op, unsigned w, u128 a, u128 b) {
  u128 m = maskw(w); s128 sa = sx(a, w), sb = sx(b, w);
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
    case O_SDIV: return b ? (u128)(sb == -1 ? -sa : sa / sb) & m : m; case O_SREM: return b ? (u128)(sb == -1 ? 0 : sa % sb) & m : a;
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case O_ASHR: return (u128)(sa >> (unsigned)(b >= w ? w - 1 : b)) & m;
  }
  return 0;
}

static Expr* e_ite(Expr* c, Expr* t, Expr* f);
static Expr* e_not(Expr* a);
static Expr* e_cmp(u8 k, Expr* a, Expr* b);
static Expr* e_bin(u32 op, Expr* a, Expr* b);
static Expr* e_extract(Expr* a, unsigned off, unsigned w);
static Expr* e_zext(Expr* a, unsigned w);
static Expr* e_sext(Expr* a, unsigned w);

static int ctreeN(Expr* e, int n) { if (isC(e)) return 1; if (e->kind != K_ITE || n <= 0) return 100; int x = ctreeN(e->b, n - 1); if (x >= 100) return 100; return x + ctreeN(e->c, n - 1); }
static bool ctree(Expr* e, int n) { return e->kind == K_ITE && ctreeN(e, n) <= n; }
static bool isNot(Expr* a, Expr* b) { return (a->kind == K_NOT && a->a == b) || (b->kind == K_NOT && b->a == a) || (a->kind == K_SLT && b->kind == K_SLE && a->a == b->b && a->b == b->a) ||
  (b->kind == K_SLT && a->kind == K_SLE && a->a == b->b && a->b == b->a) || (a->kind == K_ULT && b->kind == K_ULE && a->a == b->b && a->b == b->a) || (b->kind == K_ULT && a->kind == K_ULE && a->a == b->b && a->b == b->a); }
static std::unordered_set<Expr*>* g_known;    // asserted facts
// does c imply d (cheap syntactic check)?
static bool implies(Expr* c, Expr* d) {
  if (c == d) return true;
  if (c->kind == O_AND && c->w == 1) return implies(c->a, d) || implies(c->b, d);
  if (c->kind == K_SLT) {
    if (d->kind == K_SLE && d->a == c->a && d->b == c->b) return true;
    if (d->kind == K_NOT && d->a->kind == K_EQ && ((d->a->a == c->a && d->a->b == c->b) || (d->a->a == c->b && d->a->b == c->a))) return true;
  }
  if (c->kind == K_ULT) {
    if (d->kind == K_ULE && d->a == c->a && d->b == c->b) return true;
    if (d->kind == K_NOT && d->a->kind == K_EQ && ((d->a->a == c->a && d->a->b == c->b) || (d->a->a == c->b && d->a->b == c->a))) return true;
  }
  if (c->kind == K_EQ && (d->kind == K_ULE || d->kind == K_SLE) && ((d->a == c->a && d->b == c->b) || (d->a == c->b && d->b == c->a))) return true;
  return false;
}
static Expr* e_bin(u32 op, Expr* a, Expr* b) {
  unsigned w = a->w; u128 m = maskw(w);
  if (isC(a) && isC(b)) return cst(evalbin(op, w, a->val, b->val), w);
  // small trees of constants: compute leaf-wise
  if (isC(b) && ctree(a, 4)) return e_ite(a->a, e_bin(op, a->b, b), e_bin(op, a->c, b));
  if (isC(a) && ctree(b, 4)) return e_ite(b->a, e_bin(op, a, b->b), e_bin(op, a, b->c));
  // identities
  switch (op) {
    case O_ADD: if (isC(b) && b->val == 0) return a; if (isC(a) && a->val == 0) return b; if (isC(a)) std::swap(a, b);
      if (isC(b) && a->kind == O_ADD && isC(a->b)) return e_bin(O_ADD, a->a, cst(a->b->val + b->val, w));
      if (isC(b) && a->kind == O_SUB && isC(a->a)) return e_bin(O_SUB, cst(a->a->val + b->val, w), a->b);
      if (b->kind == O_SUB && isC(b->a) && b->a->val == 0) return e_bin(O_SUB, a, b->b);
      if (a->kind == O_SUB && isC(a->a) && a->a->val == 0 && !isC(b)) return e_bin(O_SUB, b, a->b); break;
    case O_SUB: if (isC(b) && b->val == 0) return a; if (a == b) return cst(0, w);
      if (isC(b)) return e_bin(O_ADD, a, cst(-b->val, w));
      if (isC(a) && b->kind == O_SUB && isC(b->a)) return e_bin(O_ADD, b->b, cst(a->val - b->a->val, w));
      if (isC(a) && b->kind == O_ADD && isC(b->b)) return e_bin(O_SUB, cst(a->val - b->b->val, w), b->a);
      if (a->kind == O_ADD && a->a == b) return a->b;
      if (a->kind == O_ADD && a->b == b) return a->a; break;
    case O_MUL: if (isC(a)) std::swap(a, b); if (isC(b)) { if (b->val == 0) return b; if (b->val == 1) return a; } break;
    case O_AND: if (isC(a)) std::swap(a, b); if (isC(b)) { if (b->val == 0) return b; if (b->val == m) return a; if (a->hi <= b->val && ((b->val + 1) & b->val) == 0) return a; } if (a == b) return a; break;
    case O_OR: if (isC(a)) std::swap(a, b); if (isC(b)) { if (b->val == 0) return a; if (b->val == m) return b; } if (a == b) return a; break;
    case O_XOR: if (isC(a)) std::swap(a, b); if (isC(b) && b->val == 0) return a; if (a == b) return cst(0, w);
      if (w == 1 && isC(b)) return e_not(a); break;
    case O_UDIV: if (isC(b) && b->val == 1) return a; if (isC(b) && b->val > a->hi) return cst(0, w); break;
    case O_SDIV: if (isC(b) && b->val == 1) return a; if (a->hi <= (m >> 1) && b->hi <= (m >> 1)) return e_bin(O_UDIV, a, b); break;
    case O_UREM: if (isC(b) && b->val == 1) return cst(0, w); if (b->lo > a->hi) return a; break;
    case O_SREM: if (a->hi <= (m >> 1) && b->hi <= (m >> 1)) return e_bin(O_UREM, a, b); break;
    case O_SHL: case O_LSHR: case O_ASHR: if (isC(b) && b->val == 0) return a; if (isC(a) && a->val == 0) return a;
      if (op == O_ASHR && a->hi <= (m >> 1)) return e_bin(O_LSHR, a, b);
      if (isC(b) && op == O_LSHR && b->val < WMAX && (a->hi >> (unsigned)b->val) == 0) return cst(0, w);
      break;
  }
  if (w == 1 && (op == O_AND || op == O_OR)) {
    if (isNot(a, b)) return cst(op == O_OR, 1);
    if (op == O_AND) {
      if (implies(a, b)) return a;
      if (implies(b, a)) return b;
      if (implies(a, e_not(b)) || implies(b, e_not(a))) return cst(0, 1);
      for (int i = 0; i < 2; ++i) {
        Expr *x = i ? b : a, *y = i ? a : b; // x <= y and x != y  =>  x < y
        if ((x->kind == K_SLE || x->kind == K_ULE) && y->kind == K_NOT && y->a->kind == K_EQ && ((y->a->a == x->a && y->a->b == x->b) || (y->a->a == x->b && y->a->b == x->a)))
          return e_cmp(x->kind == K_SLE ? K_SLT : K_ULT, x->a, x->b);
      }
    } else {
      if (implies(a, b)) return b;
      if (implies(b, a)) return a;
    }
  }
  if (w == 1) {
    if (op == O_ADD || op == O_SUB) return e_bin(O_XOR, a, b);
    if (op == O_MUL) return e_bin(O_AND, a, b);
  }
  u128 v = evalbin(op, w, a->val, b->val);
  u128 lo = 0, hi = m;
  switch (op) {
    case O_ADD: if (a->hi <= m - b->hi) { lo = a->lo + b->lo; hi = a->hi + b->hi; }
      else if (isC(b) && a->lo > m - b->val) { lo = (a->lo + b->val) & m; hi = (a->hi + b->val) & m; } break;
    case O_SUB: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } break;
    case O_MUL: if (a->hi == 0 || b->hi <= m / a->hi) { lo = a->lo * b->lo; hi = a->hi * b->hi; } break;
    case O_UDIV: if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
    case O_UREM: if (b->lo > 0) { hi = std::min(a->hi, b->hi - 1); } else hi = std::max(a->hi, b->hi); break;
    case O_AND: hi = std::min(a->hi, b->hi); break;
    case O_OR: lo = std::max(a->lo, b->lo); hi = maskw(nbits(a->hi | b->hi)); break;
    case O_XOR: hi = maskw(nbits(a->hi | b->hi)); if (a->hi == 0 && b->hi == 0) hi = 0; break;
    case O_SHL: if (isC(b) && b->val < w) { unsigned s = (unsigned)b->val; if (a->hi <= (m >> s)) { lo = a->lo << s; hi = a->hi << s; } } break;
    case O_LSHR: if (isC(b) && b->val < w) { unsigned s = (unsigned)b->val; lo = a->lo >> s; hi = a->hi >> s; } else hi = a->hi; break;
  }
  SR sr{0, 0, false};
  {
    s128 lim = w >= 4 ? ((s128)1 << (w - 2)) : 0;
    auto small = [&](Expr* e, s128 L) { return e->slo > -L && e->shi < L; };
    if (op == O_ADD && small(a, lim) && small(b, lim)) sr = SR{a->slo + b->slo, a->shi + b->shi, true};
    if (op == O_SUB && small(a, lim) && small(b, lim)) sr = SR{a->slo - b->shi, a->shi - b->slo, true};
    if (op == O_MUL && w >= 6) {
      auto sb = [&](Expr* e) { u128 m1 = e->slo < 0 ? (u128)-e->slo : (u128)e->slo, m2 = e->shi < 0 ? (u128)-e->shi : (u128)e->shi; return nbits(std::max(m1, m2)); };
      if (sb(a) + sb(b) <= w - 2) {
        s128 p1 = a->slo * b->slo, p2 = a->slo * b->shi, p3 = a->shi * b->slo, p4 = a->shi * b->shi;
        sr = SR{std::min(std::min(p1, p2), std::min(p3, p4)), std::max(std::max(p1, p2), std::max(p3, p4)), true};
      }
    }
    if ((op == O_SDIV || op == O_SREM) && small(a, lim) && small(b, lim)) {
      s128 m = std::max(a->slo < 0 ? -a->slo : a->slo, a->shi < 0 ? -a->shi : a->shi);
      s128 mb = std::max(b->slo < 0 ? -b->slo : b->slo, b->shi < 0 ? -b->shi : b->shi);
      if (op == O_SREM && mb > 0 && mb - 1 < m) m = mb - 1;
      bool z = b->slo <= 0 && b->shi >= 0; // x/0 = all ones in SMT-LIB; keep unrestricted
      if (!z) sr = SR{(op == O_SREM && a->slo >= 0) ? 0 : -m, (op == O_SREM && a->shi <= 0) ? 0 : m, true};
    }
    if (op == O_ASHR && isC(b) && b->val < w) sr = SR{a->slo >> (unsigned)b->val, a->shi >> (unsigned)b->val, true};
    if (op == O_XOR && isC(b) && b->val == m) sr = SR{-a->shi - 1, -a->slo - 1, true};
    if (sr.ok && sr.lo == sr.hi) return cst((u128)sr.lo, w);
  }
  if (lo == hi) return cst(lo, w);
  return mk(op, w, 0, a, b, 0, v, lo, hi, 0, 0, 0, sr);
}
static Expr* e_not(Expr* a) { // 1 bit
  if (isC(a)) return cst(!a->val, 1);
  if (a->kind == K_NOT) return a->a;
  if (a->kind == K_ULT) return e_cmp(K_ULE, a->b, a->a);
  if (a->kind == K_ULE) return e_cmp(K_ULT, a->b, a->a);
  if (a->kind == K_SLT) return e_cmp(K_SLE, a->b, a->a);
  if (a->kind == K_SLE) return e_cmp(K_SLT, a->b, a->a);
  return mk(K_NOT, 1, 0, a, 0, 0, !a->val, 0, 1);
}

// ------------------------------------------------------------------ prime field normal forms
// Residue expressions (kinds K_MOD*) modulo a prime m are normalised to quotients of multivariate polynomials
// over Z_m in the remaining sub-expressions ("atoms").  Equality of two residues becomes "polynomial = 0",
// where factors already known to be non-zero on the path are divided out.
typedef std::vector<std::pair<u32, u64>> FMon;            // (atom, exponent), sorted by atom
typedef std::map<FMon, u64> FPoly;
struct FFrac { FPoly n, d; };
static std::vector<Expr*>* g_atoms; static std::unordered_map<Expr*, u32>* g_atomid;
static std::unordered_map<Expr*, std::shared_ptr<FFrac>>* g_frac;
static std::map<std::pair<u64, FPoly>, Expr*>* g_fzero; static std::vector<std::pair<u64, FPoly>>* g_fpolys;
static const size_t FMAXT = 600;
static inline u64 mmul(u64 a, u64 b, u64 m) { return (u64)((unsigned __int128)a * b % m); }
static u128 modinv_c(u128 a, u128 m);
static u64 mpow(u64 b, u64 e, u64 m) { u64 r = 1 % m; while (e) { if (e & 1) r = mmul(r, b, m); e >>= 1; if (e) b = mmul(b, b, m); } return r; }
static bool isFieldK(u8 k) { return k == K_MODMUL || k == K_MODINV || k == K_MODADD || k == K_MODSUB; }
static void padd(FPoly& r, const FMon& mo, u64 c, u64 m) { if (!c) return; auto it = r.find(mo); if (it == r.end()) r.emplace(mo, c); else { it->second = (u64)(((unsigned __int128)it->second + c) % m); if (!it->second) r.erase(it); } }
static FMon mmon(const FMon& a, const FMon& b, u64 m) {
  FMon r; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { u64 e = a[i].second + b[j].second; r.push_back({a[i].first, e}); ++i; ++j; }
  }
  for (auto& t : r) if (t.second >= m) t.second = (t.second - 1) % (m - 1) + 1; // x^m = x
  return r;
}
static bool pmul(const FPoly& a, const FPoly& b, u64 m, FPoly& r) {
  r.clear();
  if (a.size() * b.size() > 40 * FMAXT) return false;
  for (auto& x : a) for (auto& y : b) padd(r, mmon(x.first, y.first, m), mmul(x.second, y.second, m), m);
  return r.size() <= FMAXT;
}
static void psub(FPoly& r, const FPoly& b, u64 m) { for (auto& y : b) padd(r, y.first, m - y.second, m); }
static void paddp(FPoly& r, const FPoly& b, u64 m) { for (auto& y : b) padd(r, y.first, y.second, m); }
static bool pone(const FPoly& p) { return p.size() == 1 && p.begin()->first.empty() && p.begin()->second == 1; }
static FPoly pconst(u64 c) { FPoly p; if (c) p.emplace(FMon(), c); return p; }
static bool pdeg_ok(const FPoly& p, u64 m) { for (auto& t : p) for (auto& v : t.first) if (v.second >= m - 1) return false; return true; }
// exact division p / q (lex order on the monomials as stored); false when it does not divide
static bool pdiv(FPoly p, const FPoly& q, u64 m, FPoly& r) {
  r.clear();
  if (q.empty() || q.size() > p.size() + 4) return false;
  // order: compare exponent vectors lexicographically with the smallest atom most significant
  auto less = [](const FMon& a, const FMon& b) {
    size_t i = 0;
    for (;; ++i) {
      if (i == a.size()) return i < b.size();
      if (i == b.size()) return false;
      if (a[i].first != b[i].first) return a[i].first > b[i].first;
      if (a[i].second != b[i].second) return a[i].second < b[i].second;
    }
  };
  auto lead = [&](const FPoly& x) { auto it = x.begin(), best = it; for (++it; it != x.end(); ++it) if (less(best->first, it->first)) best = it; return best; };
  auto lq = lead(q);
  u64 iq = (u64)modinv_c(lq->second, m);
  for (int steps = 0; !p.empty(); ++steps) {
    if (steps > 400) return false;
    auto lp = lead(p);
    FMon d; size_t j = 0; bool ok = true; const FMon &a = lp->first, &b = lq->first;
    for (size_t i = 0; i < a.size(); ++i) {
      if (j < b.size() && b[j].first == a[i].first) { if (b[j].second > a[i].second) { ok = false; break; } if (a[i].second > b[j].second) d.push_back({a[i].first, a[i].second - b[j].second}); ++j; }
      else d.push_back(a[i]);
    }
    if (!ok || j != b.size()) return false;
    u64 c = mmul(lp->second, iq, m);
    padd(r, d, c, m);
    if (r.size() > FMAXT) return false;
    for (auto& t : q) padd(p, mmon(d, t.first, m), m - mmul(c, t.second, m), m);
    if (p.size() > 4 * FMAXT) return false;
  }
  return true;
}

// ---- ideal reasoning: known zeros and non-zeros of the path (all modulo the same m)
static std::vector<std::pair<u64, FPoly>>* g_zeros;   // polynomials known to be zero on this path
static std::vector<std::pair<u64, FPoly>>* g_nonzero; // polynomials known to be non-zero on this path
static std::vector<std::pair<FPoly, FPoly>>* g_order;      // (x, y): x is zero whenever y is
static u64 st_ideal = 0;
static bool fconst(const FPoly& p) { return p.size() == 1 && p.begin()->first.empty(); }
static u64 fdeg(const FMon& a) { u64 d = 0; for (auto& x : a) d += x.second; return d; }
static bool fless(const FMon& a, const FMon& b) { // degree, then lexicographic (smallest atom most significant)
  u64 x = fdeg(a), y = fdeg(b);
  if (x != y) return x < y;
  for (size_t i = 0;; ++i) {
    if (i == a.size()) return i < b.size();
    if (i == b.size()) return false;
    if (a[i].first != b[i].first) return a[i].first > b[i].first;
    if (a[i].second != b[i].second) return a[i].second < b[i].second;
  }
}
static FPoly::const_iterator flead(const FPoly& x) { auto it = x.begin(), best = it; for (++it; it != x.end(); ++it) if (fless(best->first, it->first)) best = it; return best; }
static bool fdivm(const FMon& a, const FMon& b, FMon& d) { // a / b
  d.clear(); size_t j = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    if (j < b.size() && b[j].first == a[i].first) { if (b[j].second > a[i].second) return false; if (a[i].second > b[j].second) d.push_back({a[i].first, a[i].second - b[j].second}); ++j; }
    else d.push_back(a[i]);
  }
  return j == b.size();
}
static FMon fmul0(const FMon& a, const FMon& b) { FMon r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, a[i].second + b[j].second}); ++i; ++j; } } return r; }
struct GPoly { FPoly p; FMon lm; u64 ilc; };
static bool gset(GPoly& g, FPoly&& p, u64 m) { if (p.empty()) return false; g.p = std::move(p); auto l = flead(g.p); g.lm = l->first; g.ilc = (u64)modinv_c(l->second, m); return true; }
// complete reduction of p; false on resource limit
static bool greduce(FPoly& p, const std::vector<GPoly>& G, u64 m, int& fuel) {
  FPoly rest; FMon d;
  while (!p.empty()) {
    auto l = flead(p); const GPoly* g = nullptr;
    for (auto& x : G) if (fdivm(l->first, x.lm, d)) { g = &x; break; }
    if (!g) { rest.insert(*l); p.erase(l->first); continue; }
    u64 c = mmul(l->second, g->ilc, m);
    fuel -= (int)g->p.size() + 1;
    for (auto& t : g->p) padd(p, fmul0(d, t.first), m - mmul(c, t.second, m), m);
    if (fuel < 0 || p.size() > 3 * FMAXT) return false;
  }
  p.swap(rest);
  return true;
}

// 1 in the ideal generated by gens?  (Buchberger with resource limits: false = unknown)
static bool gtrivial(std::vector<FPoly> gens, u64 m, int fuel) {
  std::vector<GPoly> G;
  auto lcm = [](const FMon& a, const FMon& b) { FMon r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, std::max(a[i].second, b[j].second)}); ++i; ++j; } } return r; };
  typedef std::pair<u64, std::pair<size_t, size_t>> Pr;
  std::set<Pr> pairs;
  auto add = [&](FPoly&& p) -> bool { // true: constant found
    if (p.empty()) return false;
    if (fconst(p)) return true;
    GPoly g; gset(g, std::move(p), m);
    size_t k = G.size();
    for (size_t i = 0; i < k; ++i) { FMon l = lcm(G[i].lm, g.lm); if (fdeg(l) == fdeg(G[i].lm) + fdeg(g.lm)) continue; pairs.insert({(u64)fdeg(l), {i, k}}); }
    G.push_back(std::move(g));
    return false;
  };
  std::sort(gens.begin(), gens.end(), [](const FPoly& a, const FPoly& b) { return a.size() < b.size(); });
  for (auto& p : gens) { if (!greduce(p, G, m, fuel)) return false; if (add(std::move(p))) return true; }
  while (!pairs.empty()) {
    auto pr = *pairs.begin(); pairs.erase(pairs.begin());
    const GPoly &x = G[pr.second.first], &y = G[pr.second.second];
    FMon l = lcm(x.lm, y.lm), dx, dy; fdivm(l, x.lm, dx); fdivm(l, y.lm, dy);
    FPoly s;
    for (auto& t : x.p) padd(s, fmul0(dx, t.first), mmul(x.ilc, t.second, m), m);
    for (auto& t : y.p) padd(s, fmul0(dy, t.first), m - mmul(y.ilc, t.second, m), m);
    fuel -= (int)(x.p.size() + y.p.size());
    if (fuel < 0 || !greduce(s, G, m, fuel)) return false;
    if (add(std::move(s))) return true;
    if (G.size() > 200) return false;
  }
  return false;
}
// the path facts and (p == 0 if zero, else p != 0) contradict each other
static bool idealRefutes(const FPoly& p, bool zero, u64 m) {
  std::set<u32> at; for (auto& t : p) for (auto& v : t.first) at.insert(v.first);
  std::vector<const FPoly*> zs, ns; std::set<const FPoly*> used;
  std::vector<const FPoly*> impl;
  if (zero) { // consequences through recorded order facts
    std::vector<const FPoly*> z{&p}; std::set<const void*> done; FPoly t;
    for (size_t i = 0; i < z.size() && z.size() < 20; ++i) for (auto& o : *g_order) if (!done.count(&o) && pdiv(o.second, *z[i], m, t)) { done.insert(&o); z.push_back(&o.first); impl.push_back(&o.first); for (auto& tt : o.first) for (auto& v : tt.first) at.insert(v.first); }
  }
  auto touches = [&](const FPoly& q) { for (auto& t : q) for (auto& v : t.first) if (at.count(v.first)) return true; return false; };
  for (bool ch = true; ch;) { ch = false;
    for (auto& z : *g_zeros) if (z.first == m && !used.count(&z.second) && touches(z.second)) { used.insert(&z.second); zs.push_back(&z.second); for (auto& t : z.second) for (auto& v : t.first) at.insert(v.first); ch = true; } }
  if (zs.empty() && !zero) { }
  for (auto& n : *g_nonzero) if (n.first == m && touches(n.second) && ns.size() < 12) ns.push_back(&n.second);
  std::vector<FPoly> gens; for (auto* z : zs) gens.push_back(*z); for (auto* z : impl) gens.push_back(*z);
  u32 tv = 0xffff0000u; // auxiliary inverses of the non-zero polynomials
  auto inv = [&](const FPoly& q) { FPoly g; for (auto& t : q) { FMon mo = t.first; mo.push_back({tv, 1}); g.emplace(mo, t.second); } padd(g, FMon(), m - 1, m); ++tv; gens.push_back(g); };
  for (auto* n : ns) inv(*n);
  if (zero) gens.push_back(p); else inv(p);
  ++st_ideal;
  return gtrivial(gens, m, 60000);
}
static bool idealReduce(FPoly& p, u64 m) { // normal form modulo the known zeros; cheap
  if (g_zeros->empty()) return true;
  std::vector<GPoly> G; for (auto& z : *g_zeros) if (z.first == m && z.second.size() <= 40) { GPoly g; FPoly q = z.second; if (gset(g, std::move(q), m)) G.push_back(std::move(g)); }
  FPoly q = p; int fuel = 8000;
  if (!greduce(q, G, m, fuel) || q.size() > p.size() + 30) return false;
  p = q; return true;
}
static bool knownTrue(Expr* e) { return isC(e) ? e->val == 1 : (g_known && g_known->count(e)); }
static Expr* rawNot(Expr* e);
static Expr* fzero(FPoly p, u64 m);
static u64 peval(const FPoly& p, u64 m) {
  u64 s = 0;
  for (auto& t : p) { u64 x = t.second; for (auto& v : t.first) { u64 b = (u64)((*g_atoms)[v.first]->val % m); x = mmul(x, mpow(b, v.second, m), m); } s = (u64)(((unsigned __int128)s + x) % m); }
  return s;
}
static std::shared_ptr<FFrac> frac(Expr* e, u64 m) {
  if (!isC(e) && isFieldK(e->kind) && e->c->val != m) return nullptr;
  if (isC(e)) { auto f = std::make_shared<FFrac>(); f->n = pconst((u64)(e->val % m)); f->d = pconst(1); return f; }
  if (e->lo == e->hi) { auto f = std::make_shared<FFrac>(); f->n = pconst((u64)(e->lo % m)); f->d = pconst(1); return f; }
  if (e->hi >= m && e->kind != O_UREM) return nullptr;
  auto it = g_frac->find(e);
  if (it != g_frac->end()) return it->second;
  std::shared_ptr<FFrac> r;
  if (isFieldK(e->kind)) {
    auto x = frac(e->a, m), y = e->b ? frac(e->b, m) : nullptr;
    auto f = std::make_shared<FFrac>();
    bool ok = x && (!e->b || y);
    if (ok && e->kind == K_MODMUL) {
      // cancel equal numerator/denominator factors cheaply
      FPoly xn = x->n, xd = x->d, yn = y->n, yd = y->d, t;
      if (!pone(yd) && pdiv(xn, yd, m, t)) { xn = t; yd = pconst(1); }
      if (!pone(xd) && pdiv(yn, xd, m, t)) { yn = t; xd = pconst(1); }
      ok = pmul(xn, yn, m, f->n) && pmul(xd, yd, m, f->d);
    } else if (ok && e->kind == K_MODINV) {
      if (x->n.empty()) ok = false;
      else if (knownTrue(rawNot(fzero(x->n, m)))) { f->n = x->d; f->d = x->n; }
      else { if (getenv("FFSYM_FD")) fprintf(stderr, "inverse of a residue not known to be non-zero\n"); ok = false; }
    } else if (ok) {
      bool add = e->kind == K_MODADD; FPoly t;
      if (x->d == y->d) { f->n = x->n; if (add) paddp(f->n, y->n, m); else psub(f->n, y->n, m); f->d = x->d; }
      else if (pdiv(x->d, y->d, m, t)) { FPoly u; ok = pmul(y->n, t, m, u); f->n = x->n; if (add) paddp(f->n, u, m); else psub(f->n, u, m); f->d = x->d; }
      else if (pdiv(y->d, x->d, m, t)) { FPoly u; ok = pmul(x->n, t, m, u); f->n = u; if (add) paddp(f->n, y->n, m); else psub(f->n, y->n, m); f->d = y->d; }
      else { FPoly u, v; ok = pmul(x->n, y->d, m, u) && pmul(y->n, x->d, m, v) && pmul(x->d, y->d, m, f->d); f->n = u; if (add) paddp(f->n, v, m); else psub(f->n, v, m); }
      if (f->n.size() > FMAXT) ok = false;
    }
    if (ok) {
      if (f->n.empty()) f->d = pconst(1);
      else if (!pone(f->d)) {
        FPoly t;
        if (pdiv(f->n, f->d, m, t)) { f->n = t; f->d = pconst(1); }
        else if (f->d.size() == 1 && f->d.begin()->first.empty()) { u64 i = (u64)modinv_c(f->d.begin()->second, m); for (auto& q : f->n) q.second = mmul(q.second, i, m); f->d = pconst(1); }
      }
      r = f;
    }
  }
  if (!r) { // atom
    auto q = g_atomid->find(e);
    u32 id;
    if (q == g_atomid->end()) { id = g_atoms->size(); g_atoms->push_back(e); (*g_atomid)[e] = id; } else id = q->second;
    r = std::make_shared<FFrac>(); r->n.emplace(FMon{{id, 1}}, 1); r->d = pconst(1);
  }
  return (*g_frac)[e] = r;
}
// the 1-bit expression "p == 0 mod m"
static bool g_nofield = false; // inside fzero: build plain equalities of atoms
static Expr* plainEq(Expr* a, Expr* b) { bool o = g_nofield; g_nofield = true; Expr* r = e_cmp(K_EQ, a, b); g_nofield = o; return r; }
static Expr* fzeroRaw(const FPoly& p, u64 m) {
  auto key = std::make_pair(m, p);
  auto it = g_fzero->find(key);
  if (it != g_fzero->end()) return it->second;
  g_fpolys->push_back(key);
  Expr* r = mk(K_FZERO, 1, (u32)g_fpolys->size() - 1, 0, 0, 0, peval(p, m) == 0, 0, 1);
  return (*g_fzero)[key] = r;
}
static Expr* fzero(FPoly p, u64 m) {
  if (p.empty()) return cst(1, 1);
  auto constant = [&]() { return p.size() == 1 && p.begin()->first.empty(); };
  if (constant()) return cst(0, 1);
  FPoly t;
  idealReduce(p, m);
  if (p.empty()) return cst(1, 1);
  if (constant()) return cst(0, 1);
  for (int round = 0; round < 8; ++round) { bool any = false; for (auto& q : *g_nonzero) if (q.first == m && pdiv(p, q.second, m, t)) { p = t; any = true; } if (!any) break; }
  if (p.empty()) return cst(1, 1);
  if (constant()) return cst(0, 1);
  u64 i = (u64)modinv_c(p.begin()->second, m);
  if (i != 1) for (auto& q : p) q.second = mmul(q.second, i, m);
  // monomial content
  FMon g = p.begin()->first;
  for (auto& q : p) { FMon h; size_t j = 0; for (auto& v : g) { while (j < q.first.size() && q.first[j].first < v.first) ++j; if (j < q.first.size() && q.first[j].first == v.first) h.push_back({v.first, std::min(v.second, q.first[j].second)}); } g = h; if (g.empty()) break; }
  if (!g.empty()) {
    Expr* r = cst(0, 1);
    FPoly gm; gm.emplace(g, 1);
    if (!pdiv(p, gm, m, t)) return fzeroRaw(p, m);
    for (auto& v : g) r = e_bin(O_OR, r, plainEq((*g_atoms)[v.first], cst(0, (*g_atoms)[v.first]->w)));
    return e_bin(O_OR, r, fzero(t, m));
  }
  if (p.size() <= 2) { // x - c, x - y: plain equalities
    FPoly lin = p; Expr *x = nullptr, *y = nullptr; u64 cx = 0, cy = 0, c0 = 0; bool ok = true;
    for (auto& q : lin) { if (q.first.empty()) c0 = q.second; else if (q.first.size() == 1 && q.first[0].second == 1) { Expr* a = (*g_atoms)[q.first[0].first]; if (!x) { x = a; cx = q.second; } else { y = a; cy = q.second; } } else ok = false; }
    if (ok && x && !y && x->hi < m) { u64 v = mmul(c0 ? m - c0 : 0, (u64)modinv_c(cx, m), m); return plainEq(x, cst(v, x->w)); }
    if (ok && x && y && !c0 && x->hi < m && y->hi < m && x->w == y->w && (cx + cy) == m) return plainEq(x, y);
  }
  return fzeroRaw(p, m);
}
static Expr* fieldEq(Expr* a, Expr* b) { // nullptr: not a field equality
  u64 m = isFieldK(a->kind) ? (u64)a->c->val : isFieldK(b->kind) ? (u64)b->c->val : 0;
  if (!m) return nullptr;
  if (isC(a) && a->val >= m) return nullptr;
  if (isC(b) && b->val >= m) return nullptr;
  if (a->hi >= m || b->hi >= m) return nullptr;
  auto x = frac(a, m), y = frac(b, m);
  if (!x || !y) return nullptr;
  FPoly u, v;
  if (x->d == y->d) { u = x->n; psub(u, y->n, m); }
  else { if (!pmul(x->n, y->d, m, u) || !pmul(y->n, x->d, m, v)) return nullptr; psub(u, v, m); }
  return fzero(u, m);
}
static Expr* rawNot(Expr* e) { if (isC(e)) return cst(!e->val, 1); if (e->kind == K_NOT) return e->a; return mk(K_NOT, 1, 0, e, 0, 0, !e->val, 0, 1); }
static Expr* e_cmp_(u8 k, Expr* a, Expr* b);
static Expr* e_cmp(u8 k, Expr* a, Expr* b) {
  Expr* r = e_cmp_(k, a, b);
  static bool busy;
  if (g_known && !busy && !isC(r)) {
    if (g_known->count(r)) return cst(1, 1);
    struct B { B() { busy = true; } ~B() { busy = false; } } guard;
    if (r->kind != O_AND && r->kind != O_OR && r->kind != K_ITE && g_known->count(e_not(r))) return cst(0, 1);
  }
  return r;
}
static Expr* e_cmp_u(u8 k, Expr* a, Expr* b, bool v) {
  if (k == K_ULT) { if (a->hi < b->lo) return cst(1, 1); if (a->lo >= b->hi) return cst(0, 1); }
  if (k == K_ULE) { if (a->hi <= b->lo) return cst(1, 1); if (a->lo > b->hi) return cst(0, 1); }
  return mk(k, 1, 0, a, b, 0, v, 0, 1);
}
static Expr* e_cmp_(u8 k, Expr* a, Expr* b) {
  unsigned w = a->w;
  bool v;
  switch (k) {
    case K_EQ: v = a->val == b->val; break; case K_ULT: v = a->val < b->val; break; case K_ULE: v = a->val <= b->val; break;
    case K_SLT: v = sx(a->val, w) < sx(b->val, w); break; default: v = sx(a->val, w) <= sx(b->val, w);
  }
  if (isC(a) && isC(b)) return cst(v, 1);
  if (a == b) return cst(k == K_EQ || k == K_ULE || k == K_SLE, 1);
  if (a->shi < b->slo) return k == K_EQ ? cst(0, 1) : (k == K_SLT || k == K_SLE) ? cst(1, 1) : e_cmp_u(k, a, b, v);
  if (b->shi < a->slo) { if (k == K_EQ || k == K_SLT || k == K_SLE) return cst(0, 1); }
  if (k == K_SLT && a->slo >= b->shi) return cst(0, 1);
  if (k == K_SLE && a->shi <= b->slo) return cst(1, 1);
  for (int i = 0; i < 2; ++i) { // push into an if-then-else against a constant when that simplifies
    Expr *x = i ? b : a, *y = i ? a : b;
    if (x->kind == K_ITE && isC(y)) {
      Expr *rt = i ? e_cmp(k, y, x->b) : e_cmp(k, x->b, y), *rf = i ? e_cmp(k, y, x->c) : e_cmp(k, x->c, y);
      if (rt == rf) return rt;
      if (isC(rt) || isC(rf)) return e_ite(x->a, rt, rf);
    }
  }
  if (k == K_SLT || k == K_SLE) {
    u128 half = maskw(w) >> 1;
    if (a->hi <= half && b->hi <= half) return e_cmp(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (a->lo > half && b->lo > half) return e_cmp(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (a->hi <= half && b->lo > half) return cst(0, 1);
    if (a->lo > half && b->hi <= half) return cst(1, 1);
  }
  if (k == K_EQ) {
    if (a->hi < b->lo || b->hi < a->lo) return cst(0, 1);
    if (isC(a)) std::swap(a, b);
    if (!g_nofield && (isFieldK(a->kind) || isFieldK(b->kind))) { Expr* f = fieldEq(a, b); if (f) return f; }
    if (w == 1 && isC(b)) return b->val ? a : e_not(a);
    if (isC(b)) {
      if (a->kind == K_ZEXT) return (b->val >> a->a->w) ? cst(0, 1) : e_cmp(K_EQ, a->a, cst(b->val, a->a->w));
      if (a->kind == K_SEXT) { Expr* n = cst(b->val, a->a->w); if ((u128)sx(n->val, n->w) != (u128)sx(b->val, w)) return cst(0, 1); return e_cmp(K_EQ, a->a, n); }
      if (a->kind == O_ADD && isC(a->b)) return e_cmp(K_EQ, a->a, cst(b->val - a->b->val, w));
      if (a->kind == O_SUB && isC(a->a)) return e_cmp(K_EQ, a->b, cst(a->a->val - b->val, w));
      if (a->kind == O_SUB && b->val == 0) return e_cmp(K_EQ, a->a, a->b);
      if (a->kind == O_XOR && b->val == 0) return e_cmp(K_EQ, a->a, a->b);
      if (a->kind == K_ITE) {
        // pull constants through an if-then-else with constant arms
        if (isC(a->b) && isC(a->c)) {
          bool t = a->b->val == b->val, f = a->c->val == b->val;
          if (t && f) return cst(1, 1);
          if (!t && !f) return cst(0, 1);
          return t ? a->a : e_not(a->a);
        }
        if (isC(a->b) && a->b->val != b->val) return e_bin(O_AND, e_not(a->a), e_cmp(K_EQ, a->c, b));
        if (isC(a->c) && a->c->val != b->val) return e_bin(O_AND, a->a, e_cmp(K_EQ, a->b, b));
      }
      if (a->kind == O_MUL && b->val == 0 && a->hi < maskw(w) && isC(a->b)) return e_cmp(K_EQ, a->a, b);
      if (a->kind == O_OR && b->val == 0) return e_bin(O_AND, e_cmp(K_EQ, a->a, b), e_cmp(K_EQ, a->b, b));
      if (a->kind == K_CONCAT && b->val == 0) return e_bin(O_AND, e_cmp(K_EQ, a->a, cst(0, a->a->w)), e_cmp(K_EQ, a->b, cst(0, a->b->w)));
    }
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->w == b->a->w) return e_cmp(K_EQ, a->a, b->a);
    if (!isC(b) && a->id > b->id) std::swap(a, b);
  }
  if (k == K_ULT) {
    if (a->hi < b->lo) return cst(1, 1);
    if (a->lo >= b->hi) return cst(0, 1);
    if (isC(b) && b->val == 1) return e_cmp(K_EQ, a, cst(0, w));
    if (isC(a) && a->val == 0) return e_not(e_cmp(K_EQ, b, a));
  }
  if (k == K_ULE) {
    if (a->hi <= b->lo) return cst(1, 1);
    if (a->lo > b->hi) return cst(0, 1);
    if (isC(b) && b->val == 0) return e_cmp(K_EQ, a, b);
    if (isC(a) && a->val == 1) return e_not(e_cmp(K_EQ, b, cst(0, w)));
  }
  return mk(k, 1, 0, a, b, 0, v, 0, 1);
}
struct Rng { u128 lo, hi; s128 slo, shi; };
struct Lin { Expr* base; s128 sg, k; };
static bool linear(Expr* e, Lin& o) {
  unsigned w = e->w; if (w < 4) return false;
  s128 lim = (s128)1 << (w - 2);
  auto sm = [&](Expr* x) { return x->slo > -lim && x->shi < lim; };
  o = Lin{e, 1, 0};
  if (e->kind == O_ADD && isC(e->b) && sm(e->a) && sm(e->b)) o = Lin{e->a, 1, e->b->slo};
  else if (e->kind == O_SUB && isC(e->a) && sm(e->b) && sm(e->a)) o = Lin{e->b, -1, e->a->slo};
  else return sm(e);
  return true;
}
// range of e knowing that condition c has truth value tv
static Rng under(Expr* e, Expr* c, bool tv) {
  Rng r{e->lo, e->hi, e->slo, e->shi};
  if (isC(e)) return r;
  u8 k = c->kind; Expr *x = c->a, *y = c->b;
  if (k == K_NOT) return under(e, c->a, !tv);
  if ((k == O_AND && c->w == 1 && tv) || (k == O_OR && c->w == 1 && !tv)) { Rng p = under(e, c->a, tv), q = under(e, c->b, tv);
    Rng o{std::max(p.lo, q.lo), std::min(p.hi, q.hi), std::max(p.slo, q.slo), std::min(p.shi, q.shi)}; return o.lo > o.hi || o.slo > o.shi ? r : o; }
  if (k != K_ULT && k != K_ULE && k != K_SLT && k != K_SLE && k != K_EQ) return r;
  bool sg = k == K_SLT || k == K_SLE, strict = k == K_ULT || k == K_SLT;
  if (k == K_EQ) { if (tv && isC(y) && e == x) r = Rng{y->lo, y->hi, y->slo, y->shi}; return r; }
  if (!tv) { std::swap(x, y); strict = !strict; } // now: x < y (strict) or x <= y
  Rng rx{x->lo, x->hi, x->slo, x->shi}, ry{y->lo, y->hi, y->slo, y->shi};
  if (sg) { s128 d = strict ? 1 : 0; if (y->shi - d < rx.shi && y->shi > smin_(y->w)) rx.shi = y->shi - d; if (x->slo + d > ry.slo && x->slo < smax_(x->w)) ry.slo = x->slo + d; }
  else { u128 d = strict ? 1 : 0; if (y->hi >= d && y->hi - d < rx.hi) rx.hi = y->hi - d; if (x->lo + d > ry.lo && x->lo + d >= x->lo) ry.lo = x->lo + d; }
  auto fix = [&](Rng& q, unsigned w) {
    u128 half = maskw(w) >> 1;
    if (q.hi <= half) { if ((s128)q.lo > q.slo) q.slo = (s128)q.lo; if ((s128)q.hi < q.shi) q.shi = (s128)q.hi; }
    if (q.slo >= 0) { if ((u128)q.slo > q.lo) q.lo = (u128)q.slo; if ((u128)q.shi < q.hi) q.hi = (u128)q.shi; }
  };
  fix(rx, x->w); fix(ry, y->w);
  Rng out = r;
  // e and the compared operand are both +-base + constant without wrap-around
  auto viaLinear = [&](Expr* o, const Rng& q) {
    Lin le, lo_;
    if (!linear(e, le) || !linear(o, lo_) || le.base != lo_.base || (le.base == e && lo_.base == o)) return;
    s128 sg1 = le.sg * lo_.sg; // e = sg1 * (o - ko) + ke
    s128 p = sg1 * (q.slo - lo_.k) + le.k, r2 = sg1 * (q.shi - lo_.k) + le.k;
    out.slo = std::max(out.slo, std::min(p, r2)); out.shi = std::min(out.shi, std::max(p, r2));
  };
  if (e == x) out = rx; else if (e == y) out = ry;
  else { viaLinear(x, rx); viaLinear(y, ry); }
  // e = y - x with x <= y (unsigned) does not wrap
  if (!sg && e->kind == O_SUB && e->a == y && e->b == x) { u128 l = strict ? 1 : 0, h = y->hi - std::min(x->lo, y->hi); if (l > out.lo) out.lo = l; if (h < out.hi) out.hi = h; }
  if (!sg && isC(x) && e->kind == O_ADD && e->a == y && isC(e->b) && ((e->b->val + x->val) & maskw(e->w)) == 0) { u128 l = strict ? 1 : 0, h = y->hi - std::min(x->val, y->hi); if (l > out.lo) out.lo = l; if (h < out.hi) out.hi = h; }
  fix(out, e->w);
  if (out.lo > out.hi || out.slo > out.shi) return r; // contradictory branch: any range is sound
  return out;
}
static Expr* e_ite(Expr* c, Expr* t, Expr* f) {
  if (isC(c)) return c->val ? t : f;
  if (t == f) return t;
  if (c->kind == K_NOT) return e_ite(c->a, f, t);
  if (t->w == 1) {
    if (isC(t) && isC(f)) return t->val ? c : e_not(c);
    if (isC(t)) return t->val ? e_bin(O_OR, c, f) : e_bin(O_AND, e_not(c), f);
    if (isC(f)) return f->val ? e_bin(O_OR, e_not(c), t) : e_bin(O_AND, c, t);
  }
  if (t->kind == K_ITE && t->a == c) t = t->b;
  if (f->kind == K_ITE && f->a == c) f = f->c;
  if (t == f) return t;
  if (g_known) { if (g_known->count(c)) return t; if (g_known->count(e_not(c))) return f; }
  { // arms that are themselves conditionals on an implied condition
    Expr* nc = e_not(c);
    if (t->kind == K_ITE) { if (implies(c, t->a)) t = t->b; else if (implies(c, e_not(t->a))) t = t->c; }
    if (f->kind == K_ITE) { if (implies(nc, f->a)) f = f->b; else if (implies(nc, e_not(f->a))) f = f->c; }
    if (t == f) return t;
  }
  Rng rt = under(t, c, true), rf = under(f, c, false);
  return mk(K_ITE, t->w, 0, c, t, f, c->val ? t->val : f->val, std::min(rt.lo, rf.lo), std::max(rt.hi, rf.hi), 0, 0, 0, SR{std::min(rt.slo, rf.slo), std::max(rt.shi, rf.shi), true});
}
static Expr* e_zext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return cst(a->val, w);
  if (a->kind == K_ZEXT) return e_zext(a->a, w);
  if (ctree(a, 4)) return e_ite(a->a, e_zext(a->b, w), e_zext(a->c, w));
  return mk(K_ZEXT, w, 0, a, 0, 0, a->val, a->lo, a->hi);
}
static Expr* e_sext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return cst((u128)sx(a->val, a->w), w);
  if (a->hi <= (maskw(a->w) >> 1)) return e_zext(a, w);
  u128 lo = 0, hi = maskw(w);
  if (a->lo > (maskw(a->w) >> 1)) { lo = (u128)sx(a->lo, a->w) & maskw(w); hi = (u128)sx(a->hi, a->w) & maskw(w); }
  if (ctree(a, 4)) return e_ite(a->a, e_sext(a->b, w), e_sext(a->c, w));
  return mk(K_SEXT, w, 0, a, 0, 0, (u128)sx(a->val, a->w), lo, hi, 0, 0, 0, SR{a->slo, a->shi, true});
}
static Expr* e_concat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return cst((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return e_zext(lo, w);
  if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->a == lo->a && lo->aux + lo->w == hi->aux) return e_extract(hi->a, lo->aux, w);
  if (hi->kind == K_EXTRACT && hi->aux == lo->w && hi->a->w >= w && lo == e_extract(hi->a, 0, lo->w)) return e_extract(hi->a, 0, w);
  return mk(K_CONCAT, w, 0, hi, lo, 0, (hi->val << lo->w) | lo->val, (hi->lo << lo->w) | lo->lo, (hi->hi << lo->w) | lo->hi);
}
static Expr* e_extract(Expr* a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return cst(a->val >> off, w);
  if (a->kind == K_EXTRACT) return e_extract(a->a, a->aux + off, w);
  if (a->kind == K_ZEXT) {
    unsigned iw = a->a->w;
    if (off >= iw) return cst(0, w);
    if (off + w <= iw) return e_extract(a->a, off, w);
    return e_zext(off ? e_extract(a->a, off, iw - off) : a->a, w);
  }
  if (a->kind == K_SEXT && off + w <= a->a->w) return e_extract(a->a, off, w);
  if (a->kind == K_CONCAT) {
    unsigned lw = a->b->w;
    if (off + w <= lw) return e_extract(a->b, off, w);
    if (off >= lw) return e_extract(a->a, off - lw, w);
  }
  if (ctree(a, 8)) return e_ite(a->a, e_extract(a->b, off, w), e_extract(a->c, off, w));
  if (a->kind == K_SEXT && off >= a->a->w) { Expr* sg = e_extract(a->a, a->a->w - 1, 1); return e_ite(sg, cst(maskw(w), w), cst(0, w)); }
  if (off == 0) {
    if (a->kind == O_ADD || a->kind == O_SUB || a->kind == O_MUL || a->kind == O_AND || a->kind == O_OR || a->kind == O_XOR)
      return e_bin(a->kind, e_extract(a->a, 0, w), e_extract(a->b, 0, w));
  }
  if ((a->hi >> off) == 0) return cst(0, w);
  u128 lo = 0, hi = maskw(w);
  if ((a->hi >> off) <= hi) { lo = a->lo >> off; hi = a->hi >> off; }
  if (off == 0 && a->hi <= maskw(w)) { lo = a->lo; hi = a->hi; }
  SR sr{0, 0, false};
  if (off == 0 && a->slo >= smin_(w) && a->shi <= smax_(w)) sr = SR{a->slo, a->shi, true};
  return mk(K_EXTRACT, w, off, a, 0, 0, a->val >> off, lo, hi, 0, 0, 0, sr);
}
static u128 modinv_c(u128 a, u128 m) {
  s128 t = 0, nt = 1; u128 r = m, nr = a % m;
  while (nr) { u128 q = r / nr; s128 tt = t; t = nt; nt = tt - (s128)q * nt; u128 tr = r; r = nr; nr = tr - q * nr; }
  return t < 0 ? (u128)(t + (s128)m) : (u128)t;
}

// ------------------------------------------------------------------ Z3 translation
struct Z {
  z3::context c;
  z3::solver* s = nullptr;
  std::vector<z3::expr> vars;
  std::unordered_map<u64, z3::expr> cache; // (id<<8 | bits)
  std::unordered_map<u32, z3::expr> bcache;
  bool abs = false; // abstraction of symbolic divisions (see absQuery)
  std::unordered_map<u64, z3::expr> acache; std::unordered_map<u32, z3::expr> abcache; // translations of nodes containing such divisions
  Z() {}
};
static Z* g_z;

static z3::expr zbv(u128 v, unsigned w) {
  if (w <= 64) return g_z->c.bv_val((uint64_t)v, w);
  return z3::concat(zbv(v >> 64, w - 64), g_z->c.bv_val((uint64_t)v, 64));
}
static unsigned nb(Expr* e) { return std::min<unsigned>(e->w, nbits(e->hi)); }
static unsigned nsb(Expr* e) { // bits for the signed range
  u128 a = e->slo < 0 ? (u128)(-(e->slo + 1)) : (u128)e->slo, b = e->shi < 0 ? (u128)(-(e->shi + 1)) : (u128)e->shi;
  u128 m = std::max(a, b);
  return std::min<unsigned>(e->w, (m == 0 ? 0 : nbits(m)) + 1);
}
static std::unordered_map<Expr*, bool>* g_hasdiv; // by construction-time ranges, never re-evaluated
static bool isWideDiv(Expr* e) { return (e->kind == O_UDIV || e->kind == O_UREM) && !isC(e->b) && e->w > 24; }
static bool hasDiv(Expr* e) {
  if (!e || isFpK(e->kind)) return false;
  auto it = g_hasdiv->find(e); if (it != g_hasdiv->end()) return it->second;
  bool r = isWideDiv(e) || hasDiv(e->a) || hasDiv(e->b) || hasDiv(e->c);
  if (!r && e->kind == K_FZERO) for (auto& t : (*g_fpolys)[e->aux].second) for (auto& v : t.first) if (hasDiv((*g_atoms)[v.first])) r = true;
  return (*g_hasdiv)[e] = r;
}
static z3::expr zbool(Expr* e);
static z3::expr zlow(Expr* e, unsigned k);
// value of e (which fits in k bits) as k-bit vector, or the low k bits of e
static z3::expr resize(z3::expr x, unsigned k) {
  unsigned w = x.get_sort().bv_size();
  if (w == k) return x;
  if (w > k) return x.extract(k - 1, 0);
  return z3::zext(x, k - w);
}
static z3::expr zlow_(Expr* e, unsigned k) {
  unsigned n = nb(e);
  if (k > n) return z3::zext(zlow(e, n), k - n);
  unsigned ns = nsb(e);
  if (k > ns && ns < n) return z3::sext(zlow(e, ns), k - ns);
  switch (e->kind) {
    case K_CONST: return zbv(e->val & maskw(k), k);
    case K_VAR: return resize(g_z->vars[e->aux], k);
    case O_ADD: return zlow(e->a, k) + zlow(e->b, k);
    case O_SUB: return zlow(e->a, k) - zlow(e->b, k);
    case O_MUL: return zlow(e->a, k) * zlow(e->b, k);
    case O_AND: return zlow(e->a, k) & zlow(e->b, k);
    case O_OR: return zlow(e->a, k) | zlow(e->b, k);
    case O_XOR: return zlow(e->a, k) ^ zlow(e->b, k);
    case O_UDIV: case O_UREM: {
      if (g_z->abs && isWideDiv(e)) { return resize(g_z->c.bv_const(("div" + std::to_string(e->id)).c_str(), e->w), k); }
      unsigned m = std::max(nb(e->a), nb(e->b));
      // division by zero has SMT-LIB semantics; the concrete program would trap
      z3::expr x = zlow(e->a, m), y = zlow(e->b, m);
      if (isC(e->b) && ((e->b->val & (e->b->val - 1)) == 0) && e->b->val) {
        unsigned s = nbits(e->b->val) - 1;
        return resize(e->kind == O_UDIV ? z3::lshr(x, (int)s) : (x & zbv(e->b->val - 1, m)), k);
      }
      if (e->b->lo == 0) {
        z3::expr z = y == zbv(0, m);
        if (e->kind == O_UDIV) return resize(z3::ite(z, zbv(maskw(m), m), z3::udiv(x, y)), k);
      }
      return resize(e->kind == O_UDIV ? z3::udiv(x, y) : z3::urem(x, y), k);
    }
    case O_SDIV: case O_SREM: {
      unsigned m = std::min<unsigned>(e->w, std::max(nsb(e->a), nsb(e->b)) + 1);
      z3::expr x = zlow(e->a, m), y = zlow(e->b, m);
      z3::expr r = e->kind == O_SDIV ? x / y : z3::srem(x, y);
      if (k <= m) return resize(r, k);
      return z3::sext(r, k - m);
    }
    case O_SHL: if (isC(e->b)) { unsigned s = (unsigned)e->b->val; if (s >= k) return zbv(0, k); return z3::shl(zlow(e->a, k), zbv(s, k)); }
      return resize(z3::shl(zlow(e->a, e->w), zlow(e->b, e->w)), k);
    case O_LSHR: if (isC(e->b)) { unsigned s = (unsigned)e->b->val; unsigned an = nb(e->a); if (s >= an) return zbv(0, k); z3::expr x = zlow(e->a, an).extract(an - 1, s); return resize(x, k); }
      return resize(z3::lshr(zlow(e->a, e->w), zlow(e->b, e->w)), k);
    case O_ASHR: return resize(z3::ashr(zlow(e->a, e->w), zlow(e->b, e->w)), k);
    case K_ITE: return z3::ite(zbool(e->a), zlow(e->b, k), zlow(e->c, k));
    case K_ZEXT: return zlow(e->a, k > e->a->w ? e->a->w : k);
    case K_SEXT: if (k <= e->a->w) return zlow(e->a, k); return z3::sext(zlow(e->a, e->a->w), k - e->a->w);
    case K_EXTRACT: { unsigned an = nb(e->a); if (e->aux >= an) return zbv(0, k); unsigned top = std::min(an, e->aux + k);
        if (e->aux == 0) return resize(zlow(e->a, top), k);
        return resize(zlow(e->a, top).extract(top - 1, e->aux), k); }
    case K_CONCAT: { unsigned lw = e->b->w; if (k <= lw) return zlow(e->b, k); return z3::concat(zlow(e->a, k - lw), zlow(e->b, lw)); }
    case K_MODADD: { u128 m = e->c->val; unsigned b = nbits(m - 1) + 1; z3::expr x = zlow(e->a, b) + zlow(e->b, b); return resize(z3::ite(z3::uge(x, zbv(m, b)), x - zbv(m, b), x), k); }
    case K_MODSUB: { u128 m = e->c->val; unsigned b = nbits(m - 1) + 1; z3::expr x = zlow(e->a, b), y = zlow(e->b, b); return resize(z3::ite(z3::ult(x, y), x + zbv(m, b) - y, x - y), k); }
    case K_MODMUL: { u128 m = e->c->val; unsigned b = 2 * nbits(m - 1); return resize(z3::urem(zlow(e->a, b) * zlow(e->b, b), zbv(m, b)), k); }
    case K_MODINV: { u128 m = e->c->val; if (m > 4096) throw z3::exception("inverse modulo a large prime is not translated"); unsigned b = nbits(m - 1); z3::expr x = zlow(e->a, b), r = zbv(0, k);
        for (u128 i = 1; i < m; ++i) r = z3::ite(x == zbv(i, b), zbv(modinv_c(i, m) & maskw(k), k), r);
        return r; }
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_NOT:
      return z3::ite(zbool(e), zbv(1, 1), zbv(0, 1));
  }
  fprintf(stderr, "ffsym: cannot translate kind %d\n", e->kind);
  _exit(77);
}
static z3::expr zlow(Expr* e, unsigned k) {
  u64 key = ((u64)e->id << 9) | k;
  auto& cache = g_z->abs && hasDiv(e) ? g_z->acache : g_z->cache;
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  z3::expr r = zlow_(e, k);
  cache.emplace(key, r);
  return r;
}
static z3::expr zbool_(Expr* e) {
  switch (e->kind) {
    case K_FZERO: {
      auto& fp = (*g_fpolys)[e->aux]; u64 m = fp.first; unsigned mb = nbits(m - 1);
      // sum of products as plain integers, reduced when the width would exceed a limit
      const unsigned LIM = mb <= 8 ? 18 : 2 * mb;
      auto width = [](z3::expr x) { return x.get_sort().bv_size(); };
      auto red = [&](z3::expr x) { unsigned w = width(x); return w <= mb ? z3::zext(x, mb - w) : z3::urem(x, zbv(m, w)).extract(mb - 1, 0); };
      auto mul = [&](z3::expr x, z3::expr y) { if (width(x) + width(y) > LIM) { if (width(x) > mb) x = red(x); if (width(x) + width(y) > LIM && width(y) > mb) y = red(y); } unsigned w = width(x) + width(y); return z3::zext(x, w - width(x)) * z3::zext(y, w - width(y)); };
      std::vector<z3::expr> ts;
      u128 tot = 0;
      for (auto& t : fp.second) {
        z3::expr x = zbv(t.second, nbits(t.second)); bool one = t.second == 1;
        for (auto& v : t.first) { Expr* a = (*g_atoms)[v.first]; unsigned n = nb(a); z3::expr y = zlow(a, n); for (u64 q = v.second; q; q >>= 1) { if (q & 1) { if (one) { x = y; one = false; } else x = mul(x, y); } if (q > 1) y = mul(y, y); } }
        tot += maskw(width(x)); ts.push_back(x);
      }
      unsigned w = std::max(nbits(tot), mb);
      z3::expr sum = zbv(0, w);
      for (auto& x : ts) sum = sum + z3::zext(x, w - width(x));
      return z3::urem(sum, zbv(m, w)) == zbv(0, w);
    }
    case K_CONST: return g_z->c.bool_val(e->val != 0);
    case K_NOT: return !zbool(e->a);
    case O_AND: return zbool(e->a) && zbool(e->b);
    case O_OR: return zbool(e->a) || zbool(e->b);
    case O_XOR: return zbool(e->a) != zbool(e->b);
    case K_ITE: return z3::ite(zbool(e->a), zbool(e->b), zbool(e->c));
    case K_EQ: case K_ULT: case K_ULE: {
      if (e->a->w == 1 && e->kind == K_EQ) return zbool(e->a) == zbool(e->b);
      unsigned m = std::max(nb(e->a), nb(e->b));
      if (e->kind == K_EQ) m = std::min(m, std::max(nsb(e->a), nsb(e->b)));
      z3::expr x = zlow(e->a, m), y = zlow(e->b, m);
      return e->kind == K_EQ ? x == y : e->kind == K_ULT ? z3::ult(x, y) : z3::ule(x, y);
    }
    case K_SLT: case K_SLE: {
      unsigned m = std::max(nsb(e->a), nsb(e->b));
      z3::expr x = zlow(e->a, m), y = zlow(e->b, m);
      return e->kind == K_SLT ? x < y : x <= y;
    }
  }
  return zlow(e, 1) == zbv(1, 1);
}
static z3::expr zbool(Expr* e) {
  auto& cache = g_z->abs && hasDiv(e) ? g_z->abcache : g_z->bcache;
  auto it = cache.find(e->id);
  if (it != cache.end()) return it->second;
  z3::expr r = zbool_(e);
  cache.emplace(e->id, r);
  return r;
}

// ------------------------------------------------------------------ solver: independence slicing + one-shot queries
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct VarSet { std::vector<u32> v; };
static std::unordered_map<Expr*, std::vector<u32>>* g_vs;
static const std::vector<u32>& vars_of(Expr* e) {
  auto it = g_vs->find(e);
  if (it != g_vs->end()) return it->second;
  std::vector<u32> r;
  if (e->kind == K_VAR) r.push_back(e->aux);
  else if (e->kind == K_FZERO) {
    std::set<u32> at; for (auto& t : (*g_fpolys)[e->aux].second) for (auto& v : t.first) at.insert(v.first);
    std::set<u32> vs; for (u32 a : at) { auto& y = vars_of((*g_atoms)[a]); vs.insert(y.begin(), y.end()); }
    r.assign(vs.begin(), vs.end());
  }
  else if (e->kind != K_CONST)
    for (Expr* x : {e->a, e->b, e->c}) if (x) { auto& y = vars_of(x); std::vector<u32> t; std::set_union(r.begin(), r.end(), y.begin(), y.end(), std::back_inserter(t)); r.swap(t); }
  return (*g_vs)[e] = r;
}
static std::vector<Expr*>* g_pc;              // all constraints in order
static std::vector<int>* g_uf;                // union find over vars
static int uf(int x) { while ((*g_uf)[x] != x) x = (*g_uf)[x] = (*g_uf)[(*g_uf)[x]]; return x; }
static void uniteVars(const std::vector<u32>& v) { for (size_t i = 1; i < v.size(); ++i) { int a = uf(v[0]), b = uf(v[i]); if (a != b) (*g_uf)[a] = b; } }
static void setRange(Expr* x, const Rng& r) {
  if (isC(x)) return;
  if (x->kind == K_VAR) { /* declared range constraints stay in the path condition */ }
  x->lo = std::max(x->lo, r.lo); x->hi = std::min(x->hi, r.hi); x->slo = std::max(x->slo, r.slo); x->shi = std::min(x->shi, r.shi);
  normRange(x);
  // propagate to the operand of simple wrappers
  if (x->kind == K_ZEXT) { Expr* a = x->a; a->lo = std::max(a->lo, x->lo); a->hi = std::min(a->hi, x->hi); normRange(a); }
}
static void narrow(Expr* e, bool tv) {
  if (e->kind == K_NOT) return narrow(e->a, !tv);
  if (e->kind != K_ULT && e->kind != K_ULE && e->kind != K_SLT && e->kind != K_SLE && !(e->kind == K_EQ && tv)) return;
  Expr *x = e->a, *y = e->b;
  // the operands themselves must be translated with the old ranges first (done by zbool)
  Rng rx = under(x, e, tv), ry = under(y, e, tv);
  if (e->kind == K_EQ && isC(y)) rx = Rng{y->lo, y->hi, y->slo, y->shi};
  setRange(x, rx); setRange(y, ry);
}
static u64 g_fieldmod; // the modulus in use (the first one seen; facts about plain atoms are recorded for it)
static void noteField(Expr* eq, bool zero) { // a == b (zero) or a != b is known
  u64 m = g_fieldmod; if (!m) return;
  Expr *a = eq->a, *b = eq->b;
  if (a->w == 1 || a->hi >= m || b->hi >= m) return;
  if (isC(a) && isC(b)) return;
  if (a->kind == K_ITE || b->kind == K_ITE) return;
  auto x = frac(a, m), y = frac(b, m);
  if (!x || !y || !pone(x->d) || !pone(y->d)) return;
  FPoly u = x->n; psub(u, y->n, m);
  if (u.empty() || (u.size() == 1 && u.begin()->first.empty())) return;
  (zero ? g_zeros : g_nonzero)->push_back({m, u});
}
static void noteOrder(Expr* c) { // x < y makes y non-zero; x <= y makes x zero whenever y is
  u64 m = g_fieldmod; if (!m || isC(c->b)) return;
  Expr *x = c->a, *y = c->b;
  if (x->w == 1 || y->hi >= m || y->kind == K_ITE || !(isFieldK(y->kind) || y->kind == K_VAR || y->kind == K_ZEXT)) return;
  auto fy = frac(y, m); if (!fy || fy->n.empty() || fconst(fy->n)) return;
  if (c->kind == K_ULT) { g_nonzero->push_back({m, fy->n}); return; }
  if (x->hi >= m || x->kind == K_ITE || isC(x)) return;
  auto fx = frac(x, m); if (!fx || fx->n.empty() || fconst(fx->n)) return;
  g_order->push_back({fx->n, fy->n});
}
static void noteFact(Expr* c) {
  if (c->kind == K_NOT && c->a->kind == K_FZERO) g_nonzero->push_back((*g_fpolys)[c->a->aux]);
  if (c->kind == K_FZERO) g_zeros->push_back((*g_fpolys)[c->aux]);
  if (c->kind == K_NOT && c->a->kind == K_EQ) noteField(c->a, false);
  if (c->kind == K_EQ) noteField(c, true);
  if (c->kind == K_ULT || c->kind == K_ULE) noteOrder(c);
}
static std::unordered_map<Expr*, bool>* g_hasfp;
static bool hasFp(Expr* e) {
  if (!e) return false;
  if (e->kind == K_FP_TOU || e->kind == K_FP_TOS || isFpK(e->kind)) return true;
  auto it = g_hasfp->find(e); if (it != g_hasfp->end()) return it->second;
  bool r = hasFp(e->a) || hasFp(e->b) || hasFp(e->c);
  return (*g_hasfp)[e] = r;
}
static int fpQuery(Expr* cond, const std::vector<Expr*>& cs, std::vector<u128>* model);
static std::unordered_set<Expr*>* g_notrans; // facts without a translation: z3 must not be asked about their groups
static void addPC(Expr* e) {
  if (isC(e)) return;
  if (!g_known->insert(e).second) return;
  if (e->kind == O_AND) { addPC(e->a); addPC(e->b); return; }
  if (e->kind == K_NOT && e->a->kind == O_OR) { addPC(e_not(e->a->a)); addPC(e_not(e->a->b)); return; }
  if (opt.fp && hasFp(e)) { g_pc->push_back(e); uniteVars(vars_of(e)); return; } // no bit-vector translation
  noteFact(e);
  try { // translate before the ranges below are narrowed by this very fact
    zbool(e);
    if (hasDiv(e)) { g_z->abs = true; zbool(e); g_z->abs = false; }
  } catch (z3::exception&) { // no translation: only the exhaustive layer can decide this group, z3 answers unknown
    g_z->abs = false; if (!g_notrans) g_notrans = new std::unordered_set<Expr*>(); g_notrans->insert(e);
  }
  g_pc->push_back(e);
  uniteVars(vars_of(e));
  narrow(e, true);
}
// independent-group solvers are cached incrementally: one solver per query group signature would be complex;
// we keep a solver per union-find root version.
struct GroupSolver { z3::solver s; size_t upto = 0; int root = -1; GroupSolver(z3::context& c) : s(c) {} };
static std::map<std::vector<u32>, GroupSolver*>* g_gs;


// ------------------------------------------------------------------ concrete evaluation under another assignment
static std::vector<u128>* g_ev; static std::vector<u32>* g_evgen; static u32 g_gen;
static bool g_evbad;
static u128 evalAt(Expr* e, const std::vector<u128>& in);
static long double evalFp(Expr* e, const std::vector<u128>& in) {
  auto rnd = [&](long double v) -> long double { return e->aux == 64 ? (long double)(double)v : e->aux == 32 ? (long double)(float)v : v; };
  switch (e->kind) {
    case K_FP_CONST: return e->fval;
    case K_FP_FROMU: { u64 v = (u64)evalAt(e->a, in); return e->aux == 64 ? (long double)(double)v : e->aux == 32 ? (long double)(float)v : (long double)v; }
    case K_FP_FROMS: { i64 v = (i64)sx(evalAt(e->a, in), e->a->w); return e->aux == 64 ? (long double)(double)v : e->aux == 32 ? (long double)(float)v : (long double)v; }
    case K_FP_CVT: return rnd(evalFp(e->a, in));
    case K_FP_BIN: { long double x = evalFp(e->a, in), y = evalFp(e->b, in);
      if (e->aux == 64) { double a = (double)x, b = (double)y; return e->fpop == F_ADD ? a + b : e->fpop == F_SUB ? a - b : e->fpop == F_MUL ? a * b : a / b; }
      if (e->aux == 32) { float a = (float)x, b = (float)y; return e->fpop == F_ADD ? a + b : e->fpop == F_SUB ? a - b : e->fpop == F_MUL ? a * b : a / b; }
      return e->fpop == F_ADD ? x + y : e->fpop == F_SUB ? x - y : e->fpop == F_MUL ? x * y : x / y; }
  }
  g_evbad = true; return 0;
}
static u128 evalAt(Expr* e, const std::vector<u128>& in) {
  if (isC(e)) return e->val;
  if (e->kind == K_VAR) return in[e->aux];
  if (e->id >= g_ev->size()) { g_ev->resize(g_ids + 1024); g_evgen->resize(g_ids + 1024); }
  if ((*g_evgen)[e->id] == g_gen) return (*g_ev)[e->id];
  unsigned w = e->w; u128 r = 0;
  auto E = [&](Expr* x) { return evalAt(x, in); };
  switch (e->kind) {
    case K_EQ: r = E(e->a) == E(e->b); break; case K_ULT: r = E(e->a) < E(e->b); break; case K_ULE: r = E(e->a) <= E(e->b); break;
    case K_SLT: r = sx(E(e->a), e->a->w) < sx(E(e->b), e->b->w); break; case K_SLE: r = sx(E(e->a), e->a->w) <= sx(E(e->b), e->b->w); break;
    case K_NOT: r = !E(e->a); break;
    case K_ITE: r = E(e->a) ? E(e->b) : E(e->c); break;
    case K_ZEXT: r = E(e->a); break; case K_SEXT: r = (u128)sx(E(e->a), e->a->w); break;
    case K_EXTRACT: r = E(e->a) >> e->aux; break; case K_CONCAT: r = (E(e->a) << e->b->w) | E(e->b); break;
    case K_MODADD: r = (E(e->a) + E(e->b)) % e->c->val; break; case K_MODSUB: { u128 y = E(e->b) % e->c->val; r = (E(e->a) + e->c->val - y) % e->c->val; break; }
    case K_MODMUL: r = E(e->a) * E(e->b) % e->c->val; break; case K_MODINV: r = modinv_c(E(e->a), e->c->val); break;
    case K_FZERO: { auto& fp = (*g_fpolys)[e->aux]; u64 m = fp.first, s = 0; for (auto& t : fp.second) { u64 x = t.second; for (auto& v : t.first) { u64 b = (u64)(E((*g_atoms)[v.first]) % m); x = mmul(x, mpow(b, v.second, m), m); } s = (u64)(((unsigned __int128)s + x) % m); } r = s == 0; break; }
    case K_FP_TOU: { long double v = evalFp(e->a, in); if (!(v > -1.0L && v < 18446744073709551616.0L)) g_evbad = true; else r = (u64)v; break; }
    case K_FP_TOS: { long double v = evalFp(e->a, in); if (!(v >= -9223372036854775808.0L && v < 9223372036854775808.0L)) g_evbad = true; else r = (u128)(i64)v; break; }
    default: if (e->kind < 100) r = evalbin(e->kind, w, E(e->a), E(e->b)); else { g_evbad = true; r = 0; }
  }
  r &= maskw(w);
  (*g_ev)[e->id] = r; (*g_evgen)[e->id] = g_gen;
  return r;
}
static u64 st_guess = 0, st_idealok = 0, st_anorm = 0; static volatile int g_busy = 0; struct Busy { Busy() { ++g_busy; } ~Busy() { --g_busy; } };
static bool guess(Expr* cond, const std::vector<Expr*>& cs, const std::vector<u32>& gv, std::vector<u128>* model) {
  if (gv.empty() || gv.size() > 64) return false;
  std::vector<u128> in = g_used;
  const std::vector<u32>& cv = vars_of(cond);
  static u64 rs = 0x9E3779B97F4A7C15ull * (opt.seed + 1);
  auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
  double t0 = now();
  size_t work = 0;
  for (int it = 0; it < 400; ++it) {
    if ((it & 7) == 7 && now() - t0 > 0.05) break;
    std::vector<u32> ch;
    int k = it < (int)(3 * cv.size()) ? 1 : 1 + rnd() % 3;
    for (int i = 0; i < k; ++i) ch.push_back((rnd() & 3) ? cv[rnd() % cv.size()] : gv[rnd() % gv.size()]);
    if (it > 200 && (rnd() & 1)) ch = gv;
    for (u32 v : ch) { u128 lo = g_lo[v], hi = g_hi[v], n = hi - lo + 1; u128 x = n > (u128)1 << 62 ? (u128)rnd() : lo + (u128)(rnd()) % n; if (n > 1000 && !(rnd() & 3)) x = lo + rnd() % 8; if (x < lo) x = lo; if (x > hi) x = hi; in[v] = x; }
    ++g_gen; g_evbad = false;
    bool ok = evalAt(cond, in) & 1;
    if (ok) for (Expr* e : cs) if (!(evalAt(e, in) & 1)) { ok = false; break; }
    if (g_evbad) return false;
    if (ok) { *model = in; ++st_guess; return true; }
    for (u32 v : ch) in[v] = g_used[v];
    (void)work;
  }
  return false;
}
// wide divisions with a symbolic divisor as uninterpreted functions (congruence, remainder < divisor, result <= dividend): sound for refutation
static bool absQuery(Expr* cond, const std::vector<Expr*>& cs) {
  bool any = hasDiv(cond); for (Expr* e : cs) any = any || hasDiv(e);
  if (!any) return false;
  std::unordered_set<Expr*> seen; std::vector<Expr*> divs;
  std::function<void(Expr*)> walk = [&](Expr* e) {
    if (!e || !hasDiv(e) || !seen.insert(e).second) return;
    walk(e->a); walk(e->b); walk(e->c);
    if (e->kind == K_FZERO) for (auto& t : (*g_fpolys)[e->aux].second) for (auto& v : t.first) walk((*g_atoms)[v.first]);
    if (isWideDiv(e)) divs.push_back(e);
  };
  walk(cond); for (Expr* e : cs) walk(e);
  if (divs.size() > 40) return false;
  bool r = false;
  g_z->abs = true;
  try {
    z3::solver s(g_z->c, "QF_FD"); z3::params p(g_z->c); p.set("timeout", 3000u); s.set(p);
    s.add(zbool(cond)); for (Expr* e : cs) s.add(zbool(e));
    for (size_t i = 0; i < divs.size(); ++i) {
      Expr* d = divs[i]; unsigned w = d->w; z3::expr x = zlow(d, w), a = zlow(d->a, w), b = zlow(d->b, w);
      if (d->kind == O_UREM) s.add(z3::implies(b != zbv(0, w), z3::ult(x, b)));
      s.add(z3::implies(b != zbv(0, w), z3::ule(x, a)));
      s.add(z3::implies(z3::ult(a, b), x == (d->kind == O_UREM ? a : zbv(0, w))));
      for (size_t j = 0; j < i; ++j) { Expr* f = divs[j]; if (f->kind != d->kind) continue; unsigned v = f->w, W = std::max(w, v); s.add(z3::implies(resize(a, W) == resize(zlow(f->a, v), W) && resize(b, W) == resize(zlow(f->b, v), W), resize(x, W) == resize(zlow(f, v), W))); }
    }
    r = s.check() == z3::unsat;
  } catch (z3::exception& ex) { if (opt.verbose) fprintf(stderr, "abs: %s\n", ex.msg()); r = false; }
  g_z->abs = false;
  return r;
}
// small finite groups (option --fd N: at most N assignments): the formula is evaluated at every assignment of its variables
static u64 st_fd = 0;
struct FdCache { std::vector<u128> ev; std::vector<u32> gen; };
struct FdGroup { size_t upto = 0; bool init = false, bad = false; std::vector<std::vector<u64>> s; std::vector<FdCache*> c; }; // c: values of the nodes under each assignment
static std::map<std::vector<u32>, FdGroup>* g_fd_groups;
static int fdQuery(Expr* cond, const std::vector<Expr*>& cs, const std::vector<u32>& gv, std::vector<u128>* model, u64 limit) {
  if (!opt.fd || gv.empty()) return -1;
  if (!g_fd_groups) g_fd_groups = new std::map<std::vector<u32>, FdGroup>();
  auto git = g_fd_groups->find(gv);
  if (git != g_fd_groups->end() && git->second.init) { if (git->second.s.size() > limit) return -1; }
  else { u128 n = 1; for (u32 v : gv) { n *= g_hi[v] - g_lo[v] + 1; if (n > std::min<u64>(opt.fd, limit)) return -1; } }
  auto& G = (*g_fd_groups)[gv];
  if (G.bad) return -1;
  if (!G.init) {
    G.init = true;
    std::vector<u64> a; for (u32 v : gv) a.push_back((u64)g_lo[v]);
    while (true) { G.s.push_back(a); size_t i = 0; for (; i < gv.size(); ++i) { if (a[i] < (u64)g_hi[gv[i]]) { ++a[i]; break; } a[i] = (u64)g_lo[gv[i]]; } if (i == gv.size()) break; }
  }
  if (G.c.size() != G.s.size()) G.c.resize(G.s.size(), nullptr);
  if (G.s.size() == 1 && G.upto == cs.size()) { // only the assignment of this run is left
    ++st_fd; bool c = cond->val & 1; if (c && model) *model = g_used; return c;
  }
  std::vector<u128> in = g_used;
  auto at = [&](const std::vector<u64>& a) { for (size_t i = 0; i < gv.size(); ++i) in[gv[i]] = a[i]; g_evbad = false; };
  std::vector<std::vector<u64>> keep; std::vector<FdCache*> kc;
  int r = 0;
  bool cache = G.s.size() * (g_ev->size() + 1) * 36 < (64u << 20);
  if (!cache) for (auto*& c : G.c) { delete c; c = nullptr; }
  for (size_t j = 0; j < G.s.size(); ++j) {
    auto& a = G.s[j];
    at(a);
    bool ok = true, bad = false; u32 og = g_gen;
    if (cache) { if (!G.c[j]) G.c[j] = new FdCache; g_ev->swap(G.c[j]->ev); g_evgen->swap(G.c[j]->gen); g_gen = 1; } else ++g_gen;
    for (size_t i = G.upto; ok && i < cs.size(); ++i) ok = evalAt(cs[i], in) & 1;
    if (ok && !r && !g_evbad) { bool c = evalAt(cond, in) & 1; if (c && !g_evbad) { r = 1; if (model) *model = in; } }
    bad = g_evbad;
    if (cache) { g_ev->swap(G.c[j]->ev); g_evgen->swap(G.c[j]->gen); g_gen = og; }
    if (bad) { G.bad = true; for (auto*& c : G.c) { delete c; c = nullptr; } return -1; }
    if (!ok) { delete G.c[j]; G.c[j] = nullptr; continue; }
    keep.push_back(a); kc.push_back(G.c[j]);
  }
  G.c.swap(kc);
  G.s.swap(keep); G.upto = cs.size();
  ++st_fd;
  return r;
}
static int query(Expr* cond, std::vector<u128>* model) {
  // 1 sat, 0 unsat, -1 unknown
  Busy busy;
  ++st_q;
  double t0 = now();
  std::vector<u32> vs = vars_of(cond);
  // group: all vars united with vs
  std::set<int> roots;
  for (u32 v : vs) roots.insert(uf(v));
  std::vector<Expr*> cs;
  std::vector<u32> gv;
  for (Expr* e : *g_pc) { auto& v = vars_of(e); if (!v.empty() && roots.count(uf(v[0]))) cs.push_back(e); }
  for (size_t i = 0; i < g_uf->size(); ++i) if (roots.count(uf(i))) gv.push_back(i);
  if (opt.fp) { bool f = hasFp(cond); for (Expr* e : cs) f = f || hasFp(e); if (f) { int r = fpQuery(cond, cs, model); st_time += now() - t0; if (r == 1) ++st_sat; else if (r == 0) ++st_unsat; else ++st_unk; return r; } }
  { int r = fdQuery(cond, cs, gv, model, 256); if (r >= 0) { st_time += now() - t0; if (r) ++st_sat; else ++st_unsat; return r; } }
  if (model && opt.guess && guess(cond, cs, gv, model)) { st_time += now() - t0; ++st_sat; return 1; }
  { // polynomial facts modulo a prime: refutation by ideal membership
    Expr* c = cond; bool neg = false; if (c->kind == K_NOT) { c = c->a; neg = true; }
    if (c->kind == K_FZERO && idealRefutes((*g_fpolys)[c->aux].second, !neg, (*g_fpolys)[c->aux].first)) { st_time += now() - t0; ++st_unsat; ++st_idealok; return 0; }
  }
  { int r = fdQuery(cond, cs, gv, model, opt.fd); if (r >= 0) { st_time += now() - t0; if (r) ++st_sat; else ++st_unsat; return r; } }
  if (g_notrans) for (Expr* e : cs) if (g_notrans->count(e)) { st_time += now() - t0; ++st_unk; return -1; }
  if (absQuery(cond, cs)) { st_time += now() - t0; ++st_unsat; return 0; }
  auto& gs = (*g_gs)[gv];
  if (!gs) {
    gs = new GroupSolver(g_z->c);
    if (opt.logic == "tactic") gs->s = (z3::tactic(g_z->c, "simplify") & z3::tactic(g_z->c, "solve-eqs") & z3::tactic(g_z->c, "bit-blast") & z3::tactic(g_z->c, "sat")).mk_solver();
    else gs->s = z3::solver(g_z->c, opt.logic.empty() ? "QF_FD" : opt.logic.c_str());
    z3::params p(g_z->c); p.set("timeout", (unsigned)opt.qtimeout); gs->s.set(p);
  }
  int r = -1;
  try {
    // constraints of a group only ever grow within a run (same var set => superset of constraints)
    for (size_t i = gs->upto; i < cs.size(); ++i) gs->s.add(zbool(cs[i]));
    gs->upto = cs.size();
    gs->s.push();
    gs->s.add(zbool(cond));
    z3::check_result cr = gs->s.check();
    if (cr == z3::unknown && opt.verbose) fprintf(stderr, "unknown: %s\n", gs->s.reason_unknown().c_str());
    r = cr == z3::sat ? 1 : cr == z3::unsat ? 0 : -1;
    if (r == 1 && model) {
      z3::model m = gs->s.get_model();
      *model = g_used;
      for (u32 v : gv) {
        z3::expr x = m.eval(g_z->vars[v], true);
        u128 val = 0;
        unsigned w = x.get_sort().bv_size();
        val = x.get_numeral_uint64(); // inputs have at most 64 bits
        (void)w;
        (*model)[v] = val;
      }
    }
    gs->s.pop();
  } catch (z3::exception& ex) {
    if (opt.verbose) fprintf(stderr, "z3: %s\n", ex.msg());
    r = -1;
    delete gs; (*g_gs).erase(gv);
  }
  if (getenv("FFSYM_DUMP") && now() - t0 > atof(getenv("FFSYM_DUMP"))) { static int k; char fn[100]; snprintf(fn, 100, "/tmp/q/%d_%d.smt2", getpid(), k++); FILE* f = fopen(fn, "w"); if (f) { z3::solver d(g_z->c); for (auto* e : cs) d.add(zbool(e)); d.add(zbool(cond)); fputs(d.to_smt2().c_str(), f); fprintf(f, "; %f\n", now() - t0); fclose(f); } }
  if (opt.verbose > 1) fprintf(stderr, "query %zu cs, %zu vars -> %d  %.3fs\n", cs.size(), gv.size(), r, now() - t0);
  st_time += now() - t0;
  if (r == 1) ++st_sat; else if (r == 0) ++st_unsat; else ++st_unk;
  return r;
}

// ------------------------------------------------------------------ messages child -> parent
static void sendAll(const std::string& s) {
  size_t o = 0;
  while (o < s.size()) { ssize_t n = write(g_fd, s.data() + o, s.size() - o); if (n <= 0) _exit(78); o += n; }
}
static std::string hex(u128 v) { char b[40]; snprintf(b, sizeof b, "%llx", (unsigned long long)v); return b; }
static std::string inputsStr(const std::vector<u128>& m) {
  std::string s;
  for (size_t i = 0; i < m.size(); ++i) { if (i) s += ' '; s += g_names[i] + "=" + hex(m[i]); }
  return s;
}
static std::string clean(const char* m) { std::string s(m); for (char& c : s) if (c == '\n' || c == '\t') c = ' '; return s; }
static void finish(const char* how) {
  std::string s = "E\t" + std::string(how) + "\n";
  std::string f;
  for (size_t i = 0; i < g_fn.size(); ++i) if (g_fn[i]) { f += std::to_string(i) + " "; }
  s += "F\t" + f + "\n";
  for (auto& e : g_externals) s += "X\t" + e + "\n";
  for (auto& e : g_expect) s += "P\t" + e + "\n";
  for (auto& e : g_reach) s += "R\t" + e + "\n";
  char b[300];
  snprintf(b, sizeof b, "S\t%llu %llu %llu %llu %f %llu %llu %zu %llu %llu %llu\n", (unsigned long long)st_q, (unsigned long long)st_sat, (unsigned long long)st_unsat, (unsigned long long)st_unk, st_time,
           (unsigned long long)st_assert, (unsigned long long)st_assert_proved, g_branches, (unsigned long long)st_idealok, (unsigned long long)st_anorm, (unsigned long long)st_fd);
  s += b;
  s += "I\t" + inputsStr(g_used) + "\n";
  sendAll(s);
  _exit(0);
}

extern "C" {
void _sym_external(const char* n) { if (g_active) { if (g_externals.insert(n).second) ++st_ext; } }
void _sym_fn(u32 id) { if (g_active) { if (id >= g_fn.size()) g_fn.resize(id + 1); g_fn[id] = 1; } }

static u64 g_hash = 0;
static inline u64 hmix(u64 h, bool t) { h ^= t ? 0x9E3779B97F4A7C15ull : 0x85EBCA6BC2B2AE3Dull; h *= 0xff51afd7ed558ccdull; return h ^ (h >> 31); }
static void trace(const char* w) { // debugging aid: where does the exploration fork?
  static int on = getenv("FFSYM_TRACE") ? 1 : 0; if (!on) return;
  void* b[12]; int n = backtrace(b, 12); fprintf(stderr, "TRACE %s\n", w); backtrace_symbols_fd(b, n, 2);
}
static void decide(Expr* e, bool taken) {
  // e is 1 bit; taken = concrete
  if (isC(e)) return;
  if ((bool)e->val != taken) { fprintf(stderr, "ffsym: stale shadow in branch (expr %d, concrete %d)\n", (int)e->val, (int)taken); finish("stale"); }
  Expr* c = taken ? e : e_not(e);
  if (isC(c)) return;
  if (g_known->count(c) || vars_of(c).empty()) { ++st_folded; return; }
  Expr* n = e_not(c);
  ++g_branches; trace("branch");
  u64 flipped = hmix(g_hash, !taken);
  g_hash = hmix(g_hash, taken);
  if (g_branches == g_run.prefix && g_run.hash && g_hash != g_run.hash) { fprintf(stderr, "ffsym: run diverged from its predicted path\n"); finish("diverged"); }
  if (g_branches > g_run.prefix) {
    if ((long)g_branches > opt.maxbranch) finish("branchlimit");
    std::vector<u128> m;
    int r = query(n, &m);
    if (r == 1) {
      std::string s = "W\t" + std::to_string(g_branches) + "\t" + std::to_string(flipped) + "\t";
      for (size_t i = 0; i < m.size(); ++i) s += (i ? " " : "") + hex(m[i]);
      s += "\n";
      sendAll(s);
    } else if (r == -1) sendAll("U\tbranch\n");
    else { // implied: still record as known, no need to add to the path condition
      // keep the very same state as a run that replays this prefix
    }
  }
  addPC(c);
}
void _sym_branch(Expr* e, bool taken, u32 site) { if (e && g_active) decide(e, taken); }
void _sym_pin(Expr* e) {
  if (!e || !g_active || isC(e)) return;
  if (isFpK(e->kind)) return;
  trace("pin");
  // binary search for the value: every decision is independent of the value this run happens to have
  u128 lo = e->lo, hi = e->hi, v = e->val;
  while (lo < hi) {
    u128 mid = lo + (hi - lo) / 2;
    bool below = v <= mid;
    decide(e_cmp(K_ULE, e, cst(mid, e->w)), below);
    if (below) hi = mid; else lo = mid + 1;
    if (e->lo > lo) lo = e->lo;
    if (e->hi < hi) hi = e->hi;
  }
  addPC(e_cmp(K_EQ, e, cst(v, e->w)));
}
void _sym_unconsumed(u32 n) { if (_sym_callee) { _sym_callee = nullptr; for (u32 i = 0; i < n; ++i) _sym_pin(_sym_args[i]); } }
void _sym_switch(Expr* e, u64 v, u32 n, const u64* cases, u32 site) {
  if (!e || !g_active || isC(e)) return;
  for (u32 i = 0; i < n; ++i) {
    bool eq = cases[i] == v;
    decide(e_cmp(K_EQ, e, cst(cases[i], e->w)), eq);
    if (eq) return;
  }
}
static inline Expr* up(Expr* e, u128 v, unsigned w) { return e ? e : cst(v, w); }
#define CHK(e, v) do { if (e && ((e)->val != ((v) & maskw((e)->w)))) { fprintf(stderr, "ffsym: stale shadow in op (w=%u kind=%d expr=%llx conc=%llx)\n", (e)->w, (e)->kind, (unsigned long long)(e)->val, (unsigned long long)(v)); finish("stale"); } } while (0)
static Expr* dobin(u32 op, u32 w, Expr* a, u128 av, Expr* b, u128 bv) {
  if (!g_active) return nullptr;
  CHK(a, av); CHK(b, bv);
  a = up(a, av, w); b = up(b, bv, w);
  Expr* r;
  switch (op) {
    case O_UMIN: r = e_ite(e_cmp(K_ULT, a, b), a, b); break;
    case O_UMAX: r = e_ite(e_cmp(K_ULT, a, b), b, a); break;
    case O_SMIN: r = e_ite(e_cmp(K_SLT, a, b), a, b); break;
    case O_SMAX: r = e_ite(e_cmp(K_SLT, a, b), b, a); break;
    case O_UADDSAT: { Expr* s = e_bin(O_ADD, a, b); r = e_ite(e_cmp(K_ULT, s, a), cst(maskw(w), w), s); break; }
    case O_USUBSAT: r = e_ite(e_cmp(K_ULT, a, b), cst(0, w), e_bin(O_SUB, a, b)); break;
    case O_UADDO: r = e_cmp(K_ULT, e_bin(O_ADD, a, b), a); break;
    case O_USUBO: r = e_cmp(K_ULT, a, b); break;
    case O_UMULO: { if (2 * w > WMAX) { _sym_pin(isC(a) ? nullptr : a); _sym_pin(isC(b) ? nullptr : b); return nullptr; }
      Expr* p = e_bin(O_MUL, e_zext(a, 2 * w), e_zext(b, 2 * w)); r = e_cmp(K_ULT, cst(maskw(w), 2 * w), p); break; }
    case O_SADDO: case O_SSUBO: case O_SMULO: {
      if (2 * w > WMAX) { _sym_pin(isC(a) ? nullptr : a); _sym_pin(isC(b) ? nullptr : b); return nullptr; }
      u32 o = op == O_SADDO ? O_ADD : op == O_SSUBO ? O_SUB : O_MUL;
      Expr* p = e_bin(o, e_sext(a, 2 * w), e_sext(b, 2 * w));
      r = e_not(e_cmp(K_EQ, p, e_sext(e_extract(p, 0, w), 2 * w))); break; }
    case O_UDIV: case O_SDIV: case O_UREM: case O_SREM:
      if (!isC(b) && b->lo == 0) decide(e_cmp(K_EQ, b, cst(0, w)), b->val == 0); // a zero divisor traps in the real program
      r = e_bin(op, a, b); break;
    default: r = e_bin(op, a, b);
  }
  return isC(r) ? nullptr : r;
}
Expr* _sym_bin(u32 op, u32 w, Expr* a, u64 av, Expr* b, u64 bv) { if (!a && !b) return nullptr; return dobin(op, w, a, av, b, bv); }
static inline u128 rdw(const u64* p, u32 w) { u128 v = 0; for (int i = (int)((w + 63) / 64) - 1; i >= 0; --i) v = (v << 64) | p[i]; return v & maskw(w); }
Expr* _sym_bin128(u32 op, u32 w, Expr* a, const u64* av, Expr* b, const u64* bv) { if (!a && !b) return nullptr; return dobin(op, w, a, rdw(av, w), b, rdw(bv, w)); }
static Expr* docmp(u32 p, u32 w, Expr* a, u128 av, Expr* b, u128 bv) {
  if (!g_active) return nullptr;
  CHK(a, av); CHK(b, bv);
  a = up(a, av, w); b = up(b, bv, w);
  Expr* r;
  switch (p) {
    case P_EQ: r = e_cmp(K_EQ, a, b); break; case P_NE: r = e_not(e_cmp(K_EQ, a, b)); break;
    case P_ULT: r = e_cmp(K_ULT, a, b); break; case P_ULE: r = e_cmp(K_ULE, a, b); break;
    case P_UGT: r = e_cmp(K_ULT, b, a); break; case P_UGE: r = e_cmp(K_ULE, b, a); break;
    case P_SLT: r = e_cmp(K_SLT, a, b); break; case P_SLE: r = e_cmp(K_SLE, a, b); break;
    case P_SGT: r = e_cmp(K_SLT, b, a); break; default: r = e_cmp(K_SLE, b, a);
  }
  return isC(r) ? nullptr : r;
}
Expr* _sym_cmp(u32 p, u32 w, Expr* a, u64 av, Expr* b, u64 bv) { if (!a && !b) return nullptr; return docmp(p, w, a, av, b, bv); }
Expr* _sym_cmp128(u32 p, u32 w, Expr* a, const u64* av, Expr* b, const u64* bv) { if (!a && !b) return nullptr; return docmp(p, w, a, rdw(av, w), b, rdw(bv, w)); }
static Expr* nz(Expr* r) { return isC(r) ? nullptr : r; }
Expr* _sym_cast(u32 op, u32 f, u32 t, Expr* a) {
  if (!a || !g_active) return nullptr;
  if (isFpK(a->kind)) return nullptr;
  return nz(op == C_ZEXT ? e_zext(a, t) : op == C_SEXT ? e_sext(a, t) : e_extract(a, 0, t));
}
Expr* _sym_un(u32 op, u32 w, Expr* a) {
  if (!a || !g_active) return nullptr;
  switch (op) {
    case U_BSWAP: { Expr* r = e_extract(a, 0, 8); for (unsigned i = 1; i < w / 8; ++i) r = e_concat(r, e_extract(a, 8 * i, 8)); return nz(r); }
    case U_ABS: return nz(e_ite(e_cmp(K_SLT, a, cst(0, w)), e_bin(O_SUB, cst(0, w), a), a));
    case U_CTPOP: { Expr* r = cst(0, w); for (unsigned i = 0; i < w; ++i) r = e_bin(O_ADD, r, e_zext(e_extract(a, i, 1), w)); return nz(r); }
    case U_CTLZ: { Expr* r = cst(w, w); for (unsigned i = 0; i < w; ++i) r = e_ite(e_extract(a, i, 1), cst(w - 1 - i, w), r); return nz(r); }
    case U_CTTZ: { Expr* r = cst(w, w); for (unsigned i = w; i-- > 0;) r = e_ite(e_extract(a, i, 1), cst(i, w), r); return nz(r); }
  }
  return nullptr;
}
Expr* _sym_fsh(u32 left, u32 w, Expr* a, u64 av, Expr* b, u64 bv, Expr* s, u64 sv) {
  if (!a && !b && !s) return nullptr;
  if (!g_active) return nullptr;
  _sym_pin(s);
  unsigned k = sv % w;
  a = up(a, av, w); b = up(b, bv, w);
  if (left) { if (!k) return nz(a); return nz(e_bin(O_OR, e_bin(O_SHL, a, cst(k, w)), e_bin(O_LSHR, b, cst(w - k, w)))); }
  if (!k) return nz(b);
  return nz(e_bin(O_OR, e_bin(O_SHL, a, cst(w - k, w)), e_bin(O_LSHR, b, cst(k, w))));
}
static Expr* dosel(Expr* sc, bool c, Expr* st, u128 tv, Expr* sf, u128 fv, u32 w) {
  if (!sc || !g_active) return c ? st : sf;
  if ((st && isFpK(st->kind)) || (sf && isFpK(sf->kind))) { _sym_pin(sc); return c ? st : sf; }
  CHK(sc, (u128)c); CHK(st, tv); CHK(sf, fv);
  return nz(e_ite(sc, up(st, tv, w), up(sf, fv, w)));
}
Expr* _sym_select(Expr* sc, bool c, Expr* st, u64 tv, Expr* sf, u64 fv, u32 w) { return dosel(sc, c, st, tv, sf, fv, w); }
Expr* _sym_select128(Expr* sc, bool c, Expr* st, const u64* tv, Expr* sf, const u64* fv, u32 w) { if (!sc && !st && !sf) return nullptr; return dosel(sc, c, st, rdw(tv, w), sf, rdw(fv, w), w); }

Expr* _sym_gepoff(Expr* off, Expr* s, u64 v, u64 scale, u32 w) {
  if (!s || !g_active) return off;
  Expr* x = w == 64 ? s : w < 64 ? e_sext(s, 64) : e_extract(s, 0, 64);
  x = e_bin(O_MUL, x, cst(scale, 64));
  return off ? e_bin(O_ADD, off, x) : x;
}
Expr* _sym_gepfin(void* p, Expr* base, Expr* off) {
  if ((!base && !off) || !g_active) return nullptr;
  u64 k = (u64)p - (u64)(base ? base->val : 0) - (u64)(off ? off->val : 0);
  Expr* r = base ? base : cst(0, 64);
  if (off) r = e_bin(O_ADD, r, off);
  return nz(e_bin(O_ADD, r, cst(k, 64)));
}

// ------------------------------------------------------------------ shadow memory
struct SB { Expr* e; u32 off; };
struct Page { SB b[4096]; };
}
static std::unordered_map<u64, Page*>* g_pages;
static u8 g_bloom[1 << 20];
static u64 g_lastp = ~0ull; static Page* g_lastpg = nullptr;
static inline Page* page(u64 addr, bool create) {
  u64 n = addr >> 12;
  if (n == g_lastp) return g_lastpg;
  u32 h = (u32)((n * 0x9E3779B97F4A7C15ull) >> 44);
  if (!create && !g_bloom[h]) return nullptr;
  auto it = g_pages->find(n);
  if (it == g_pages->end()) {
    if (!create) return nullptr;
    Page* p = (Page*)calloc(1, sizeof(Page));
    g_bloom[h] = 1;
    it = g_pages->emplace(n, p).first;
  }
  g_lastp = n; g_lastpg = it->second;
  return it->second;
}
extern "C" {
static void clearRange(u64 a, u64 n) {
  while (n) {
    u64 k = std::min<u64>(n, 4096 - (a & 4095));
    Page* p = page(a, false);
    if (p) memset(&p->b[a & 4095], 0, k * sizeof(SB));
    a += k; n -= k;
  }
}
void _sym_clear(void* a, u64 n) { if (g_active && g_pages) clearRange((u64)a, n); }
void _sym_store(void* a_, u32 n, Expr* e) {
  if (!g_active) return;
  n &= 0xff;
  u64 a = (u64)a_;
  if (!e) {
    if ((a & 4095) + n <= 4096) { Page* p = page(a, false); if (p) memset(&p->b[a & 4095], 0, n * sizeof(SB)); }
    else clearRange(a, n);
    return;
  }
  for (u32 i = 0; i < n; ++i) { Page* p = page(a + i, true); p->b[(a + i) & 4095] = SB{e, i * 8}; }
}
static Expr* byteOf(SB& b) { return e_extract(b.e, b.off, 8); }
static Expr* doload(u64 a, u32 n, u128 v) {
  if (n & 0x100) { // fp load: only whole stored fp expressions are understood, anything else is pinned
    n &= 0xff;
    Page* p = page(a, false);
    if (!p) return nullptr;
    SB& b0 = p->b[a & 4095];
    if (b0.e && isFpK(b0.e->kind) && b0.off == 0) return b0.e;
    for (u32 i = 0; i < n; ++i) { Page* q = page(a + i, false); if (q) { SB& b = q->b[(a + i) & 4095]; if (b.e && !isFpK(b.e->kind)) _sym_pin(byteOf(b)); } }
    return nullptr;
  }
  bool any = false, same = true;
  SB first{nullptr, 0};
  for (u32 i = 0; i < n; ++i) {
    Page* p = page(a + i, false);
    SB b = p ? p->b[(a + i) & 4095] : SB{nullptr, 0};
    if (i == 0) first = b;
    if (b.e) any = true;
    if (b.e != first.e || b.off != first.off + 8 * i) same = false;
  }
  if (!any) return nullptr;
  if (first.e && isFpK(first.e->kind)) return nullptr;
  if (same && first.e) {
    if (((first.e->val >> first.off) & maskw(8 * n)) == (v & maskw(8 * n))) { Expr* r = e_extract(first.e, first.off, 8 * n); return isC(r) ? nullptr : r; }
  }
  Expr* r = nullptr;
  for (u32 i = 0; i < n; ++i) {
    Page* p = page(a + i, false);
    u8 cv = (u8)(v >> (8 * i));
    Expr* be = nullptr;
    if (p) { SB& b = p->b[(a + i) & 4095]; if (b.e && !isFpK(b.e->kind)) { if ((u8)(b.e->val >> b.off) == cv) be = byteOf(b); else b = SB{nullptr, 0}; } }
    if (!be) be = cst(cv, 8);
    r = r ? e_concat(be, r) : be;
  }
  return isC(r) ? nullptr : r;
}
Expr* _sym_load(void* a, u32 n, u64 v) {
  if (!g_active) return nullptr;
  u64 ad = (u64)a;
  u32 k = n & 0xff;
  if ((ad & 4095) + k <= 4096) { Page* p = page(ad, false); if (!p) return nullptr; 
    bool any = false; for (u32 i = 0; i < k; ++i) if (p->b[(ad & 4095) + i].e) { any = true; break; } if (!any) return nullptr; }
  return doload(ad, n, v);
}
Expr* _sym_load128(void* a, u32 n, const u64* v) { if (!g_active) return nullptr; return doload((u64)a, n, rdw(v, n * 8)); }
void _sym_pinmem(void* a_, u64 n) {
  if (!g_active) return;
  u64 a = (u64)a_;
  for (u64 i = 0; i < n; ++i) {
    Page* p = page(a + i, false);
    if (!p) continue;
    SB& b = p->b[(a + i) & 4095];
    if (!b.e || isFpK(b.e->kind)) continue;
    if ((u8)(b.e->val >> b.off) != *(u8*)(a + i)) continue;
    _sym_pin(byteOf(b));
  }
}
void _sym_memcpy(void* d_, void* s_, u64 n) {
  if (!g_active) return;
  u64 d = (u64)d_, s = (u64)s_;
  if (d == s || !n) return;
  // fast: no symbolic source and no symbolic dest pages
  bool any = false;
  for (u64 x = s & ~4095ull; x < s + n && !any; x += 4096) if (page(x, false)) any = true;
  if (!any) { clearRange(d, n); return; }
  std::vector<SB> t(n);
  bool sym = false;
  for (u64 i = 0; i < n; ++i) { Page* p = page(s + i, false); t[i] = p ? p->b[(s + i) & 4095] : SB{nullptr, 0}; if (t[i].e) sym = true; }
  if (!sym) { clearRange(d, n); return; }
  for (u64 i = 0; i < n; ++i) {
    Page* p = page(d + i, t[i].e != nullptr);
    if (p) p->b[(d + i) & 4095] = t[i];
  }
}
void _sym_memset(void* d, Expr* e, u64 n) {
  if (!g_active) return;
  if (!e) { clearRange((u64)d, n); return; }
  for (u64 i = 0; i < n; ++i) page((u64)d + i, true)->b[((u64)d + i) & 4095] = SB{e, 0};
}

// ------------------------------------------------------------------ floating point (only with --fp; otherwise conversions are pinned)
Expr* _sym_i2f(u32 op, u32 fmt, Expr* a, long double v) {
  if (!a || !g_active) return nullptr;
  if (!opt.fp) { _sym_pin(a); return nullptr; }
  return mk(op == F_UITOFP ? K_FP_FROMU : K_FP_FROMS, 256, fmt, a, 0, 0, 0, 0, maskw(WMAX), 0, 0, v);
}
static Expr* fcst(long double v) { u64 bb[4] = {0, 0, 0, 0}; memcpy(bb, &v, 10); u128 bits = rdw(bb, 128); return mk(K_FP_CONST, 256, 80, 0, 0, 0, 0, 0, maskw(WMAX), 0, bits, v); }
Expr* _sym_fbin(u32 op, u32 fmt, Expr* a, long double av, Expr* b, long double bv, long double rv) {
  if ((!a && !b) || !g_active || !opt.fp) return nullptr;
  return mk(K_FP_BIN, 256, fmt, a ? a : fcst(av), b ? b : fcst(bv), 0, 0, 0, maskw(WMAX), op, 0, rv);
}
Expr* _sym_fext(u32 op, u32 fmt, Expr* a, long double v) {
  if (!a || !g_active || !opt.fp) return nullptr;
  if (op == F_EXT) return mk(K_FP_CVT, 256, fmt, a, 0, 0, 0, 0, maskw(WMAX), op, 0, v);
  return mk(K_FP_CVT, 256, fmt, a, 0, 0, 0, 0, maskw(WMAX), op, 0, v);
}
Expr* _sym_f2i(u32 op, u32 w, Expr* a, long double fv, u64 v) {
  if (!a || !g_active || !opt.fp) return nullptr;
  return mk(op == F_FPTOUI ? K_FP_TOU : K_FP_TOS, w, a->aux, a, 0, 0, v, 0, maskw(w));
}
}
#include "fpmode.inc"

// ------------------------------------------------------------------ harness API
#define ARG(i) (_sym_args[i])
#define RET(e) do { Expr* r_ = (e); _sym_ret[0] = (r_ && !isC(r_)) ? r_ : nullptr; } while (0)
extern "C" {
static std::string symName(const char* n) {
  std::string s(n); int k = 0; std::string t = s;
  while (std::find(g_names.begin(), g_names.end(), t) != g_names.end()) t = s + "#" + std::to_string(++k);
  return t;
}
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi) {
  size_t i = g_names.size();
  g_names.push_back(symName(name));
  g_lo.push_back(lo); g_hi.push_back(hi);
  u128 v = i < g_run.in.size() ? g_run.in[i] : (u128)lo;
  if (v < lo || v > hi) v = lo;
  g_used.push_back(v);
  unsigned w = nbits(hi);
  if (lo == hi) { g_uf->push_back(i); g_z->vars.push_back(g_z->c.bv_const(g_names[i].c_str(), w)); RET(nullptr); return lo; }
  g_z->vars.push_back(g_z->c.bv_const(g_names[i].c_str(), w));
  g_uf->push_back(i);
  Expr* e = mk(K_VAR, w, i, 0, 0, 0, v, lo, hi, 0, i);
  // range constraints (not interval-folded)
  Expr* full = e;
  u128 L = full->lo, H = full->hi;
  if (L > 0 || H < maskw(w)) {
    full->lo = 0; full->hi = maskw(w);
    if (H < maskw(w)) { Expr* c = mk(K_ULE, 1, 0, full, cst(H, w), 0, 1, 0, 1); g_known->insert(c); g_pc->push_back(c); zbool(c); }
    if (L > 0) { Expr* c = mk(K_ULE, 1, 0, cst(L, w), full, 0, 1, 0, 1); g_known->insert(c); g_pc->push_back(c); zbool(c); }
    full->lo = L; full->hi = H;
    for (Expr* c : *g_pc) (void)vars_of(c);
  }
  RET(e_zext(e, 64));
  return (u64)v;
}
void sym_assume(bool c) {
  Expr* e = ARG(0);
  ARG(0) = nullptr;
  if (!e || isC(e)) { if (!c) finish("assume"); return; }
  if (c) { // does not fork: the negation is outside the claim
    addPC(e);
    return;
  }
  // concrete run violates the assumption: try to find an input on this path that satisfies it
  std::vector<u128> m;
  int r = query(e, &m);
  if (r == 1) {
    std::string s = "W\t" + std::to_string(g_branches) + "\t" + std::to_string(g_hash) + "\t";
    for (size_t i = 0; i < m.size(); ++i) s += (i ? " " : "") + hex(m[i]);
    sendAll(s + "\n");
  } else if (r == -1) sendAll("U\tassume\n");
  finish("assume");
}
static void report(const char* kind, const char* msg, const std::vector<u128>& m) {
  sendAll("V\t" + std::string(kind) + "\t" + clean(msg) + "\t" + inputsStr(m) + "\n");
}
void sym_assert(bool c, const char* msg) {
  Expr* e = ARG(0);
  ARG(0) = ARG(1) = nullptr;
  ++st_assert;
  if (!e || isC(e)) { if (!c) { report("assert", msg, g_used); finish("violation"); } ++st_assert_proved; ++st_anorm; return; }
  if (!c) { report("assert", msg, g_used); finish("violation"); }
  if (g_known->count(e)) { ++st_assert_proved; return; }
  std::vector<u128> m;
  int r = opt.fp ? fp_check(e, &m) : query(e_not(e), &m);
  if (r == 1) { report("assert", msg, m); }
  else if (r == -1) sendAll("U\tassert: " + clean(msg) + "\n");
  else ++st_assert_proved;
  addPC(e);
}
void sym_reach(const char* tag) { ARG(0) = nullptr; if (g_active) g_reach.insert(tag); }
void sym_expect_reach(const char* tag) { ARG(0) = nullptr; if (g_active) g_expect.insert(tag); }
uint64_t sym_concretize(uint64_t v) { Expr* e = ARG(0); ARG(0) = nullptr; _sym_pin(e); RET(nullptr); return v; }
int sym_is_symbolic(uint64_t v) { Expr* e = ARG(0); ARG(0) = nullptr; RET(nullptr); return e && !isC(e); }
void sym_limit(const char* w) { ARG(0) = nullptr; sendAll("U\t" + clean(w) + "\n"); finish("limit"); }
void sym_note(const char*) { ARG(0) = nullptr; }
void sym_int_mode(int) { ARG(0) = nullptr; }
static Expr* fnode(u8 k, Expr* a, Expr* b, u64 m, u64 val) {
  Expr* e = mk(k, 64, 0, a, b, cst(m, 64), val, 0, m - 1);
  auto f = frac(e, m); // constants and plain atoms fold
  if (f && pone(f->d)) {
    if (f->n.empty()) return nullptr;
    if (f->n.size() == 1 && f->n.begin()->first.empty()) return nullptr;
    if (f->n.size() == 1 && f->n.begin()->second == 1 && f->n.begin()->first.size() == 1 && f->n.begin()->first[0].second == 1) { Expr* a2 = (*g_atoms)[f->n.begin()->first[0].first]; if (a2->w == 64 && a2->hi < m) return a2; }
  }
  return e;
}
uint64_t sym_modmul(uint64_t a, uint64_t b, uint64_t m) {
  Expr *x = ARG(0), *y = ARG(1), *z = ARG(2);
  ARG(0) = ARG(1) = ARG(2) = nullptr;
  _sym_pin(z);
  u64 r = (u64)((unsigned __int128)a * b % m);
  if (!x && !y) { RET(nullptr); return r; }
  Expr *ea = up(x, a, 64), *eb = up(y, b, 64);
  if (isC(ea)) std::swap(ea, eb);
  if (isC(eb)) {
    if (eb->val % m == 0) { RET(nullptr); return 0; }
    if (eb->val % m == 1 && ea->hi < m) { RET(ea); return r; }
  }
  g_fieldmod = m;
  if (ea->hi >= m) ea = e_bin(O_UREM, ea, cst(m, 64));
  if (eb->hi >= m) eb = e_bin(O_UREM, eb, cst(m, 64));
  if (isC(eb) && isC(ea)) { RET(nullptr); return r; }
  if (!isC(eb) && ea->id > eb->id) std::swap(ea, eb);
  RET(fnode(K_MODMUL, ea, eb, m, r));
  return r;
}
static uint64_t addsub(bool add, uint64_t a, uint64_t b, uint64_t m) {
  Expr *x = ARG(0), *y = ARG(1), *z = ARG(2);
  ARG(0) = ARG(1) = ARG(2) = nullptr;
  _sym_pin(z);
  u64 r = (u64)(add ? ((unsigned __int128)a + b) % m : ((unsigned __int128)(a % m) + m - b % m) % m);
  if (!x && !y) { RET(nullptr); return r; }
  Expr *ea = up(x, a, 64), *eb = up(y, b, 64);
  g_fieldmod = m;
  if (ea->hi >= m) ea = e_bin(O_UREM, ea, cst(m, 64));
  if (eb->hi >= m) eb = e_bin(O_UREM, eb, cst(m, 64));
  if (isC(eb) && isC(ea)) { RET(nullptr); return r; }
  if (isC(eb) && eb->val == 0) { RET(ea); return r; }
  if (add) { if (isC(ea) && ea->val == 0) { RET(eb); return r; } if (isC(ea) || (!isC(eb) && ea->id > eb->id)) std::swap(ea, eb); }
  else if (ea == eb) { RET(nullptr); return r; }
  RET(fnode(add ? K_MODADD : K_MODSUB, ea, eb, m, r));
  return r;
}
uint64_t sym_modadd(uint64_t a, uint64_t b, uint64_t m) { return addsub(true, a, b, m); }
uint64_t sym_modsub(uint64_t a, uint64_t b, uint64_t m) { return addsub(false, a, b, m); }
uint64_t sym_modinv(uint64_t a, uint64_t m) {
  Expr *x = ARG(0), *z = ARG(1);
  ARG(0) = ARG(1) = nullptr;
  _sym_pin(z);
  u64 r = a % m ? (u64)modinv_c(a, m) : 0;
  if (!x || isC(x)) { RET(nullptr); return r; }
  g_fieldmod = m;
  Expr* ea = x;
  if (ea->hi >= m) ea = e_bin(O_UREM, ea, cst(m, 64));
  if (isC(ea)) { RET(nullptr); return r; }
  RET(fnode(K_MODINV, ea, nullptr, m, r));
  return r;
}
void sym_assert_mulmod(uint64_t r, uint64_t a, uint64_t b, uint64_t m, const char* msg) {
  Expr *er = ARG(0), *ea = ARG(1), *eb = ARG(2), *em = ARG(3);
  for (int i = 0; i < 5; ++i) ARG(i) = nullptr;
  ++st_assert;
  if (r != (u64)((unsigned __int128)a * b % m)) { report("assert", msg, g_used); finish("violation"); }
  std::vector<u128> mo;
  int q = fp_check_mulmod(up(er, r, 64), up(ea, a, 64), up(eb, b, 64), up(em, m, 64), &mo);
  if (q == 1) report("assert", msg, mo);
  else if (q == -1) sendAll("U\tassert: " + clean(msg) + "\n");
  else ++st_assert_proved;
}
// exit interception
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) {
  if (sym_exit_armed) { sym_exit_armed = 0; _sym_callee = nullptr; longjmp(sym_exit_buf, 1); }
  if (g_active) { report("exit", "the code under test called exit()", g_used); finish("exit"); }
  __real_exit(c);
}
void _sym_init_thread() {}
}

static void onCrash(int sig) {
  static volatile int once = 0;
  if (once++) _exit(79);
  char b[64]; snprintf(b, sizeof b, "signal %d", sig);
  if (sig == SIGALRM || sig == SIGXCPU) finish("pathtimeout");
  if (g_busy && sig != SIGALRM) finish("enginecrash"); // inside the solver (memory limit): this path is not covered
  if (sig == SIGABRT || sig == SIGSEGV || sig == SIGFPE || sig == SIGILL || sig == SIGBUS) { report("crash", b, g_used); finish("crash"); }
  _exit(79);
}
static void doRun(int argc, char** argv) {
  g_tab = new std::remove_reference<decltype(*g_tab)>::type();
  g_tab->reserve(1 << 16);
  g_vs = new std::remove_reference<decltype(*g_vs)>::type();
  g_pc = new std::vector<Expr*>(); g_known = new std::unordered_set<Expr*>(); g_uf = new std::vector<int>(); g_hasdiv = new std::unordered_map<Expr*, bool>(); g_hasfp = new std::unordered_map<Expr*, bool>();
  g_gs = new std::remove_reference<decltype(*g_gs)>::type();
  g_pages = new std::unordered_map<u64, Page*>();
  g_atoms = new std::vector<Expr*>(); g_atomid = new std::unordered_map<Expr*, u32>(); g_frac = new std::unordered_map<Expr*, std::shared_ptr<FFrac>>();
  g_fzero = new std::map<std::pair<u64, FPoly>, Expr*>(); g_fpolys = new std::vector<std::pair<u64, FPoly>>(); g_nonzero = new std::vector<std::pair<u64, FPoly>>(); g_zeros = new std::vector<std::pair<u64, FPoly>>(); g_order = new std::vector<std::pair<FPoly, FPoly>>(); g_ev = new std::vector<u128>(1024); g_evgen = new std::vector<u32>(1024);
  g_z = new Z();
  g_fn.assign(&_sym_fn_count ? _sym_fn_count : 0, 0);
  static char alt[1 << 16];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGALRM}) sigaction(s, &sa, nullptr);
  alarm(opt.path_s);
  g_active = true;
  try { ff_harness(argc, argv); }
  catch (std::exception& e) { report("exception", e.what(), g_used); finish("exception"); }
  catch (...) { report("exception", "uncaught exception", g_used); finish("exception"); }
  finish("ok");
}

#include "co.inc"
#include "race.inc"
// ------------------------------------------------------------------ scheduler (parent)
struct Item { std::vector<u64> in; size_t prefix; u64 hash; }; // inputs have at most 64 bits; trailing zeros are left out (the default is the smallest value)
static std::vector<u64> pack(const std::vector<u128>& v) { size_t n = v.size(); while (n && v[n - 1] == 0) --n; std::vector<u64> r; r.reserve(n); for (size_t i = 0; i < n; ++i) r.push_back((u64)v[i]); return r; }
static std::vector<u128> parseIn(const std::string& s) {
  std::vector<u128> r; size_t i = 0;
  while (i < s.size()) { while (i < s.size() && s[i] == ' ') ++i; if (i >= s.size()) break; u128 v = 0; while (i < s.size() && s[i] != ' ') { char c = s[i++]; v = v * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); } r.push_back(v); }
  return r;
}
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

int main(int argc, char** argv) {
  std::vector<char*> hargs; hargs.push_back(argv[0]);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--jobs") opt.jobs = std::stoi(nx()); else if (a == "--budget") opt.budget = std::stod(nx());
    else if (a == "--qtimeout") opt.qtimeout = std::stoi(nx()); else if (a == "--path-s") opt.path_s = std::stoi(nx());
    else if (a == "--maxpaths") opt.maxpaths = std::stol(nx()); else if (a == "--out") opt.out = nx();
    else if (a == "--all") opt.stop_first = false; else if (a == "--fp") opt.fp = 1; else if (a == "-v") opt.verbose++;
    else if (a == "--logic") opt.logic = nx(); else if (a == "--maxviol") opt.maxviol = std::stoi(nx());
    else if (a == "--fd") opt.fd = std::stoul(nx()); else if (a == "--dfs") opt.dfs = true; else if (a == "--noguess") opt.guess = false; else if (a == "--seed") opt.seed = std::stoul(nx());
    else if (a == "--run") { g_run.in = parseIn(nx()); g_run.prefix = 0; opt.dfs = true; opt.jobs = 0; }
    else if (a == "--mem-gb") opt.memgb = std::stoi(nx());
    else if (a == "--") { for (++i; i < argc; ++i) hargs.push_back(argv[i]); }
    else hargs.push_back(argv[i]);
  }
  int hargc = hargs.size(); hargs.push_back(nullptr);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (opt.jobs == 0) { g_fd = 1; doRun(hargc, hargs.data()); } // debugging aid: one path in this process
  std::deque<Item> queue;
  queue.push_back(Item{{}, 0, 0});
  struct Child { pid_t pid; int fd; std::string buf; bool ended; };
  std::vector<Child> ch;
  double t0 = now();
  u64 paths = 0, unknowns = 0, q = 0, sat = 0, uns = 0, unk = 0, asserts = 0, proved = 0, branches = 0, dead = 0, ideal = 0, anorm = 0, fdn = 0;
  double stime = 0;
  std::map<std::string, u64> ends, unkmsg;
  std::set<std::string> reach, expect, ext; std::set<u32> fns;
  struct Viol { std::string kind, msg, in; };
  std::vector<Viol> viols; std::set<std::string> vseen;
  std::vector<std::string> samples;
  bool stop = false, budget_hit = false;
  u64 rng = opt.seed * 0x9E3779B97F4A7C15ull + 1;
  auto line = [&](const std::string& l) {
    if (l.size() < 2) return;
    std::string body = l.substr(2);
    switch (l[0]) {
      case 'W': { size_t t = body.find('\t'), t2 = body.find('\t', t + 1); queue.push_back(Item{pack(parseIn(body.substr(t2 + 1))), (size_t)std::stoul(body.substr(0, t)), (u64)std::stoull(body.substr(t + 1, t2 - t - 1))}); break; }
      case 'U': ++unknowns; ++unkmsg[body]; break;
      case 'V': { size_t a = body.find('\t'), b = body.find('\t', a + 1); Viol v{body.substr(0, a), body.substr(a + 1, b - a - 1), body.substr(b + 1)};
          if (vseen.insert(v.kind + v.msg).second || viols.size() < 5) viols.push_back(v);
          if (opt.stop_first || (int)viols.size() >= opt.maxviol) stop = true; break; }
      case 'E': ++ends[body]; break;
      case 'X': ext.insert(body); break; case 'P': expect.insert(body); break; case 'R': reach.insert(body); break;
      case 'F': { size_t i = 0; while (i < body.size()) { size_t e = body.find(' ', i); if (e == std::string::npos) break; fns.insert(std::stoul(body.substr(i, e - i))); i = e + 1; } break; }
      case 'S': { unsigned long long a, b, c, d, e, f; double t; size_t br; unsigned long long id, an, fd; if (sscanf(body.c_str(), "%llu %llu %llu %llu %lf %llu %llu %zu %llu %llu %llu", &a, &b, &c, &d, &t, &e, &f, &br, &id, &an, &fd) == 11) { fdn += fd; ideal += id; anorm += an; q += a; sat += b; uns += c; unk += d; stime += t; asserts += e; proved += f; branches += br; } break; }
      case 'I': if (samples.size() < 12) samples.push_back(body); break;
    }
  };
  while (!stop && (!queue.empty() || !ch.empty())) {
    if (now() - t0 > opt.budget) { budget_hit = true; break; }
    while (!stop && (int)ch.size() < opt.jobs && !queue.empty() && (long)paths < opt.maxpaths) {
      Item it;
      if (opt.dfs) { it = std::move(queue.back()); queue.pop_back(); }
      else {
        // mostly FIFO, occasionally random for diversity
        size_t k = 0;
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        if (queue.size() > 1 && (rng & 3) == 0) { k = (rng >> 8) % queue.size(); std::swap(queue[k], queue.front()); }
        it = std::move(queue.front()); queue.pop_front();
      }
      int pf[2]; if (pipe(pf)) return 3;
      pid_t pid = fork();
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (auto& c : ch) close(c.fd);
        close(pf[0]); g_fd = pf[1];
        struct rlimit rl{(rlim_t)opt.memgb << 30, (rlim_t)opt.memgb << 30}; setrlimit(RLIMIT_AS, &rl);
        struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
        int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); if (!opt.verbose) dup2(dn, 2); close(dn); }
        g_run.in.assign(it.in.begin(), it.in.end()); g_run.prefix = it.prefix; g_run.hash = it.hash;
        doRun(hargc, hargs.data());
        _exit(0);
      }
      close(pf[1]);
      ++paths;
      ch.push_back(Child{pid, pf[0], "", false});
    }
    if ((long)paths >= opt.maxpaths && ch.empty()) { budget_hit = true; break; }
    std::vector<pollfd> pfd;
    for (auto& c : ch) pfd.push_back(pollfd{c.fd, POLLIN, 0});
    poll(pfd.data(), pfd.size(), 200);
    for (size_t i = ch.size(); i-- > 0;) {
      if (!(pfd[i].revents & (POLLIN | POLLHUP))) continue;
      char b[65536];
      ssize_t n = read(ch[i].fd, b, sizeof b);
      if (n > 0) {
        ch[i].buf.append(b, n);
        size_t s = 0, e;
        while ((e = ch[i].buf.find('\n', s)) != std::string::npos) { std::string l = ch[i].buf.substr(s, e - s); if (l[0] == 'E') ch[i].ended = true; line(l); s = e + 1; }
        ch[i].buf.erase(0, s);
      } else {
        int st; waitpid(ch[i].pid, &st, 0);
        close(ch[i].fd);
        if (!ch[i].ended) { ++dead; ++ends["worker-died"]; if (opt.verbose) fprintf(stderr, "worker died: status %x\n", st); }
        ch.erase(ch.begin() + i);
      }
    }
  }
  for (auto& c : ch) { kill(c.pid, SIGKILL); waitpid(c.pid, nullptr, 0); close(c.fd); }
  size_t left = queue.size() + ch.size();
  bool complete = !budget_hit && !stop && left == 0 && unknowns == 0 && dead == 0 && !ends.count("pathtimeout") && !ends.count("stale") && !ends.count("diverged") && !ends.count("enginecrash") && !ends.count("branchlimit");
  std::string o = "{\n";
  auto kv = [&](const char* k, std::string v, bool last = false) { o += std::string("  \"") + k + "\": " + v + (last ? "\n" : ",\n"); };
  auto list = [&](const std::set<std::string>& s) { std::string r = "["; bool f = true; for (auto& x : s) { if (!f) r += ","; f = false; r += js(x); } return r + "]"; };
  kv("complete", complete ? "true" : "false"); kv("paths", std::to_string(paths)); kv("unexplored", std::to_string(left)); kv("unknown", std::to_string(unknowns));
  kv("queries", std::to_string(q)); kv("sat", std::to_string(sat)); kv("unsat", std::to_string(uns)); kv("solver_unknown", std::to_string(unk)); kv("solver_s", std::to_string(stime));
  kv("asserts", std::to_string(asserts)); kv("asserts_proved", std::to_string(proved)); kv("branches", std::to_string(branches)); kv("by_ideal", std::to_string(ideal)); kv("by_norm", std::to_string(anorm)); kv("by_fd", std::to_string(fdn)); kv("wall_s", std::to_string(now() - t0));
  std::string es = "{"; { bool f = true; for (auto& x : ends) { if (!f) es += ","; f = false; es += js(x.first) + ":" + std::to_string(x.second); } } kv("ends", es + "}");
  std::string um = "{"; { bool f = true; for (auto& x : unkmsg) { if (!f) um += ","; f = false; um += js(x.first) + ":" + std::to_string(x.second); } } kv("unknowns", um + "}");
  kv("reached", list(reach)); kv("expected", list(expect)); kv("externals", list(ext));
  std::set<std::string> fnn; for (u32 f : fns) fnn.insert(_sym_fn_names[f]); kv("functions", list(fnn));
  std::string sm = "["; for (size_t i = 0; i < samples.size(); ++i) sm += (i ? "," : "") + js(samples[i]); kv("samples", sm + "]");
  std::string vs = "["; for (size_t i = 0; i < viols.size(); ++i) vs += std::string(i ? "," : "") + "{\"kind\":" + js(viols[i].kind) + ",\"msg\":" + js(viols[i].msg) + ",\"inputs\":" + js(viols[i].in) + "}";
  kv("violations", vs + "]", true);
  o += "}\n";
  if (opt.out.empty()) fputs(o.c_str(), stdout); else { FILE* f = fopen(opt.out.c_str(), "w"); fputs(o.c_str(), f); fclose(f); }
  return viols.empty() ? 0 : 1;
}
