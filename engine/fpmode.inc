// ------------------------------------------------------------------ floating point mode (modular product by an approximate quotient)
// Decides facts about integer code around ONE quotient estimate c = trunc(fl(fl(a*b)/m)) in x87 extended precision (64 bit
// significand, round to nearest).  With K = floor(a*b/m), R = a*b - K*m, c = K + D the facts are linear in R, m, D*m and the
// rounding errors once the binades of a*b (j) and of the quotient (k) are fixed; every (j, k, D) is one QF_LIRA query.
// The rounding relation is over-approximated (ties both ways), so only refutations are conclusive; counterexamples come from
// native evaluation of the very same expressions (fpGuess).  m is prime: R = 0 only if a = 0 or b = 0.
static Expr* fpFindQuot(Expr* e, std::unordered_set<Expr*>& seen) {
  if (!e || !seen.insert(e).second) return nullptr;
  if (e->kind == K_FP_TOU || e->kind == K_FP_TOS) return e;
  for (Expr* x : {e->a, e->b, e->c}) if (Expr* r = fpFindQuot(x, seen)) return r;
  return nullptr;
}
static bool mrPrime(u64 n) {
  if (n < 2) return false;
  for (u64 q : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n % q == 0) return n == q; }
  u64 d = n - 1; int s = 0; while (!(d & 1)) { d >>= 1; ++s; }
  for (u64 q : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    u64 x = mpow(q, d, n); if (x == 1 || x == n - 1) continue;
    bool c = true; for (int i = 1; i < s && c; ++i) { x = mmul(x, x, n); if (x == n - 1) c = false; }
    if (c) return false;
  }
  return true;
}
// native search for an input satisfying all of cs, cond (may be null) and pred; every variable named m is kept prime
template<class Pred> static bool fpGuess(const std::vector<Expr*>& cs, Expr* cond, Pred pred, std::vector<u128>* model, int iters, double secs) {
  static u64 rs = 0x9E3779B97F4A7C15ull * (opt.seed + 1);
  auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
  static std::vector<u64> primes;
  if (primes.empty()) {
    for (u64 n = (1ull << 63) - 1; primes.size() < 6; n -= 2) if (mrPrime(n)) primes.push_back(n);
    for (int b = 62; b > 2; --b) { for (u64 n = (1ull << b) + 1;; n += 2) if (mrPrime(n)) { primes.push_back(n); break; } for (u64 n = (1ull << b) - 1; n > 2; n -= 2) if (mrPrime(n)) { primes.push_back(n); break; } }
    for (int i = 0; i < 40; ++i) { u64 n = ((rnd() >> 1) | 1); while (!mrPrime(n)) n -= 2; primes.push_back(n); n = (rnd() >> (1 + rnd() % 40)) | 1; while (!mrPrime(n)) n += 2; primes.push_back(n); }
    primes.push_back(2); primes.push_back(3); primes.push_back(5); primes.push_back(7);
  }
  double t0 = now(); size_t mi = (size_t)-1;
  for (size_t i = 0; i < g_names.size(); ++i) if (g_names[i] == "m") mi = i;
  std::vector<u128> in(g_used);
  for (int it = 0; it < iters; ++it) {
    if ((it & 63) == 63 && now() - t0 > secs) break;
    u64 m = 0;
    if (mi != (size_t)-1) { m = it & 1 ? primes[rnd() % 6] : primes[rnd() % primes.size()]; if (m < g_lo[mi] || m > g_hi[mi]) continue; in[mi] = m; }
    for (size_t v = 0; v < in.size(); ++v) {
      if (v == mi) continue;
      u64 x, top = m ? m : (u64)g_hi[v] + 1;
      switch (rnd() % 8) { case 0: x = rnd() % 4; break; case 1: x = top - 1 - rnd() % std::min<u64>(4, top); break; case 2: x = rnd() % top >> rnd() % 60; break; case 3: x = top - 1 - (rnd() % top >> rnd() % 60); break; case 4: x = top / 2 + rnd() % 3; break;
        case 5: { x = rnd() % top; // solve a*x = small (mod m) for the first other input
          size_t o = (size_t)-1; for (size_t w = 0; w < v; ++w) if (w != mi) o = w; if (m && o != (size_t)-1 && in[o] % m) { u64 s = rnd() % 5; u64 t = rnd() & 1 ? s : m - s % m; x = mmul((u64)modinv_c(in[o] % m, m), t % m, m); } break; }
        default: x = rnd() % top; }
      in[v] = std::min<u128>(std::max<u128>(x, g_lo[v]), g_hi[v]);
    }
    ++g_gen; g_evbad = false;
    bool ok = !cond || (evalAt(cond, in) & 1);
    if (ok) for (Expr* e : cs) if (!(evalAt(e, in) & 1)) { ok = false; break; }
    if (ok && pred(in) && !g_evbad) { *model = in; ++st_guess; return true; }
  }
  return false;
}
struct FpTr {
  z3::context& c; Expr *Q, *A, *B, *M; int D;
  z3::expr m, R, a, b, DM; z3::expr_vector& side; std::unordered_map<Expr*, z3::expr> ci, cb; int fresh = 0;
  FpTr(z3::context& c_, Expr* q, Expr* A_, Expr* B_, Expr* M_, int d, z3::expr m_, z3::expr R_, z3::expr dm, z3::expr_vector& s) : c(c_), Q(q), A(A_), B(B_), M(M_), D(d), m(m_), R(R_), a(c.int_const("KM")), b(c.int_const("K")), DM(dm), side(s) {}
  z3::expr I(u128 v) { if (v <= ~0ull) return c.int_val((uint64_t)v); return c.int_val((uint64_t)(v >> 64)) * c.int_val("18446744073709551616") + c.int_val((uint64_t)v); }
  z3::expr P2(unsigned w) { return I((u128)1 << w); }
  z3::expr wrap(z3::expr v, unsigned w) { z3::expr q = c.int_const(("q" + std::to_string(++fresh)).c_str()), r = v - P2(w) * q; side.push_back(r >= 0); side.push_back(r < P2(w)); return r; }
  z3::expr sg(Expr* e) { z3::expr x = I(e); return z3::ite(x >= P2(e->w - 1), x - P2(e->w), x); }
  Expr* strip(Expr* e) { while (e->kind == K_ZEXT || (e->kind == K_EXTRACT && e->aux == 0 && e->a->hi <= maskw(e->w))) e = e->a; return e; }
  z3::expr I(Expr* e) { auto it = ci.find(e); if (it != ci.end()) return it->second; z3::expr r = I_(e); ci.emplace(e, r); return r; }
  bool same(Expr* x, Expr* y) { return strip(x) == strip(y); }
  // remainder of the signed value x by M: exact for |x| < 2m, otherwise any value of the right range
  z3::expr rem(z3::expr x, bool uns) {
    z3::expr f = c.int_const(("r" + std::to_string(++fresh)).c_str());
    side.push_back(f < m && f > -m);
    z3::expr r = z3::ite(x < m && x > -m, x, z3::ite(x >= m && x < 2 * m, x - m, z3::ite(x <= -m && x > -2 * m, x + m, f)));
    if (uns) side.push_back(f >= 0);
    return r;
  }
  // an integer congruent to e modulo 2^w (sums stay unreduced, so that K*m cancels)
  z3::expr U(Expr* e) {
    unsigned w = e->w;
    if (w > 1 && !(same(e, M) && w >= 63)) switch (e->kind) {
      case O_ADD: return U(e->a) + U(e->b);
      case O_SUB: return U(e->a) - U(e->b);
      case K_EXTRACT: if (e->aux == 0) return U(e->a); break;
      case O_MUL:
        if (isC(e->a)) return I(e->a->val) * U(e->b);
        if (isC(e->b)) return I(e->b->val) * U(e->a);
        if ((same(e->a, A) && same(e->b, B)) || (same(e->a, B) && same(e->b, A))) return a + R; // a*b = KM + R
        if ((e->a == Q && same(e->b, M)) || (e->b == Q && same(e->a, M))) return a + DM;          // c*m = KM + D*m
        throw z3::exception("product outside the floating point mode");
    }
    return I(e);
  }
  z3::expr I_(Expr* e) {
    unsigned w = e->w;
    if (w == 1) return z3::ite(B_(e), c.int_val(1), c.int_val(0));
    if (same(e, M) && e->w >= 63) return m;
    switch (e->kind) {
      case K_CONST: return I(e->val);
      case K_VAR: { z3::expr v = c.int_const(("v" + std::to_string(e->aux)).c_str()); side.push_back(v >= I(g_lo[e->aux]) && v <= I(g_hi[e->aux])); return v; }
      case K_ZEXT: return I(e->a);
      case K_SEXT: { z3::expr x = sg(e->a); return z3::ite(x < 0, x + P2(w), x); }
      case K_EXTRACT: if (e->aux != 0) break; return wrap(U(e).simplify(), w);
      case O_ADD: case O_SUB: case O_MUL: return wrap(U(e).simplify(), w);
      case O_SREM: if (same(e->b, M)) { z3::expr r = rem(sg(e->a), false); return z3::ite(r < 0, r + P2(w), r); } break;
      case O_UREM: if (same(e->b, M)) return rem(I(e->a), true); break;
      case O_LSHR: if (isC(e->b) && e->b->val == w - 1) return z3::ite(I(e->a) >= P2(w - 1), c.int_val(1), c.int_val(0)); break;
      case O_ASHR: if (isC(e->b) && e->b->val == w - 1) return z3::ite(I(e->a) >= P2(w - 1), I(maskw(w)), c.int_val(0)); break;
      case O_AND: for (int s = 0; s < 2; ++s) { Expr *x = s ? e->b : e->a, *y = s ? e->a : e->b; if (x->kind == O_ASHR && isC(x->b) && x->b->val == w - 1) return z3::ite(I(x->a) >= P2(w - 1), I(y), c.int_val(0)); } break;
      case K_ITE: return z3::ite(B_(e->a), I(e->b), I(e->c));
    }
    throw z3::exception("expression outside the floating point mode");
  }
  z3::expr B_(Expr* e) { auto it = cb.find(e); if (it != cb.end()) return it->second; z3::expr r = B__(e); cb.emplace(e, r); return r; }
  z3::expr B__(Expr* e) {
    switch (e->kind) {
      case K_CONST: return c.bool_val(e->val != 0);
      case K_NOT: return !B_(e->a);
      case O_AND: return B_(e->a) && B_(e->b);
      case O_OR: return B_(e->a) || B_(e->b);
      case K_ITE: return z3::ite(B_(e->a), B_(e->b), B_(e->c));
      case K_EQ: if (e->a->w == 1) return B_(e->a) == B_(e->b); return I(e->a) == I(e->b);
      case K_ULT: return I(e->a) < I(e->b);
      case K_ULE: return I(e->a) <= I(e->b);
      case K_SLT: return sg(e->a) < sg(e->b);
      case K_SLE: return sg(e->a) <= sg(e->b);
    }
    throw z3::exception("condition outside the floating point mode");
  }
};
// cs /\ cond /\ (r != a*b mod m, if r) unsatisfiable?
static bool fpRefute(const std::vector<Expr*>& cs, Expr* cond, Expr* r) {
  std::unordered_set<Expr*> seen; Expr* q = nullptr;
  if (r) q = fpFindQuot(r, seen);
  if (!q && cond) q = fpFindQuot(cond, seen);
  for (Expr* e : cs) if (!q) q = fpFindQuot(e, seen);
  if (!q) return false;
  auto from = [](Expr* e) -> Expr* { return e->kind == K_FP_FROMU && e->aux == 80 && e->a->w <= 64 ? e->a : e->kind == K_FP_FROMS && e->aux == 80 && e->a->w <= 64 && e->a->hi <= (u128)INT64_MAX ? e->a : nullptr; };
  Expr* d = q->a;
  if (!d || d->kind != K_FP_BIN || d->fpop != F_DIV || d->aux != 80) return false;
  Expr* pr = d->a; Expr* M = from(d->b);
  if (!M || pr->kind != K_FP_BIN || pr->fpop != F_MUL || pr->aux != 80) return false;
  Expr *A = from(pr->a), *B = from(pr->b);
  if (!A || !B) return false;
  auto& c = g_z->c;
  auto pw = [&](int k) { z3::expr x = c.real_val(1); std::string s = "1"; mpz_class v = 1; v <<= std::abs(k); if (k >= 0) return c.real_val(v.get_str().c_str()); return c.real_val(("1/" + v.get_str()).c_str()); };
  auto ipw = [&](int k) { mpz_class v = 1; v <<= k; return c.int_val(v.get_str().c_str()); };
  long n = 0;
  try {
    for (int k = -2; k <= 63; ++k) {
      // j < 0: moduli below 2^61, no split, relative error bound; otherwise moduli of 62 and 63 bits by the binade of a*b
      for (int j = k + 59; j <= k + 65; ++j) for (int D = -2; D <= 2; ++D) {
        z3::expr m = c.int_const("m"), R = c.int_const("R"), KM = c.int_const("KM"), T = z3::to_real(KM + R), P = c.real_const("P");
        z3::expr DM = c.int_const("DM"), FM = c.real_const("FM");
        z3::expr_vector S(c);
        FpTr tr(c, q, A, B, M, D, m, R, DM, S);
        S.push_back(m >= 2 && m < ipw(63)); S.push_back(R >= 0 && R < m); S.push_back(KM >= 0);
        if (D == -2) S.push_back(DM <= -2 * m); else if (D == 2) S.push_back(DM >= 2 * m); else S.push_back(DM == D * m);
        S.push_back(KM + DM >= 0); // c is unsigned and at least 0
        z3::expr e1 = P - T, mr = z3::to_real(m);
        bool split = j != k + 59;
        if (split) S.push_back(m >= ipw(61)); else S.push_back(m < ipw(61));
        if (split && j < 64) { if (j > k + 60) S.push_back(T >= ipw(j)); S.push_back(T < ipw(j + 1)); S.push_back(e1 == 0); }
        else if (split) { S.push_back(T >= ipw(j) && T < ipw(j + 1)); S.push_back(e1 <= pw(j - 64) && e1 >= -pw(j - 64)); }
        else S.push_back(z3::ite(T <= ipw(64), e1 == 0, T >= e1 * pw(64) && T >= -e1 * pw(64)));
        z3::expr pr_ = P;
        if (k > -2) S.push_back(pr_ >= pw(k) * mr);
        S.push_back(pr_ < pw(k + 1) * mr);
        z3::expr QM = z3::to_real(KM + DM) + FM; // rounded quotient times m
        S.push_back(QM - pr_ <= pw(k - 64) * mr && pr_ - QM <= pw(k - 64) * mr);
        S.push_back(QM <= pw(k + 1) * mr); if (k > -2) S.push_back(QM >= pw(k) * mr);
        S.push_back(FM >= 0); if (k > -2) S.push_back(k - 63 < 0 ? FM <= mr - pw(k - 63) * mr : FM == 0); else S.push_back(FM < mr);
        if (k >= 0) S.push_back(m > ipw(k)); // T < m^2
        // operands below m; m prime: R = 0 only for a zero operand
        z3::expr a = tr.I(A), b = tr.I(B), mm = tr.I(M);
        S.push_back(mm == m); S.push_back(z3::implies(a == 0 || b == 0, T == 0)); S.push_back(a < m && b < m);
        S.push_back(z3::implies(a > 0 && b > 0, R > 0)); 
        z3::solver s(c); z3::params p(c); p.set("timeout", 20000u); s.set(p);
        if (cond) s.add(tr.B_(cond));
        for (Expr* e : cs) { if (e->w != 1) continue; s.add(tr.B_(e)); }
        if (r) s.add(tr.I(r) != R);
        // the quotient estimate itself, where it is used outside c*m: any value
        for (unsigned i = 0; i < S.size(); ++i) s.add(S[i]);
        ++n;
        z3::check_result cr = s.check();
        if (cr != z3::unsat) { if (opt.verbose) { std::cerr << "fp: open case k=" << k << " j=" << j << " D=" << D << " " << cr << "\n"; if (cr == z3::sat) std::cerr << s.get_model() << "\n"; } return false; }
      }
    }
  } catch (z3::exception& ex) { if (opt.verbose) fprintf(stderr, "fp: %s\n", ex.msg()); return false; }
  st_q += n; st_unsat += n;
  return true;
}
static int fpQuery(Expr* cond, const std::vector<Expr*>& cs, std::vector<u128>* model) {
  std::vector<u128> m;
  if (fpGuess(cs, cond, [](const std::vector<u128>&) { return true; }, &m, 4000, 0.5)) { if (model) *model = m; return 1; }
  return fpRefute(cs, cond, nullptr) ? 0 : -1;
}
static int fp_check(Expr* e, std::vector<u128>* m) { return query(e_not(e), m); }
// r = a*b mod m for prime m on this path?
static int fp_check_mulmod(Expr* r, Expr* a, Expr* b, Expr* m, std::vector<u128>* mo) {
  Busy busy; double t0 = now(); int res;
  auto bad = [&](const std::vector<u128>& in) { u64 x = (u64)evalAt(a, in), y = (u64)evalAt(b, in), z = (u64)evalAt(m, in); return z && (u64)evalAt(r, in) != mmul(x % z, y % z, z); };
  Expr* wide = e_extract(e_bin(O_UREM, e_bin(O_MUL, e_zext(a, 128), e_zext(b, 128)), e_zext(m, 128)), 0, 64);
  if (wide == r) res = 0;
  else if (fpGuess(*g_pc, nullptr, bad, mo, 40000, 4.0)) res = 1;
  else {
    std::unordered_set<Expr*> seen;
    if (fpFindQuot(r, seen)) res = fpRefute(*g_pc, nullptr, r) ? 0 : -1;
    else res = query(e_not(e_cmp(K_EQ, wide, r)), nullptr);
  }
  st_time += now() - t0; if (res == 1) ++st_sat; else if (res == -1) ++st_unk;
  return res;
}
