// C11/C12: the expression parser evaluates every expression of the grammar to its mathematical value, on all routes
// template characters: S s A a N n O o E F (menus below); all other characters are literal
#include "util.h"
#include "firefly/FFIntVec.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/BaseReconst.hpp"
#include "firefly/ReconstHelper.hpp"
#include <cstdlib>
#include <unistd.h>
typedef std::vector<std::string> VS;
static const std::string X = "x", Y = "Y2z";
static VS menu(char c) {
  switch (c) {
    case 'S': return {"", "-", "+"};
    case 's': return {"", "-"};
    case 'A': return {X, Y, "3", "12"};
    case 'a': return {X, "3"};
    case 'v': return {X, Y};
    case 'N': return {"0", "1", "41", "123456789012345678", "1234567890123456789", "98765432109876543210987654321"};
    case 'n': return {"3", "12345678901234567890"};
    case 'O': return {"+", "-", "*", "/", "+-", "-+"};
    case 'o': return {"+", "-", "*", "/"};
    case 'p': return {"+", "-"};
    case 't': return {"*", "/"};
    case 'E': return {"", "^2", "^(-2)"};
    case 'F': return {"", "^0", "^1", "^2", "^5", "^12", "^(2)", "^(-1)", "^(-3)"};
    default: return {std::string(1, c)};
  }
}
// ---- independent reference: recursive descent, value modulo q -------------------------------------------------
struct Ref {
  const std::string& t; size_t i = 0; u64 q; const std::vector<u64>& v;
  bool sing = false, undecl = false;
  Ref(const std::string& s, u64 q_, const std::vector<u64>& v_) : t(s), q(q_), v(v_) {}
  u64 add(u64 a, u64 b) { return sym_modadd(a, b, q); }
  u64 sub(u64 a, u64 b) { return sym_modsub(a, b, q); }
  u64 mul(u64 a, u64 b) { return sym_modmul(a, b, q); }
  u64 inv(u64 a) { sym_assume(a != 0); return sym_modinv(a, q); }
  u64 pw(u64 a, u64 e) { u64 r = 1; while (e) { if (e & 1) r = mul(r, a); e >>= 1; if (e) a = mul(a, a); } return r; }
  char c() { return i < t.size() ? t[i] : 0; }
  u64 sum() {
    bool neg = false; while (c() == '+' || c() == '-') { if (c() == '-') neg = !neg; ++i; }
    u64 r = prod(); if (neg) r = sub(0, r);
    while (c() == '+' || c() == '-') { bool n = false; while (c() == '+' || c() == '-') { if (c() == '-') n = !n; ++i; } u64 b = prod(); r = n ? sub(r, b) : add(r, b); }
    return r;
  }
  u64 prod() { u64 r = power(); while (c() == '*' || c() == '/') { bool d = c() == '/'; ++i; u64 b = power(); r = mul(r, d ? inv(b) : b); } return r; }
  u64 power() {
    u64 b = atom(); if (c() != '^') return b; ++i;
    bool par = false, neg = false; if (c() == '(') { par = true; ++i; } if (c() == '-') { neg = true; ++i; }
    u64 e = 0; while (isdigit(c())) { e = 10 * e + (c() - '0'); ++i; } if (par) ++i;
    u64 r = pw(b, e); return neg ? inv(r) : r;
  }
  u64 atom() {
    if (c() == '(') { ++i; u64 r = sum(); ++i; return r; }
    if (isdigit(c())) { u64 r = 0; while (isdigit(c())) { r = (10 * r + (u64)(c() - '0')) % q; ++i; } return r; }
    std::string n; while (isalnum(c())) { n += c(); ++i; }
    return n == X ? v[0] : v[1];
  }
};
static std::string build(const char* tmpl, u64 part, u64 parts) {
  std::string s; int k = 0; bool first = true;
  for (const char* p = tmpl; *p; ++p) {
    VS m = menu(*p);
    u64 j = 0; if (m.size() > 1) j = sym_concretize(su(nm("choice", k++), 0, m.size() - 1));
    (void)first; (void)part; (void)parts;
    s += m[j];
  }
  return s;
}
static std::vector<FFInt> pt(const std::vector<u64>& v) { std::vector<FFInt> r; for (auto x : v) { FFInt f; f.n = x; r.push_back(f); } return r; }
static std::vector<u64> point(const char* b, u64 q) { return {su(nm(b, 0), 0, q - 1), su(nm(b, 1), 0, q - 1)}; }

extern "C" void ff_harness(int argc, char** argv) {
  sym_expect_reach("end");
  int mode = atoi(argv[1]);
  const u64 P1 = PRIME, P2 = 29;
  FFInt::set_new_prime(P1);
  VS vars = {X, Y};
  if (mode <= 3) {
    VS funs; for (int k = 2; k < argc; ++k) funs.push_back(build(argv[k], 0, 1));
    for (auto& f : funs) sym_note(f.c_str());
    if (mode == 0 || mode == 3) {
      // value under evaluate_pre; mode 3: parse_function + evaluate_pre after precompute_tokens
      std::vector<u64> v = point("v", P1); std::vector<u64> want; for (auto& f : funs) { Ref r(f, P1, v); want.push_back(r.sum()); }
      std::vector<FFInt> got;
      if (mode == 0) { ShuntingYardParser par(funs, vars); got = par.evaluate_pre(pt(v)); }
      else { ShuntingYardParser par; for (auto f : funs) par.parse_function(f, vars, true); par.precompute_tokens(); got = par.evaluate_pre(pt(v)); }
      sym_assert(got.size() == funs.size(), "the parser does not return one value per function");
      for (size_t k = 0; k < got.size(); ++k) { CANON(got[k], "parser result is not canonical"); sym_assert(got[k].n == want[k], "a parsed expression does not evaluate to its mathematical value"); }
    } else {
      ShuntingYardParser par(funs, vars, false, true);
      for (int round = 0; round < 2; ++round) {
        const u64 q = round ? P2 : P1;
        if (round) { FFInt::set_new_prime(P2); par.precompute_tokens(); }
        std::vector<u64> v = point(round ? "w" : "v", q), u = point(round ? "s" : "r", q);
        std::vector<u64> want, want2; for (auto& f : funs) { Ref r(f, q, v); want.push_back(r.sum()); Ref r2(f, q, u); if (mode == 2) want2.push_back(r2.sum()); }
        auto e = par.evaluate(pt(v)), p = par.evaluate_pre(pt(v)), p2 = par.evaluate_pre_2(pt(v));
        sym_assert(e.size() == funs.size() && p.size() == funs.size() && p2.size() == funs.size(), "an evaluation route does not return one value per function");
        for (size_t k = 0; k < funs.size(); ++k) {
          sym_assert(e[k].n == want[k], "evaluate() differs from the mathematical value");
          sym_assert(p[k].n == want[k], round ? "evaluate_pre() after a change of the field differs from the mathematical value" : "evaluate_pre() differs from the mathematical value");
          sym_assert(p2[k].n == want[k], "evaluate_pre_2() differs from the mathematical value");
        }
        if (mode == 2) { // several points at once
          std::vector<FFIntVec<2>> vec; for (int i = 0; i < 2; ++i) { std::array<FFInt, 2> l = {{pt(v)[i], pt(u)[i]}}; vec.emplace_back(l); }
          auto ve = par.evaluate(vec), vp = par.evaluate_pre(vec), vp2 = par.evaluate_pre_2(vec);
          for (size_t k = 0; k < funs.size(); ++k) for (int l = 0; l < 2; ++l) {
            u64 w = l ? want2[k] : want[k];
            sym_assert(ve[k][l].n == w, "evaluate() of several points differs from the single-point value");
            sym_assert(vp[k][l].n == w, "evaluate_pre() of several points differs from the single-point value");
            sym_assert(vp2[k][l].n == w, "evaluate_pre_2() of several points differs from the single-point value");
          }
        }
      }
    }
  } else if (mode == 4) {
    // raw parenthesis strings around single-letter atoms: balanced ones are accepted with the right value, others end the program
    int len = atoi(argv[2]); std::string s; int depth = 0; bool ok = true;
    for (int k = 0; k < len; ++k) { u64 j = sym_concretize(su(nm("c", k), 0, 1)); s += j ? ')' : '('; depth += j ? -1 : 1; if (depth < 0) ok = false; }
    if (depth != 0) ok = false;
    // put "x+" style content so that a balanced string is a valid expression: every "(" is preceded by an operator, every innermost pair contains x
    std::string f; for (int k = 0; k < len; ++k) { if (s[k] == '(') { if (k && s[k - 1] == ')') f += "*"; f += "("; if (k + 1 == len || s[k + 1] == ')') f += "x"; } else f += ")"; }
    if (!len) f = "x";
    sym_note(f.c_str());
    int exited = 0; std::vector<FFInt> got; std::vector<u64> v = point("v", P1);
    static VS funs; funs = {f};
    SYM_EXPECT_EXIT(ShuntingYardParser par(funs, vars); got = par.evaluate_pre(pt(v)), exited);
    sym_assert(exited == !ok, ok ? "a balanced expression is refused" : "unbalanced parentheses are accepted");
    if (ok) { Ref r(f, P1, v); sym_assert(got.size() == 1 && got[0].n == r.sum(), "redundant parentheses change the value"); }
  } else if (mode == 5) {
    // an undeclared variable anywhere ends the program
    u64 j = sym_concretize(su("pos", 0, 5)), sg = sym_concretize(su("sg", 0, 2)), un = sym_concretize(su("un", 0, 3));
    static const char* U[] = {"y", "X", "x1", "Y2"};
    static const char* T[] = {"x+@", "3*@^2", "(@-1)/x", "x*(2-@)", "@", "x^2/(1+@*x)"};
    std::string f = T[j]; f.replace(f.find('@'), 1, U[un]); f = menu('S')[sg] + f;
    sym_note(f.c_str()); static VS funs; funs = {f}; int exited = 0;
    SYM_EXPECT_EXIT(ShuntingYardParser par(funs, vars), exited);
    sym_assert(exited, "an undeclared variable is accepted");
  } else if (mode == 7) {
    // files: functions separated by semicolons, white space anywhere
    static const char* W[] = {"", " ", "\t", "\n", " \n\t"}; static const char* E[] = {"", ";", ";\n", "; \n;\t", "\n"};
    int g0 = atoi(argv[2]); static const char* T[] = {"x", "+", "1", "7", "*", "Y2z", ";", "-", "(", "x", "-", "3", ")", "^", "2"};
    std::string s; for (int k = 0; k < 15; ++k) { if (k / 3 == g0) s += W[sym_concretize(su(nm("ws", k), 0, 4))]; s += T[k]; }
    s += E[sym_concretize(su("end", 0, 4))];
    char path[] = "/tmp/ffsymXXXXXX"; int fd = mkstemp(path); if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); close(fd);
    ShuntingYardParser par(std::string(path), vars); unlink(path);
    VS funs = {"x+17*Y2z", "-(x-3)^2"}; std::vector<u64> v = point("v", P1); auto got = par.evaluate_pre(pt(v));
    sym_assert(got.size() == 2, "a file of two functions does not yield two values");
    for (size_t k = 0; k < 2; ++k) { Ref r(funs[k], P1, v); sym_assert(got[k].n == r.sum(), "a function read from a file has a wrong value"); }
  } else if (mode == 8) {
    static std::string name; name = "/tmp/ffsym-this-file-does-not-exist"; int exited = 0;
    SYM_EXPECT_EXIT(ShuntingYardParser par(name, vars), exited); sym_assert(exited, "a missing file is accepted");
  } else if (mode == 6) {
    // functions with equal values are merged (check_is_equal), functions are added on the fly, and the collection is trimmed
    bool keep = atoi(argv[2]) & 1, otf = atoi(argv[2]) & 2, trim = atoi(argv[2]) & 4, eq = atoi(argv[2]) & 8; int n = atoi(argv[3]);
    const u64 Q1 = primes()[7], Q2 = primes()[8]; FFInt::set_new_prime(Q1);
    static const char* M[] = {"(x-Y2z)*(x+Y2z)", "x^2-Y2z^2", "x+3/7", "3/7+x*1", "(2*x)^(-2)", "x", "1/(4*x^2)"};
    int nm_ = otf || trim ? 4 : 7;
    VS funs; for (int k = 0; k < n; ++k) funs.push_back(M[sym_concretize(su(nm("fun", k), 0, nm_ - 1))]);
    for (auto& f : funs) sym_note(f.c_str());
    VS first = funs; if (otf) first.resize(1);
    ShuntingYardParser par(first, vars, eq, keep);
    sym_assert(FFInt::p == Q1, "parsing leaves the prime field changed");
    std::vector<size_t> pos; for (int k = 0; k < n; ++k) pos.push_back(k);
    u64 v0 = su("v0", 1, Q1 - 1), v1 = su("v1", 0, Q1 - 1), w0 = su("w0", 1, Q2 - 1), w1 = su("w1", 0, Q2 - 1);
    std::vector<u64> v = {v0, v1}, w = {w0, w1};
    if (otf) { for (size_t k = 1; k < funs.size(); ++k) { std::string f = funs[k]; par.add_otf(f); } sym_assert(FFInt::p == Q1, "adding a function leaves the prime field changed"); par.precompute_tokens(true); }
    if (trim) {
      std::unordered_set<size_t> kept; for (int k = 0; k < n; ++k) if (sym_concretize(su(nm("keep", k), 0, 1))) kept.insert(k);
      auto m = par.trim(kept); sym_assert(m.size() == kept.size(), "trimming does not report one position per kept function");
      VS nf(kept.size()); for (int k = 0; k < n; ++k) { bool in = kept.count(k); sym_assert(m.count(k) == (in ? 1u : 0u) && (!in || m[k] < kept.size()), "trimming reports a wrong position"); if (in) nf[m[k]] = funs[k]; }
      funs = nf;
    }
    for (int round = 0; round < 2; ++round) {
      if (round) { FFInt::set_new_prime(Q2); par.precompute_tokens(); }
      const u64 q = round ? Q2 : Q1; const std::vector<u64>& z = round ? w : v;
      auto got = par.evaluate_pre(pt(z));
      sym_assert(got.size() == funs.size(), "merged functions do not yield one value per function");
      for (size_t k = 0; k < got.size(); ++k) { Ref r(funs[k], q, z); sym_assert(got[k].n == r.sum(), round ? "a function of the collection has a wrong value after a change of the field" : "a function of the collection has a wrong value"); }
      if (keep) { auto e = par.evaluate(pt(z)); sym_assert(e == got, "evaluate() differs from evaluate_pre() for the collection"); }
      auto p2 = par.evaluate_pre_2(pt(z)); sym_assert(p2 == got, "evaluate_pre_2() differs from evaluate_pre() for the collection");
    }
  }
  sym_reach("end");
}
