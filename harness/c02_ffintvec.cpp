// C02: FFIntVec arithmetic acts on every lane exactly like FFInt, for every lane count the library instantiates
#include "util.h"
#include "firefly/FFIntVec.hpp"
static const char* lbl(const char* op, int n) { static std::string s; s = "FFIntVec<" + std::to_string(n) + "> " + op + " differs from the lane-wise FFInt result"; return s.c_str(); }
#define EACH(name, expr, ref) do { V r = expr; bool ok = true; for (int i = 0; i < L; ++i) { FFInt x = a0.vec[i], y = b0.vec[i]; (void)x; (void)y; ok &= r.vec[i].n == (ref).n; } sym_assert(ok, lbl(name, L)); } while (0)
template<int L> static void run(int group) {
  typedef FFIntVec<L> V;
  V a, b; FFInt s = sff("s");
  if (group == 1 && L > 4) { // at most one lane of the divisor vanishes (any of them)
    int z = (int)sym_concretize(su("zero_lane", 0, L));
    for (int i = 0; i < L; ++i) { a.vec[i] = sff(nm("a", i)); if (i == z) b.vec[i] = FFInt(0); else b.vec[i] = sff(nm("b", i), 1); }
  } else if (group == 3 && L > 2) { // one lane (any) takes an arbitrary exponent, the others distinct fixed ones
    int z = (int)sym_concretize(su("lane", 0, L - 1));
    for (int i = 0; i < L; ++i) { a.vec[i] = sff(nm("a", i), 1); if (i == z) b.vec[i] = sff("b"); else b.vec[i] = FFInt((i * 5 + 3) % PRIME); }
  } else for (int i = 0; i < L; ++i) { a.vec[i] = sff(nm("a", i)); b.vec[i] = sff(nm("b", i)); }
  V a0 = a, b0 = b;
  if (group == 0) {
    EACH("+", a + b, x + y); EACH("-", a - b, x - y); EACH("*", a * b, x * y);
    EACH("unary -", -a, -x); EACH("unary +", +a, x);
    { V t = a; V& q = (t += b); sym_assert(&q == &t, "+= does not return its object"); EACH("+=", t, x + y); t = a; t -= b; EACH("-=", t, x - y); t = a; t *= b; EACH("*=", t, x * y); }
    { V t = a; t += t; EACH("+= itself", t, x + x); t = a; t -= t; EACH("-= itself", t, x - x); t = a; t *= t; EACH("*= itself", t, x * x); }
    { V t(b); t = a; EACH("copy assignment", t, x); V u(a.vec); EACH("array constructor", u, x); V z; FFInt o(0); EACH("default constructor", z, o); }
  } else if (group == 1) {
    EACH("/", a / b, x / y); { V t = a; t /= b; EACH("/=", t, x / y); } EACH("vec / scalar", a / s, x / s);
    EACH("scalar / vec", s / b, s / y);
  } else if (group == 2) {
    EACH("vec + scalar", a + s, x + s); EACH("vec - scalar", a - s, x - s); EACH("vec * scalar", a * s, x * s);
    EACH("scalar + vec", s + a, s + x); EACH("scalar - vec", s - a, s - x); EACH("scalar * vec", s * a, s * x);
    EACH("broadcast constructor", V(s), s);
    for (int i = 0; i < L; ++i) { bool thrown = false; u64 v = 0; try { v = a.at(i).n; } catch (std::out_of_range&) { thrown = true; } sym_assert(!thrown && v == a0.vec[i].n && a[i].n == v, "FFIntVec::at refuses or misreads a valid lane"); }
    { bool thrown = false; try { a.at(L); } catch (std::out_of_range&) { thrown = true; } sym_assert(thrown, "FFIntVec::at accepts an index past the end"); }
    sym_assert(a.size() == L && a.end() - a.begin() == L, "FFIntVec size/iterators do not cover all lanes");
    { int i = 0; for (auto& f : a) { sym_assert(f.n == a0.vec[i].n, "iteration over FFIntVec misses a lane"); ++i; } sym_assert(i == L, "iteration over FFIntVec misses a lane"); }
    bool eq = true; for (int i = 0; i < L; ++i) eq &= a0.vec[i].n == b0.vec[i].n;
    sym_assert((a == b) == eq, "FFIntVec == is not the conjunction over all lanes"); sym_assert((a != b) == !eq, "FFIntVec != is not the negation of ==");
  } else {
    if (L == 2) {
      u64 e = su("e", 0, PRIME - 1);
      EACH("pow(integer)", a.pow(e), x.pow(e)); EACH("pow(FFInt)", a.pow(FFInt(e)), x.pow(FFInt(e))); EACH("pow(negative)", a.pow(-(int)e), x.pow(-(int)e));
    } else { EACH("pow(integer)", a.pow(5), x.pow(5)); EACH("pow(FFInt)", a.pow(FFInt(3)), x.pow(FFInt(3))); EACH("pow(negative)", a.pow(-2), x.pow(-2)); }
    EACH("pow(vec)", a.pow(b), x.pow(y)); EACH("pow free function", pow(a, b), x.pow(y));
    { std::vector<u64> ev; for (int i = 0; i < L; ++i) ev.push_back(b0.vec[i].n); EACH("pow(vector)", a.pow(ev), x.pow(y.n)); }
  }
  bool same = true; for (int i = 0; i < L; ++i) same &= a.vec[i].n == a0.vec[i].n && b.vec[i].n == b0.vec[i].n;
  sym_assert(same, "an FFIntVec operation modified its operand");
}
extern "C" void ff_harness(int argc, char** argv) {
  sym_expect_reach("end");
  int g = atoi(argv[1]), l = atoi(argv[2]);
  FFInt::set_new_prime(PRIME);
  switch (l) { case 2: run<2>(g); break; case 4: run<4>(g); break; case 8: run<8>(g); break; case 16: run<16>(g); break; case 32: run<32>(g); break; case 64: run<64>(g); break; case 128: run<128>(g); break; }
  sym_reach("end");
}
