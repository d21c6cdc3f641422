#include "ffsym.h"
#include "firefly/FFInt.hpp"
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
using namespace firefly;
extern "C" void ff_harness(int argc, char** argv) {
  sym_expect_reach("end");
  FFInt::set_new_prime(7);
  FFInt a(sym_u64("a", 0, 6)), b(sym_u64("b", 0, 6)), c(sym_u64("c",0,6));
  FFInt s = (a + b) * c, t = a * c + b * c;
  sym_assert(s == t, "distributive");
  if (b != FFInt(0)) { FFInt q = a / b; sym_assert(q * b == a, "division"); }
  std::string str = std::to_string(a.n) + "+" + std::to_string(b.n);
  sym_assert(str.size() == 3, "len");
  sym_assert((uint64_t)(str[0] - '0') == a.n, "digit");
  std::unordered_map<std::string,int> m; m[str] = 5; m["3+4"] = 6;
  sym_assert(m.size() == ((a.n == 3 && b.n == 4) ? 1u : 2u), "map");
  std::vector<int> v(10);
  v[a.n] = 3; v[b.n] = 4;
  sym_assert(v[b.n] == 4, "vec");
  std::map<uint64_t,int> mm; mm[a.n] = 1; mm[b.n] = 2; mm[c.n] = 3;
  sym_assert(mm[c.n] == 3, "mapint");
  sym_assert(std::stoull(str) == a.n, "stoull");
  uint64_t x = sym_u64("x", 0, ~0ull), y = sym_u64("y", 0, ~0ull);
  sym_assert(((x ^ y) ^ y) == x, "xor");
  if (x > y && x - y == 12345678 && (x & 0xff) == 0x42) sym_assert(argc == 77 || y != 0xabcdeff4ull, "find me");
  sym_reach("end");
}
