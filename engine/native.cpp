// native replay runtime: inputs come from a file "name=hex name=hex ..."
#include "ffsym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <exception>
#include <unistd.h>
#include <signal.h>
static std::map<std::string, uint64_t> in;
static std::map<std::string, int> cnt;
extern "C" {
jmp_buf sym_exit_buf; int sym_exit_armed;
uint64_t sym_u64(const char* n, uint64_t lo, uint64_t hi) {
  std::string s(n), t = s;
  int k = cnt[s]++;
  if (k) t = s + "#" + std::to_string(k);
  uint64_t v = in.count(t) ? in[t] : lo;
  if (v < lo || v > hi) v = lo;
  printf("  input %s = %llu\n", t.c_str(), (unsigned long long)v);
  return v;
}
void sym_assume(bool c) { if (!c) { printf("NOT-REPRODUCED: assumption false\n"); fflush(stdout); _exit(0); } }
void sym_assert(bool c, const char* m) { if (!c) { printf("REPRODUCED: %s\n", m); fflush(stdout); _exit(42); } }
void sym_reach(const char*) {}
void sym_expect_reach(const char*) {}
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_symbolic(uint64_t) { return 0; }
void sym_note(const char* s) { printf("  note %s\n", s); }
void sym_limit(const char*) { _exit(3); }
void sym_int_mode(int) {}
uint64_t sym_modmul(uint64_t a, uint64_t b, uint64_t m) { return (unsigned __int128)a * b % m; }
uint64_t sym_modadd(uint64_t a, uint64_t b, uint64_t m) { return (uint64_t)(((unsigned __int128)a + b) % m); }
uint64_t sym_modsub(uint64_t a, uint64_t b, uint64_t m) { return (uint64_t)(((unsigned __int128)(a % m) + m - b % m) % m); }
uint64_t sym_modinv(uint64_t a, uint64_t m) { __int128 t = 0, nt = 1; uint64_t r = m, nr = a % m; if (!nr) return 0; while (nr) { uint64_t q = r / nr; __int128 tt = t - (__int128)q * nt; t = nt; nt = tt; uint64_t z = r - q * nr; r = nr; nr = z; } return t < 0 ? (uint64_t)(t + m) : (uint64_t)t; }
void sym_assert_mulmod(uint64_t r, uint64_t a, uint64_t b, uint64_t m, const char* msg) { sym_assert(r == (uint64_t)((unsigned __int128)a * b % m), msg); }
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) {
  if (sym_exit_armed) { sym_exit_armed = 0; longjmp(sym_exit_buf, 1); }
  printf("REPRODUCED: the code under test called exit(%d)\n", c); fflush(stdout); _exit(42);
}
}
#include "co.inc"
#include "race.inc"
static void crash(int s) { char b[64]; int n = snprintf(b, sizeof b, "REPRODUCED: crash, signal %d\n", s); if (write(1, b, n)) {} _exit(42); }
int main(int argc, char** argv) {
  FILE* f = argc > 1 ? fopen(argv[1], "r") : nullptr;
  std::string all; char buf[4096]; size_t n;
  while (f && (n = fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, n);
  size_t i = 0;
  while (i < all.size()) {
    size_t e = all.find_first_of(" \n", i); if (e == std::string::npos) e = all.size();
    std::string t = all.substr(i, e - i); i = e + 1;
    size_t q = t.rfind('='); if (q == std::string::npos) continue;
    in[t.substr(0, q)] = strtoull(t.substr(q + 1).c_str(), nullptr, 16);
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, crash);
  signal(SIGALRM, crash); alarm(120);
  argv[1] = argv[0];
  try { ff_harness(argc - 1, argv + 1); }
  catch (std::exception& e) { printf("REPRODUCED: uncaught exception %s\n", e.what()); fflush(stdout); _exit(42); }
  catch (...) { printf("REPRODUCED: uncaught exception\n"); fflush(stdout); _exit(42); }
  printf("NOT-REPRODUCED: run finished normally\n");
  fflush(stdout); _exit(0);
}
