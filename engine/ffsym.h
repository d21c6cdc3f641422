// ffsym harness API.  The same harness is built twice: instrumented (symbolic) and
// natively against the unmodified sources (replay of counterexamples).
#pragma once
#include <cstdint>
#include <cstddef>
#include <setjmp.h>
extern "C" {
// a fresh symbolic input with lo <= value <= hi (inclusive)
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi);
// restrict the input space (part of the claim); false ends the path silently
void sym_assume(bool c);
// the property
void sym_assert(bool c, const char* msg);
// non-vacuity witness: every tag a harness lists must be reached by some path
void sym_reach(const char* tag);
// concretise a value (explores every feasible value as separate paths)
uint64_t sym_concretize(uint64_t v);
// declare all required reach tags (called at the start of the harness)
void sym_expect_reach(const char* tag);
// summaries (used by the models)
uint64_t sym_modmul(uint64_t a, uint64_t b, uint64_t m);
uint64_t sym_modinv(uint64_t a, uint64_t m);
uint64_t sym_modadd(uint64_t a, uint64_t b, uint64_t m);
uint64_t sym_modsub(uint64_t a, uint64_t b, uint64_t m);
// exit() interception: sym_exit_guard() arms, the code under test calling exit() longjmps back
extern jmp_buf sym_exit_buf;
extern int sym_exit_armed;
// print a note (native replay: shown to the user; symbolic: ignored)
void sym_note(const char* s);
// is v symbolic right now? (engine self tests only)
int sym_is_symbolic(uint64_t v);
// mathematical-integer reasoning for the next asserts (see runtime)
void sym_int_mode(int on);
// exact statement helper: asserts r == (a*b) mod m as unbounded integers
void sym_assert_mulmod(uint64_t r, uint64_t a, uint64_t b, uint64_t m, const char* msg);
// the harness entry
void ff_harness(int argc, char** argv);
}
#define SYM_EXPECT_EXIT(stmt, exited_flag)          \
  do {                                              \
    (exited_flag) = 0;                              \
    sym_exit_armed = 1;                             \
    if (setjmp(sym_exit_buf) == 0) { stmt; }        \
    else { (exited_flag) = 1; }                     \
    sym_exit_armed = 0;                             \
  } while (0)
