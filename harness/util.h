// shared helpers of the harnesses: symbolic field elements and an independent small-field reference
#pragma once
#include "ffsym.h"
#include "firefly/FFInt.hpp"
#include <string>
#include <vector>
#include <map>
using namespace firefly;
#ifndef PRIME
#define PRIME 7
#endif
typedef uint64_t u64;
typedef int64_t i64;
static inline std::string nm(const char* b, int i) { return std::string(b) + std::to_string(i); }
static inline u64 su(const std::string& n, u64 lo, u64 hi) { return sym_u64(n.c_str(), lo, hi); }
// a symbolic canonical field element
static inline FFInt sff(const std::string& n, u64 lo = 0, u64 hi = PRIME - 1) { FFInt r; r.n = su(n, lo, hi); return r; }
// reference arithmetic on canonical residues (exact integer definition, see engine)
static inline u64 radd(u64 a, u64 b) { return sym_modadd(a, b, PRIME); }
static inline u64 rsub(u64 a, u64 b) { return sym_modsub(a, b, PRIME); }
static inline u64 rmul(u64 a, u64 b) { return sym_modmul(a, b, PRIME); }
static inline u64 rpow(u64 a, u64 e) { u64 r = 1; while (e) { if (e & 1) r = rmul(r, a); e >>= 1; if (e) a = rmul(a, a); } return r; }
static inline u64 rinv(u64 a) { return sym_modinv(a, PRIME); }
#define CANON(x, msg) sym_assert((x).n < FFInt::p, msg)
