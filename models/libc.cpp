// instrumented models of libc / libstdc++ leaf functions (see DESIGN.md: trusted base)
#include <cstddef>
#include <cstdint>
#include <cerrno>
extern "C" {
#define NV __attribute__((noinline, no_builtin))
NV int ffmodel_memcmp(const void* a_, const void* b_, size_t n) {
  const unsigned char *a = (const unsigned char*)a_, *b = (const unsigned char*)b_;
  int r = 0;
  for (size_t i = n; i-- > 0;) { int d = (int)a[i] - (int)b[i]; r = d ? d : r; }
  return r;
}
NV int ffmodel_bcmp(const void* a_, const void* b_, size_t n) {
  const unsigned char *a = (const unsigned char*)a_, *b = (const unsigned char*)b_;
  unsigned char r = 0;
  for (size_t i = 0; i < n; ++i) r |= a[i] ^ b[i];
  return r;
}
NV size_t ffmodel_strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
NV int ffmodel_strcmp(const char* a, const char* b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i]) ++i;
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
NV void* ffmodel_memchr(const void* s_, int c, size_t n) {
  const unsigned char* s = (const unsigned char*)s_;
  for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i);
  return nullptr;
}
// hash of a byte string: any deterministic function of the content is a legal implementation; the length is one
NV size_t ffmodel__ZSt11_Hash_bytesPKvmm(const void*, size_t len, size_t) { return len; }
NV int ffmodel_isdigit(int c) { return c >= '0' && c <= '9'; }
NV int ffmodel_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
NV int ffmodel_isalnum(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
NV int ffmodel_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
NV int ffmodel_isupper(int c) { return c >= 'A' && c <= 'Z'; }
NV int ffmodel_islower(int c) { return c >= 'a' && c <= 'z'; }
NV int ffmodel_tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
static unsigned long long parse(const char* s, char** end, int base, bool isSigned) {
  const char* p = s;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
  bool neg = false;
  if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  const char* d0 = p;
  unsigned long long v = 0; bool ov = false;
  unsigned long long lim = isSigned ? (neg ? 0x8000000000000000ull : 0x7fffffffffffffffull) : ~0ull;
  while (*p >= '0' && *p <= '9') {
    unsigned dgt = *p - '0';
    if (p - d0 >= 18) { if (v > (lim - dgt) / 10) ov = true; }
    v = v * 10 + dgt;
    ++p;
  }
  if (p == d0) { if (end) *end = (char*)s; return 0; }
  if (end) *end = (char*)p;
  if (ov) { errno = ERANGE; return lim; }
  return neg ? -v : v;
}
NV unsigned long long ffmodel_strtoull(const char* s, char** e, int b) { return parse(s, e, b, false); }
NV unsigned long ffmodel_strtoul(const char* s, char** e, int b) { return parse(s, e, b, false); }
NV long ffmodel_strtol(const char* s, char** e, int b) { return (long)parse(s, e, b, true); }
NV long long ffmodel_strtoll(const char* s, char** e, int b) { return (long long)parse(s, e, b, true); }
NV long ffmodel___isoc23_strtol(const char* s, char** e, int b) { return (long)parse(s, e, b, true); }
NV unsigned long ffmodel___isoc23_strtoul(const char* s, char** e, int b) { return parse(s, e, b, false); }
NV unsigned long long ffmodel___isoc23_strtoull(const char* s, char** e, int b) { return parse(s, e, b, false); }
NV long long ffmodel___isoc23_strtoll(const char* s, char** e, int b) { return (long long)parse(s, e, b, true); }
}
