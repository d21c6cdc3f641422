// happens-before race detection for the coroutine scheduler (models/sched.cpp): code compiled with -fsanitize=thread
// calls the __tsan_* functions below; clocks follow the synchronisation operations of the scheduler
#include <sys/mman.h>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <new>
namespace race {
static const int NT = 8, HB = 16; // threads, log2 of table size
struct Ac { unsigned clk; unsigned char mask; void* pc; };
struct Cell { unsigned long key; Ac w[NT], r[NT]; };
struct Sync { unsigned long key; unsigned c[NT]; };
static Cell* tab; static Sync* syn; static unsigned C[NT][NT]; static int self_; static bool on, full; static int found;
static unsigned long h(unsigned long k) { return (k * 0x9E3779B97F4A7C15ul) >> (64 - HB); }
template <class T> T* find(T* t, unsigned long key, bool add) {
  unsigned long i = h(key);
  for (int n = 0; n < 4096; ++n, i = (i + 1) & ((1ul << HB) - 1)) { if (t[i].key == key) return t + i; if (!t[i].key) { if (!add) return nullptr; t[i].key = key; return t + i; } }
  full = true; return nullptr;
}
static void report(void* p, void* q) { static bool once; if (once || !getenv("FFSYM_RACE")) return; once = true; fprintf(stderr, "race: %p and %p\n", p, q); }
static inline __attribute__((always_inline)) void access(const void* a, unsigned long n, bool write) {
  void* pc = __builtin_return_address(0);
  if (!on || full) return;
  unsigned long p = (unsigned long)a, e = p + n, tp = (unsigned long)__builtin_thread_pointer();
  if (p < tp && p + 8192 >= tp) return; // thread-local variables, which the coroutines share
  while (p < e) {
    unsigned long g = p >> 3; unsigned char m = 0;
    for (; p < e && (p >> 3) == g; ++p) m |= 1u << (p & 7);
    Cell* c = find(tab, g, true); if (!c) return;
    for (int t = 0; t < NT; ++t) if (t != self_) {
      if ((c->w[t].mask & m) && c->w[t].clk > C[self_][t]) { found |= 1; report(c->w[t].pc, pc); }
      if (write && (c->r[t].mask & m) && c->r[t].clk > C[self_][t]) { found |= 2; report(c->r[t].pc, pc); }
    }
    Ac& x = write ? c->w[self_] : c->r[self_]; x.clk = C[self_][self_]; x.mask = m; x.pc = pc;
  }
}
static void forget(const void* a, unsigned long n) {
  if (!on || full || n > (1 << 16)) return;
  for (unsigned long g = (unsigned long)a >> 3; g <= ((unsigned long)a + n - 1) >> 3; ++g) if (Cell* c = find(tab, g, false)) { memset(c->w, 0, sizeof c->w); memset(c->r, 0, sizeof c->r); }
}
static void acquire(const void* a) { if (!on) return; Sync* s = find(syn, (unsigned long)a, true); if (!s) return; for (int t = 0; t < NT; ++t) if (s->c[t] > C[self_][t]) C[self_][t] = s->c[t]; }
static void release(const void* a) { if (!on) return; Sync* s = find(syn, (unsigned long)a, true); if (!s) return; for (int t = 0; t < NT; ++t) if (C[self_][t] > s->c[t]) s->c[t] = C[self_][t]; ++C[self_][self_]; }
}
extern "C" {
void sym_race_begin() {
  if (!race::tab) { race::tab = (race::Cell*)mmap(nullptr, sizeof(race::Cell) << race::HB, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); race::syn = (race::Sync*)mmap(nullptr, sizeof(race::Sync) << race::HB, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  memset(race::C, 0, sizeof race::C); race::C[0][0] = 1; race::self_ = 0; race::on = true; race::found = 0;
}
void sym_race_end() { race::on = false; if (getenv("FFSYM_RACE")) { int n = 0; for (int i = 0; i < 1 << race::HB; ++i) n += race::tab[i].key != 0; fprintf(stderr, "race: %d cells full %d\n", n, race::full); } }
void sym_race_self(int t) { if (t >= race::NT) race::on = false; else race::self_ = t; }
void sym_race_fork(int t) { if (t >= race::NT) { race::on = false; return; } for (int i = 0; i < race::NT; ++i) race::C[t][i] = race::C[race::self_][i]; race::C[t][t] = 1; ++race::C[race::self_][race::self_]; }
void sym_race_join(int t) { if (t >= race::NT) return; for (int i = 0; i < race::NT; ++i) if (race::C[t][i] > race::C[race::self_][i]) race::C[race::self_][i] = race::C[t][i]; }
void sym_race_acquire(void* a) { race::acquire(a); }
void sym_race_release(void* a) { race::release(a); }
int sym_race_found() { return race::found; }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { race::access(a, n, false); } void __tsan_write##n(void* a) { race::access(a, n, true); } \
  void __tsan_unaligned_read##n(void* a) { race::access(a, n, false); } void __tsan_unaligned_write##n(void* a) { race::access(a, n, true); } \
  void __tsan_volatile_read##n(void* a) { race::access(a, n, false); } void __tsan_volatile_write##n(void* a) { race::access(a, n, true); } \
  void __tsan_read_write##n(void* a) { race::access(a, n, true); } void __tsan_unaligned_read_write##n(void* a) { race::access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { race::access(a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { race::access(a, n, true); }
void __tsan_vptr_read(void* a) { race::access(a, 8, false); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) race::access(a, 8, true); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { race::access(s, n, false); race::access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { race::access(s, n, false); race::access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { race::access(d, n, true); return memset(d, c, n); }
#define SYNC(mo) { if (mo == 1 || mo == 2 || mo >= 4) race::acquire((void*)a); if (mo >= 3) race::release((void*)a); }
#define ATOMIC(w, T) \
  T __tsan_atomic##w##_load(const volatile T* a, int mo) { T v = *a; if (mo) race::acquire((void*)a); return v; } \
  void __tsan_atomic##w##_store(volatile T* a, T v, int mo) { if (mo >= 3) race::release((void*)a); *a = v; } \
  T __tsan_atomic##w##_exchange(volatile T* a, T v, int mo) { SYNC(mo) T o = *a; *a = v; return o; } \
  T __tsan_atomic##w##_fetch_add(volatile T* a, T v, int mo) { SYNC(mo) T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##w##_fetch_sub(volatile T* a, T v, int mo) { SYNC(mo) T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##w##_fetch_and(volatile T* a, T v, int mo) { SYNC(mo) T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##w##_fetch_or(volatile T* a, T v, int mo) { SYNC(mo) T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##w##_fetch_xor(volatile T* a, T v, int mo) { SYNC(mo) T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##w##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { SYNC(mo) if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##w##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { SYNC(mo) if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  T __tsan_atomic##w##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { SYNC(mo) T o = *a; if (o == e) *a = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); race::forget(p, n ? n : 1); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
