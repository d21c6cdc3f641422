// Threads as coroutines under a symbolic schedule.  Stands in for std::thread, std::mutex, std::condition_variable and
// the futex of std::future, in the symbolic run and in the native replay alike.  The schedule (who runs next at every
// synchronisation operation, which waiter a notification wakes) consists of symbolic inputs "s0", "s1", ...
#include "ffsym.h"
#include <cstdlib>
#include <thread>
#include <condition_variable>
#include "ffsched.h"
extern "C" { int sym_co_create(void (*)(void*), void*); void sym_co_switch(int); void sym_co_reset();
  void sym_race_begin(); void sym_race_end(); void sym_race_self(int); void sym_race_fork(int); void sym_race_join(int); void sym_race_acquire(void*); void sym_race_release(void*); int sym_race_found(); extern char __libc_single_threaded; }
struct FFThreadState { virtual ~FFThreadState(); virtual void run() = 0; }; // layout of std::thread::_State
namespace {
enum { RUN, MUTEX, COND, JOIN, FUTEX, DONE };
struct Th { int st; void* obj; void* mtx; unsigned val; void* job; bool ghost; };
struct Mx { void* a; int owner; };
Th th[64]; int nth, cur; bool on; int budget; int maxsteps, steps; bool delays;
Mx mx[256]; int nmx;
int waitq[64], nwait; // waiting threads in order of arrival
Mx* mutex(void* a) { for (int i = 0; i < nmx; ++i) if (mx[i].a == a) return &mx[i]; for (int i = 0; i < nmx; ++i) if (mx[i].owner < 0) { mx[i].a = a; return &mx[i]; } if (nmx == 256) abort(); mx[nmx] = {a, -1}; return &mx[nmx++]; }
bool runnable(int i) {
  Th& t = th[i];
  switch (t.st) {
    case RUN: return true;
    case MUTEX: return mutex(t.mtx)->owner < 0;
    case COND: return false;
    case JOIN: return th[(long)t.obj].st == DONE;
    case FUTEX: return *(volatile unsigned*)t.obj != t.val;
  }
  return false;
}
int choose(int n) { return n <= 1 ? 0 : (int)sym_concretize(sym_u64("s", 0, n - 1)); }
// give up the processor; preempt: the current thread could go on
void reschedule(bool preempt) {
  sym_assert(!sym_race_found(), "data race: two threads access the same memory without synchronisation, one of them writing");
  if (++steps > maxsteps) { sym_assert(false, "no end within the bound of synchronisation operations"); steps = 0; };
  int c[64], n = 0;
  if (preempt) { if (budget <= 0) return; c[n++] = cur; } // choice 0: go on
  for (int k = 1; k <= nth; ++k) { int i = (cur + k) % nth; if (preempt && i == cur) continue; if (runnable(i)) c[n++] = i; }
  if (!n) { sym_assert(false, "deadlock: no thread can run"); return; }
  if (delays && n > budget + 1) n = budget + 1; // choice j deviates j steps from the default order
  int j = choose(n);
  if (delays) budget -= j;
  if (preempt) { if (j == 0) return; if (!delays) --budget; }
  int to = c[j];
  if (to != cur) { cur = to; sym_race_self(to); sym_co_switch(to); }
  th[cur].st = RUN;
}
void lock(void* m) { Mx* x = mutex(m); while (x->owner >= 0) { sym_assert(x->owner != cur, "a thread locks a mutex it already holds"); th[cur].st = MUTEX; th[cur].mtx = m; reschedule(false); x = mutex(m); } x->owner = cur; sym_race_acquire(m); }
void unlock(void* m) { sym_race_release(m); mutex(m)->owner = -1; }
void entry(void* a) {
  FFThreadState* s = (FFThreadState*)a;
  s->run(); delete s;
  th[cur].st = DONE; reschedule(false);
  abort();
}
}
void sched_begin(int preemptions, int max, bool d) { delays = d; sym_co_reset(); nth = 1; cur = 0; th[0] = Th{RUN, nullptr, nullptr, 0, nullptr, false}; on = true; budget = preemptions; steps = 0; maxsteps = max; nmx = 0; nwait = 0; __libc_single_threaded = 0; sym_race_begin(); }
static long now_ = 1600000000; void sched_time(long t) { now_ = t; }
void sched_end() { sym_assert(!sym_race_found(), "data race: two threads access the same memory without synchronisation, one of them writing"); on = false; sym_race_end(); }
void sched_point() { if (on) reschedule(true); }
int sched_self() { return cur; }
int sched_alive() { int n = 0; for (int i = 1; i < nth; ++i) n += th[i].st != DONE; return n; }
#ifdef FFSYM_SYMBOLIC
#define NAME(x) ffmodel_##x
#define AS(x)
#else
#define NAME(x) native_##x
#define AS(x) __asm__(#x)
#endif
extern "C" {
int NAME(pthread_mutex_lock)(void* m) AS(pthread_mutex_lock);
int NAME(pthread_mutex_lock)(void* m) { if (!on) return 0; reschedule(true); lock(m); return 0; }
int NAME(pthread_mutex_trylock)(void* m) AS(pthread_mutex_trylock);
int NAME(pthread_mutex_trylock)(void* m) { if (!on) return 0; reschedule(true); Mx* x = mutex(m); if (x->owner >= 0) return 16; x->owner = cur; sym_race_acquire(m); return 0; }
int NAME(pthread_mutex_unlock)(void* m) AS(pthread_mutex_unlock);
int NAME(pthread_mutex_unlock)(void* m) { if (on) unlock(m); return 0; }
void NAME(_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE)(void* c, std::unique_lock<std::mutex>* l) AS(_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE);
void NAME(_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE)(void* c, std::unique_lock<std::mutex>* l) {
  if (!on) { sym_assert(false, "deadlock: waiting without other threads"); return; }
  void* m = l->mutex(); unlock(m);
  th[cur].st = COND; th[cur].obj = c; th[cur].mtx = m; waitq[nwait++] = cur;
  reschedule(false);
  lock(m);
}
static void wake(int k) { int t = waitq[k]; for (int i = k; i + 1 < nwait; ++i) waitq[i] = waitq[i + 1]; --nwait; th[t].st = MUTEX; }
void NAME(_ZNSt18condition_variable10notify_oneEv)(void* c) AS(_ZNSt18condition_variable10notify_oneEv);
void NAME(_ZNSt18condition_variable10notify_oneEv)(void* c) {
  if (!on) return; reschedule(true);
  int w[64], n = 0; for (int i = 0; i < nwait; ++i) if (th[waitq[i]].obj == c) w[n++] = i;
  if (n) { if (delays && n > budget + 1) n = budget + 1; int j = choose(n); if (delays) budget -= j; wake(w[j]); }
}
void NAME(_ZNSt18condition_variable10notify_allEv)(void* c) AS(_ZNSt18condition_variable10notify_allEv);
void NAME(_ZNSt18condition_variable10notify_allEv)(void* c) {
  if (!on) return; reschedule(true);
  for (int i = 0; i < nwait;) if (th[waitq[i]].obj == c) wake(i); else ++i;
}
void NAME(_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE)(std::thread* t, void** s, void (*)()) AS(_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE);
void NAME(_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE)(std::thread* t, void** s, void (*)()) {
  if (!on || nth >= 63) abort();
  void* job = *s; *s = nullptr;
  th[nth] = Th{RUN, nullptr, nullptr, 0, job, false};
  int id = sym_co_create(entry, job); if (id != nth) abort();
  sym_race_fork(id);
  *(unsigned long*)t = id; ++nth;
}
void NAME(_ZNSt6thread4joinEv)(std::thread* t) AS(_ZNSt6thread4joinEv);
void NAME(_ZNSt6thread4joinEv)(std::thread* t) {
  long id = *(long*)t; if (th[id].st != DONE) { th[cur].st = JOIN; th[cur].obj = (void*)id; reschedule(false); }
  sym_race_join(id);
  *(long*)t = 0;
}
long NAME(time)(long* p) AS(time);
long NAME(time)(long* p) { if (p) *p = now_; return now_; }
unsigned NAME(_ZNSt6thread20hardware_concurrencyEv)() AS(_ZNSt6thread20hardware_concurrencyEv);
unsigned NAME(_ZNSt6thread20hardware_concurrencyEv)() { return 2; }
bool NAME(_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE)(void*, unsigned* a, unsigned v, bool, long, long) AS(_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE);
bool NAME(_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE)(void*, unsigned* a, unsigned v, bool, long, long) {
  if (*a != v) return true;
  if (!on) { sym_assert(false, "deadlock: waiting for a future without other threads"); return true; }
  th[cur].st = FUTEX; th[cur].obj = a; th[cur].val = v; reschedule(false); return true;
}
void NAME(_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj)(void*, unsigned*) AS(_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj);
void NAME(_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj)(void*, unsigned*) { if (on) reschedule(true); }
}
