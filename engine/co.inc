// coroutines standing in for threads (models/sched.cpp decides who runs)
#include <ucontext.h>
#include <sys/mman.h>
struct CoT { ucontext_t c; void (*f)(void*); void* a; };
static CoT* g_co[64]; static int g_con, g_cocur;
static void coMain(unsigned lo, unsigned hi) { CoT* t = (CoT*)(((unsigned long)hi << 32) | lo); t->f(t->a); abort(); }
extern "C" int sym_co_create(void (*f)(void*), void* a) { // thread 0 is the caller of the first creation
  if (!g_con) { g_co[0] = new CoT(); g_con = 1; g_cocur = 0; }
  if (g_con >= 64) abort();
  CoT* t = new CoT(); t->f = f; t->a = a;
  getcontext(&t->c);
  const size_t S = 8 << 20;
  t->c.uc_stack.ss_sp = mmap(nullptr, S, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t->c.uc_stack.ss_size = S; t->c.uc_link = nullptr;
  makecontext(&t->c, (void (*)())coMain, 2, (unsigned)(unsigned long)t, (unsigned)((unsigned long)t >> 32));
  g_co[g_con] = t;
  return g_con++;
}
extern "C" void sym_co_switch(int to) { if (to == g_cocur) return; int from = g_cocur; g_cocur = to; swapcontext(&g_co[from]->c, &g_co[to]->c); }
extern "C" void sym_co_reset() { g_con = 0; g_cocur = 0; }
