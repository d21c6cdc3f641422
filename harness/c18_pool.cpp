// C18: the thread pool under every schedule with a bounded number of preemptions
#include "ffsym.h"
#include "ffsched.h"
#include <string>
#include <cstdlib>
#include "firefly/ThreadPool.hpp"
#include <memory>
using namespace firefly;
#define NOTSAN __attribute__((noinline, no_sanitize("thread")))
static const int MAXT = 8;
static int started[MAXT], finished[MAXT], startpos[MAXT], pos, running, pr[MAXT], sub[MAXT], called[MAXT], seq[MAXT], nseq;
static bool order; static int NT;
static bool kills;
NOTSAN static void body(int i) {
  ++started[i]; startpos[i] = pos++; ++running;
  sym_assert(called[i] && started[i] == 1, "a task is executed twice or before its submission");
  if (order) for (int j = 0; j < NT; ++j) if (j != i && !started[j]) {
    if (!pr[i] && !pr[j]) sym_assert(!(sub[j] && seq[j] < seq[i]), "tasks do not start in the order of submission");
    if (!pr[i] && pr[j]) sym_assert(!sub[j], "a priority task is overtaken by an ordinary one");
    if (pr[i] && pr[j]) sym_assert(!(sub[j] && seq[j] > seq[i]), "a later priority task does not precede an earlier one");
  }
  sched_point();
  --running; ++finished[i];
}
struct Job { int i; std::shared_ptr<int> keep; void operator()() const { sym_assert(*keep == i, "a task runs with destroyed captures"); body(i); } };
struct Thrower { int i, bad; int operator()() const { body(i); if (bad) throw std::runtime_error("x"); return 10 + i; } };
static int ch(const std::string& n, int m) { return (int)sym_concretize(sym_u64(n.c_str(), 0, m - 1)); }
static std::string nm(const char* b, int i) { return b + std::to_string(i); }
NOTSAN static void submit(ThreadPool& p, int i, int prio) { pr[i] = prio; seq[i] = nseq++; called[i] = 1; Job j{i, std::make_shared<int>(i)}; if (prio) p.run_priority_task(j); else p.run_task(j); sub[i] = 1; }
extern "C" NOTSAN void ff_harness(int argc, char** argv) {
  sym_expect_reach("end");
  int mode = atoi(argv[1]), n = atoi(argv[2]), k = atoi(argv[3]), pre = atoi(argv[4]); NT = k;
  sched_begin(pre, 4000);
  if (mode == 0 || mode == 2) { // submission and destruction
    order = mode == 2;
    { ThreadPool p(n); sym_assert((int)p.size() == n, "size() is not the number of threads"); for (int i = 0; i < k; ++i) { submit(p, i, order ? ch(nm("prio", i), 2) : 0); if (n == 0) sym_assert(finished[i] == 1, "a pool without threads does not run a task at once"); } }
    for (int i = 0; i < k; ++i) sym_assert(started[i] == 1 && finished[i] == 1, "a task is not executed exactly once before the pool is destroyed");
    sym_assert(sched_alive() == 0, "a thread survives the pool");
  } else if (mode == 1) { // futures
    { ThreadPool p(n); std::future<int> f[MAXT]; int bad[MAXT];
      for (int i = 0; i < k; ++i) { bad[i] = ch(nm("throws", i), 2); seq[i] = nseq++; called[i] = 1; if (ch(nm("prio", i), 2)) f[i] = p.run_priority_packaged_task(Thrower{i, bad[i]}); else f[i] = p.run_packaged_task(Thrower{i, bad[i]}); }
      for (int i = 0; i < k; ++i) { int r = -1, ex = 0; try { r = f[i].get(); } catch (std::runtime_error&) { ex = 1; } sym_assert(ex == bad[i] && (ex || r == 10 + i), "a future does not deliver the result or the exception of its task"); sym_assert(finished[i] == 1, "a future is ready before its task has finished"); } }
    for (int i = 0; i < k; ++i) sym_assert(started[i] == 1, "a packaged task is not executed exactly once");
  } else if (mode == 3) { // wait
    { ThreadPool p(n); for (int i = 0; i < k; ++i) { submit(p, i, 0); if (ch(nm("wait", i), 2)) { int before = running; bool w = p.wait(); if (!w) sym_assert(running == 0, "wait() reports an idle pool although a task is running"); (void)before; } }
      int rounds = 0; while (p.wait()) { if (++rounds > 40) break; } sym_assert(rounds <= 40, "wait() never reports an idle pool"); sym_assert(running == 0, "wait() reports an idle pool although a task is running"); }
    for (int i = 0; i < k; ++i) sym_assert(finished[i] == 1, "a task is lost");
  } else if (mode == 4) { // kill_all
    { ThreadPool p(n); int cut = 1 + ch("cut", k - 1); for (int i = 0; i < cut; ++i) submit(p, i, 0);
      p.kill_all();
      sym_assert(running == 0, "a task is running after kill_all"); sym_assert(p.queue_size() == 0, "tasks are queued after kill_all");
      int s = pos; sched_point(); sched_point(); sym_assert(pos == s, "a removed task starts after kill_all");
      for (int i = cut; i < k; ++i) submit(p, i, 0);
      if (k > cut) kills = true; }
    for (int i = 0; i < k; ++i) sym_assert(started[i] == finished[i] && started[i] <= 1, "a task is executed twice or left unfinished");
    sym_assert(started[k - 1] == 1, "a task submitted after kill_all is lost");
  } else if (mode == 5) { // tasks submitting further tasks
    { ThreadPool p(n); seq[0] = nseq++; called[0] = 1; p.run_task([&p, k]() { body(0); for (int i = 1; i < k; ++i) submit(p, i, i & 1); }); sched_point(); if (ch("q", 2)) sym_assert(p.queue_size() <= (size_t)k, "queue_size() exceeds the number of tasks"); }
    for (int i = 0; i < k; ++i) sym_assert(finished[i] == 1, "a task submitted by a task is lost");
  } else if (mode == 6) { // a task that waits for a later one: n threads run n tasks at the same time
    { ThreadPool p(n); auto pr = std::make_shared<std::promise<int>>(); auto fu = std::make_shared<std::future<int>>(pr->get_future());
      int a = ch("prioA", 2), b = ch("prioB", 2); auto dn = std::make_shared<std::promise<void>>(); std::future<void> df = dn->get_future(); called[0] = called[1] = 1;
      auto waiter = [fu, dn]() { body(0); if (fu->get() != 5) sym_assert(false, "a task receives a wrong value"); dn->set_value(); }; auto giver = [pr]() { body(1); pr->set_value(5); };
      if (a) p.run_priority_task(waiter); else p.run_task(waiter);
      if (b) p.run_priority_task(giver); else p.run_task(giver);
      df.get(); }
    for (int i = 0; i < 2; ++i) sym_assert(finished[i] == 1, "a task is lost");
  }
  sched_end();
  sym_reach("end");
}
