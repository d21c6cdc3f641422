#pragma once
// threads under a symbolic schedule: at most `preemptions` context switches away from a thread that could go on
// delays: all deviations from round-robin order count, including those at blocking operations
void sched_begin(int preemptions, int maxsteps, bool delays = false);
void sched_end();
void sched_point();   // a further place where another thread may run
int sched_self();     // index of the running thread, 0 is the harness
int sched_alive();    // threads not yet finished
void sched_time(long t); // what time() says
