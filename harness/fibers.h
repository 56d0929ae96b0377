/* A controlled scheduler for the real code.  Threads are fibers of one OS
   thread; which of them runs is decided by mc_choose at every acquisition of a
   lock (and at every atomic access), so all schedules up to the given number of
   preemptions are explored.  Every memory access the code under test makes is
   reported by the compiler (-fsanitize=thread with the hooks in fibers.c) and
   checked with vector clocks: two accesses to one byte that are not ordered by
   locks are a data race on whatever schedule they show up.  For code without
   races, switching at synchronisation alone covers all interleavings. */
#ifndef SCHED_H
#define SCHED_H
#include <stddef.h>
#include <stdbool.h>
#define SCHED_MAX 4
typedef void (*sched_fn)(int tid);
void sched_run(int n, sched_fn fn, int preemptions);  /* returns when all threads are done; reports races and deadlocks */
void sched_drop_locks(void);               /* all locks are free again (an execution was abandoned) */
void sched_reset(void);                    /* before every execution: forget locks and blocks */
int  sched_self(void);                     /* -1 outside of sched_run */
void sched_touch(const void *p, size_t n, bool write, const char *what); /* an access by the harness on behalf of the current thread */
void sched_fail(const char *fmt, ...);     /* mc_fail from a thread */
int  sched_locks_held(void);
int  sched_locks_held_by_me(void);
int  sched_locks_live(void);
int  sched_blocks_live(void);
int  sched_once_runs(void);
int  sched_atexits(void);
int  sched_switches(void);                 /* context switches of the last run */
long sched_accesses(void);
#endif
