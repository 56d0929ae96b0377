/* mc: a small stateless model-checking engine for the real EVFS code.

   A "scenario" is a C function that asks mc_choose(n) for every decision
   (operation, argument, fault point, ...).  mc_explore() runs the scenario once
   for every possible vector of answers (depth first, complete), sharded over
   worker processes.  Nothing is sampled. */
#ifndef MC_H
#define MC_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef void (*mc_body)(void);

/* ---- driver ---- */
void mc_main_init(int argc, char **argv, const char *property);
bool mc_thorough(void);
int  mc_tier(int quick, int thorough);           /* pick a bound by tier */
void mc_explore(const char *scenario, mc_body body);   /* DFS over mc_choose */
void mc_explore_depth(const char *scenario, mc_body body, int shard_depth);
int  mc_main_finish(void);                        /* writes report; returns exit code */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* assumptions/bounds for the report */
const char *mc_scratch(void);                     /* private scratch dir of this worker */

/* ---- inside a scenario ---- */
int  mc_choose(int n);
bool mc_mine(uint64_t index);                     /* static sharding for plain loops */
void mc_op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));    /* log one transition */
void mc_tick(void);                               /* count a transition without text; resets watchdog */
void mc_state(uint64_t hash);                     /* record a visited state */
void mc_prune(void) __attribute__((noreturn));    /* abandon this execution (not a violation) */
void mc_skip_rest(void) __attribute__((noreturn)); /* ... and all further answers to the latest mc_choose */
void mc_exec_done(void);                          /* count an execution in plain loops */
void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#define MC_CHECK(c, ...) do { if(!(c)) mc_fail(__VA_ARGS__); } while(0)
const char *mc_trace_text(void);
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* offer a sample case for the evidence */
void mc_set_cleanup(void (*fn)(void));            /* called before each execution */

uint64_t mc_hash(uint64_t h, const void *p, size_t n);
#define MC_HASH0 0xcbf29ce484222325ULL

/* ---- allocation tracking for the code under test (link-time wrapped) ---- */
void mc_alloc_reset(void);        /* free whatever the previous execution left, zero the counters */
void mc_alloc_track(bool on);
int  mc_alloc_live(void);         /* outstanding allocations made while tracking */
const char *mc_alloc_sites(void);
int  mc_alloc_count(void);        /* allocations requested since reset */
void mc_alloc_fail_at(int n);     /* n-th (1-based) request from now returns NULL; 0 = never */
void mc_alloc_fail_second(int n);
void mc_alloc_fail_more(bool on); /* every later request fails as well */
bool mc_alloc_failed(void);       /* did the injected failure happen */
void mc_alloc_poison(int byte);   /* fill pattern for fresh blocks */
void *mc_real_malloc(size_t n);
void *mc_real_realloc(void *p, size_t n);
void mc_real_free(void *p);

/* printable form of a byte string, rotating static buffers */
const char *mc_str(const char *s);
const char *mc_bytes(const void *p, size_t n);
#endif
