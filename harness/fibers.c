#define _GNU_SOURCE
#include "fibers.h"
#include "mc.h"
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <threads.h>
#include <ucontext.h>

/* ---- fibers ---- */
enum { ST_NEW, ST_RUN, ST_WAIT, ST_DONE };
#define STK (512 * 1024)
typedef struct { ucontext_t uc; char *stk; int st; void *wait; } Fiber;
static Fiber fb[SCHED_MAX]; static ucontext_t uc_main;
static int cur = -1, nfb, nswitch; static sched_fn body; static bool running, failed; static char fail_msg[900];
static long naccess;
int sched_self(void) { return cur; }
int sched_switches(void) { return nswitch; }
long sched_accesses(void) { return naccess; }
static void to_main(void) { int me = cur; cur = -1; swapcontext(&fb[me].uc, &uc_main); }
void sched_fail(const char *fmt, ...) {
  if(!failed) { va_list ap; va_start(ap, fmt); vsnprintf(fail_msg, sizeof fail_msg, fmt, ap); va_end(ap); }
  if(cur < 0) mc_fail("%s", fail_msg);
  failed = true; to_main();
}

/* ---- locks, once, vector clocks ---- */
typedef uint32_t VC[SCHED_MAX];
static VC clk[SCHED_MAX]; static uint32_t epoch0 = 1;
typedef struct { const void *a; int owner; bool is_once; int once; bool live; VC c; } Lock;
static Lock lk[128]; static int nlk, n_once, n_atexit;
static Lock *lock_of(const void *a) {
  for(int i = 0; i < nlk; i++) if(lk[i].a == a) return &lk[i];
  if(nlk == 128) { printf("harness error: too many locks\n"); fflush(stdout); _Exit(3); }
  Lock *l = &lk[nlk++]; memset(l, 0, sizeof *l); l->a = a; l->owner = -1; return l;
}
static void join(VC a, const VC b) { for(int i = 0; i < SCHED_MAX; i++) if(b[i] > a[i]) a[i] = b[i]; }
static void acquire(Lock *l) { if(cur >= 0) join(clk[cur], l->c); }
static void release(Lock *l) { if(cur >= 0) { join(l->c, clk[cur]); clk[cur][cur]++; } }
int sched_locks_held(void) { int n = 0; for(int i = 0; i < nlk; i++) if(!lk[i].is_once && lk[i].owner != -1) n++; return n; }
int sched_locks_held_by_me(void) { int n = 0; for(int i = 0; i < nlk; i++) n += !lk[i].is_once && lk[i].owner == cur; return n; }
int sched_locks_live(void) { int n = 0; for(int i = 0; i < nlk; i++) n += lk[i].live; return n; }
int sched_once_runs(void) { return n_once; }
int sched_atexits(void) { return n_atexit; }
static void point(void) { if(cur >= 0) { fb[cur].st = ST_RUN; to_main(); } }
static int do_lock(const void *a, bool try) {
  Lock *l = lock_of(a);
  if(cur < 0) { if(l->owner != -1) { if(try) return EBUSY; sched_fail("deadlock: a lock is taken that a finished thread or this call keeps"); } l->owner = 99; return 0; }
  if(l->owner == cur && !try) { sched_fail("deadlock: a thread takes a lock it holds"); }
  point();
  l = lock_of(a);
  if(try && l->owner != -1) return EBUSY;
  while(l->owner != -1) { fb[cur].st = ST_WAIT; fb[cur].wait = (void *)a; to_main(); l = lock_of(a); }
  l->owner = cur; acquire(l);
  return 0;
}
static int do_unlock(const void *a) {
  Lock *l = lock_of(a);
  if(l->owner != (cur < 0 ? 99 : cur)) sched_fail("a lock is released by a thread that does not hold it");
  release(l); l->owner = -1; return 0;
}
static int do_init(const void *a) { Lock *l = lock_of(a); l->owner = -1; l->live = true; return 0; }
static int do_destroy(const void *a) { Lock *l = lock_of(a); if(l->owner != -1) sched_fail("a locked lock is destroyed"); l->live = false; return 0; }
static int do_once(const void *a, void (*fn)(void)) {
  Lock *l = lock_of(a); l->is_once = true;
  point();
  l = lock_of(a);
  while(l->once == 1) { fb[cur].st = ST_WAIT; fb[cur].wait = (void *)a; to_main(); l = lock_of(a); }
  if(l->once == 0) { l->once = 1; n_once++; fn(); l = lock_of(a); l->once = 2; release(l); }
  else acquire(l);
  return 0;
}
static bool enabled(int t) {
  if(fb[t].st == ST_DONE) return false;
  if(fb[t].st == ST_WAIT) { Lock *l = lock_of(fb[t].wait); return l->is_once ? l->once != 1 : l->owner == -1; }
  return true;
}
int sched_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; return do_init(m); }
int sched_pthread_mutex_destroy(pthread_mutex_t *m) { return do_destroy(m); }
int sched_pthread_mutex_lock(pthread_mutex_t *m) { return do_lock(m, false); }
int sched_pthread_mutex_trylock(pthread_mutex_t *m) { return do_lock(m, true); }
int sched_pthread_mutex_unlock(pthread_mutex_t *m) { return do_unlock(m); }
int sched_pthread_once(pthread_once_t *o, void (*f)(void)) { return do_once(o, f); }
int sched_mtx_init(mtx_t *m, int t) { (void)t; do_init(m); return thrd_success; }
void sched_mtx_destroy(mtx_t *m) { do_destroy(m); }
int sched_mtx_lock(mtx_t *m) { do_lock(m, false); return thrd_success; }
int sched_mtx_trylock(mtx_t *m) { return do_lock(m, true) ? thrd_busy : thrd_success; }
int sched_mtx_unlock(mtx_t *m) { do_unlock(m); return thrd_success; }
void sched_call_once(once_flag *o, void (*f)(void)) { do_once(o, f); }
int sched_atexit(void (*f)(void)) { (void)f; n_atexit++; return 0; }

/* ---- shadow memory ---- */
typedef struct { uint32_t w[SCHED_MAX], r[SCHED_MAX]; } Cell;
typedef struct { uintptr_t page; Cell c[4096]; } Page;
#define NPG 4096
static Page *pg[NPG];
static Page *page_of(uintptr_t a) {
  uintptr_t p = a >> 12; unsigned h = (unsigned)((p * 0x9e3779b97f4a7c15ULL) >> 52) & (NPG - 1);
  while(pg[h]) { if(pg[h]->page == p) return pg[h]; h = (h + 1) & (NPG - 1); }
  Page *n = mmap(NULL, sizeof *n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if(n == MAP_FAILED) { printf("harness error: shadow memory\n"); fflush(stdout); _Exit(3); }
  n->page = p; return pg[h] = n;
}
static const char *symbol(void *pc) {
  static char b[2][120]; static int k; char *o = b[k ^= 1]; snprintf(o, 120, "?");
  Dl_info di; struct link_map *lm = NULL;
  if(!dladdr1(pc, &di, (void **)&lm, RTLD_DL_LINKMAP)) return o;
  char cmd[300], ln[200]; snprintf(cmd, sizeof cmd, "addr2line -f -e /proc/%d/exe 0x%lx 2>/dev/null", (int)getpid(), (unsigned long)((uintptr_t)pc - 1 - (lm ? lm->l_addr : 0)));
  FILE *f = popen(cmd, "r"); if(!f) return o;
  if(fgets(ln, sizeof ln, f)) { ln[strcspn(ln, "\n.")] = 0; snprintf(o, 120, "%s", ln); }
  pclose(f); return o;
}
static void race(void *pc, bool w, bool ow, const char *what) { sched_fail("data race: an unsynchronised %s of %s in %s conflicts with %s by another thread", w ? "write" : "read", what ? what : "shared memory", symbol(pc), ow ? "a write" : "a read"); }
typedef struct { char *p; size_t n; bool freed; } Blk;
static Blk blk[4096]; static int nblk;
static void access_(uintptr_t a, size_t n, bool w, void *pc, const char *what) {
  if(cur < 0 || failed) return;
  if(a - (uintptr_t)fb[cur].stk < STK) return;
  naccess++;
  Page *p = page_of(a);
  for(size_t i = 0; i < n; i++, a++) {
    if(!(a & 4095) && i) p = page_of(a);
    Cell *c = &p->c[a & 4095];
    for(int t = 0; t < nfb; t++) if(t != cur) {
      if(c->w[t] >= epoch0 && c->w[t] > clk[cur][t]) race(pc, w, true, what);
      if(w && c->r[t] >= epoch0 && c->r[t] > clk[cur][t]) race(pc, w, false, what);
    }
    if(w) c->w[cur] = clk[cur][cur]; else c->r[cur] = clk[cur][cur];
  }
}
void sched_touch(const void *p, size_t n, bool write, const char *what) { access_((uintptr_t)p, n, write, __builtin_return_address(0), what); }
#define PC __builtin_return_address(0)
#define RW(n) \
  void __tsan_read##n(void *a) { access_((uintptr_t)a, n, false, PC, NULL); } \
  void __tsan_write##n(void *a) { access_((uintptr_t)a, n, true, PC, NULL); } \
  void __tsan_unaligned_read##n(void *a) { access_((uintptr_t)a, n, false, PC, NULL); } \
  void __tsan_unaligned_write##n(void *a) { access_((uintptr_t)a, n, true, PC, NULL); } \
  void __tsan_volatile_read##n(void *a) { access_((uintptr_t)a, n, false, PC, NULL); } \
  void __tsan_volatile_write##n(void *a) { access_((uintptr_t)a, n, true, PC, NULL); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access_((uintptr_t)a, n, false, PC, NULL); }
void __tsan_write_range(void *a, size_t n) { access_((uintptr_t)a, n, true, PC, NULL); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
/* atomics: sequentially consistent, each a scheduling point */
static void at(const void *a) { point(); if(cur >= 0) { Lock *l = lock_of(a); acquire(l); release(l); } }
#define ATOM(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int mo) { (void)mo; at((const void *)a); return *a; } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { (void)mo; at((const void *)a); *a = v; } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { (void)mo; at((const void *)a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { (void)mo; at((const void *)a); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; at((const void *)a); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { (void)mo; at((const void *)a); T o = *a; *a = (T)(o | v); return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { (void)mo; at((const void *)a); T o = *a; *a = (T)(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int f) { (void)mo; (void)f; at((const void *)a); if(*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) { (void)mo; (void)f; at((const void *)a); if(*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int mo, int f) { (void)mo; (void)f; at((const void *)a); T o = *a; if(o == e) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; point(); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- library functions the code under test calls (renamed at compile time) ---- */
#define RD(p, n) access_((uintptr_t)(p), n, false, PC, NULL)
#define WR(p, n) access_((uintptr_t)(p), n, true, PC, NULL)
void *sched_memcpy(void *d, const void *s, size_t n) { RD(s, n); WR(d, n); return memcpy(d, s, n); }
void *sched_memmove(void *d, const void *s, size_t n) { RD(s, n); WR(d, n); return memmove(d, s, n); }
void *sched_memset(void *d, int c, size_t n) { WR(d, n); return memset(d, c, n); }
int sched_memcmp(const void *a, const void *b, size_t n) { RD(a, n); RD(b, n); return memcmp(a, b, n); }
size_t sched_strlen(const char *s) { size_t n = strlen(s); RD(s, n + 1); return n; }
size_t sched_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); RD(s, n < m ? n + 1 : m); return n; }
char *sched_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n); WR(d, n); return memcpy(d, s, n); }
char *sched_strncpy(char *d, const char *s, size_t m) { size_t n = strnlen(s, m); RD(s, n < m ? n + 1 : m); WR(d, m); return strncpy(d, s, m); }
char *sched_strcat(char *d, const char *s) { RD(s, strlen(s) + 1); WR(d + strlen(d), strlen(s) + 1); return strcat(d, s); }
int sched_strcmp(const char *a, const char *b) { RD(a, strlen(a) + 1); RD(b, strlen(b) + 1); return strcmp(a, b); }
int sched_strncmp(const char *a, const char *b, size_t m) { RD(a, strnlen(a, m)); RD(b, strnlen(b, m)); return strncmp(a, b, m); }
char *sched_strchr(const char *s, int c) { RD(s, strlen(s) + 1); return strchr(s, c); }
char *sched_strrchr(const char *s, int c) { RD(s, strlen(s) + 1); return strrchr(s, c); }
/* blocks are kept until the end of the execution: a use after free is an access to a freed block */
static void *blk_new(size_t n, int fill) {
  char *p = malloc(n + 16); if(!p) return NULL;
  memset(p, fill, n); 
  if(nblk < 4096) blk[nblk++] = (Blk){ p, n, false };
  if(cur >= 0) WR(p, n);
  return p;
}
void *sched_malloc(size_t n) { return blk_new(n, 0xA5); }
void *sched_calloc(size_t a, size_t b) { return blk_new(a * b, 0); }
void sched_free(void *q) {
  if(!q) return;
  for(int i = nblk - 1; i >= 0; i--) if(blk[i].p == q) {
    if(blk[i].freed) sched_fail("a block is freed twice");
    WR(q, blk[i].n); memset(q, 0xDD, blk[i].n); blk[i].freed = true; return;
  }
  free(q);
}
void *sched_realloc(void *q, size_t n) {
  if(!q) return sched_malloc(n);
  for(int i = nblk - 1; i >= 0; i--) if(blk[i].p == q) { void *r = sched_malloc(n); if(r) { sched_memcpy(r, q, n < blk[i].n ? n : blk[i].n); sched_free(q); } return r; }
  return realloc(q, n);
}
int sched_blocks_live(void) { int n = 0; for(int i = 0; i < nblk; i++) n += !blk[i].freed; return n; }

/* ---- exploration ---- */
void sched_drop_locks(void) { nlk = 0; cur = -1; running = failed = false; }
void sched_reset(void) {
  for(int i = 0; i < nblk; i++) free(blk[i].p);
  nblk = 0; nlk = 0; cur = -1; running = failed = false; n_once = n_atexit = 0;
}
static void start(int t) { body(t); fb[t].st = ST_DONE; to_main(); }
void sched_run(int n, sched_fn fn, int preemptions) {
  body = fn; nfb = n; failed = false; nswitch = 0;
  uint32_t hi = epoch0;
  for(int t = 0; t < SCHED_MAX; t++) for(int u = 0; u < SCHED_MAX; u++) if(clk[t][u] > hi) hi = clk[t][u];
  if(hi > 0xF0000000u) { printf("harness error: clock overflow\n"); fflush(stdout); _Exit(3); }
  epoch0 = hi + 1;
  for(int i = 0; i < nlk; i++) memset(lk[i].c, 0, sizeof lk[i].c);
  for(int t = 0; t < n; t++) {
    if(!fb[t].stk) { fb[t].stk = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if(fb[t].stk == MAP_FAILED) { printf("harness error: stack\n"); _Exit(3); } }
    for(int u = 0; u < SCHED_MAX; u++) clk[t][u] = 0;
    clk[t][t] = epoch0;
    getcontext(&fb[t].uc); fb[t].uc.uc_stack.ss_sp = fb[t].stk; fb[t].uc.uc_stack.ss_size = STK; fb[t].uc.uc_link = NULL;
    makecontext(&fb[t].uc, (void (*)(void))start, 1, t);
    fb[t].st = ST_RUN;
  }
  int last = -1, left = preemptions;
  for(;;) {
    int en[SCHED_MAX], k = 0, pick; bool was = last >= 0 && enabled(last);
    if(was) en[k++] = last;
    for(int t = 0; t < n; t++) if(t != last && enabled(t)) en[k++] = t;
    if(!k) { bool all = true; for(int t = 0; t < n; t++) if(fb[t].st != ST_DONE) all = false; if(all) break; mc_fail("deadlock: no thread can continue"); }
    if(was && left == 0) pick = last; else pick = en[mc_choose(k)];
    if(was && pick != last) left--;
    if(pick != last) { nswitch++; if(last >= 0) mc_op("-- thread %d", pick); }
    last = cur = pick; fb[pick].st = ST_RUN;
    swapcontext(&uc_main, &fb[pick].uc);
    cur = -1; mc_tick();
    if(failed) { running = false; mc_fail("%s", fail_msg); }
  }
  /* everything happens before what follows */
}
