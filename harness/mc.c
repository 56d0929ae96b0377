#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <ftw.h>

#define MAX_CHOICES  512
#define TRACE_SZ     6000
#define MAX_WORKERS  16
#define MAX_VIOL     4
#define SIG_SZ       400
#define STATE_BITS   22
#define MAX_KNOWN    64

typedef struct {
  char sig[SIG_SZ];
  char trace[TRACE_SZ];
  char scenario[64];
  uint16_t vec[MAX_CHOICES];
  int len;
} Viol;

typedef struct {
  volatile uint64_t execs, trans, pruned;
  volatile int in_exec;
  volatile int hang;
  uint16_t vec[MAX_CHOICES];
  uint16_t lim[MAX_CHOICES];
  int len, pos;
  char trace[TRACE_SZ];
  int tlen;
  Viol viol[MAX_VIOL];
  int nviol;
  char samples[6][300];
  int nsamples;
} Worker;

typedef struct {
  _Atomic int stop;
  _Atomic uint64_t nstates;
  _Atomic int known_hit[MAX_KNOWN];
  Worker w[MAX_WORKERS];
  _Atomic uint64_t states[1u << STATE_BITS];
} Shared;

static Shared *S;
static Worker *W;
static int g_workers = 8, g_wid, g_shard_depth = 2;
static const char *g_prop;
static bool g_thorough;
static char g_out[400], g_logdir[400], g_scratch_base[400], g_scratch[500];
static const char *g_scenario = "";
static jmp_buf g_jmp;
static bool g_replaying;
static volatile int g_tick, g_tick0;
static void (*g_cleanup)(void);
static char g_notes[40][400]; static int g_nnotes;
static char g_known[MAX_KNOWN][SIG_SZ]; static int g_nknown;
static Viol g_viol[16]; static int g_nviol;
static char g_samples[24][300]; static int g_nsamples;
static struct { char name[64]; uint64_t execs, trans, pruned; double secs; } g_sc[128]; static int g_nsc;
static uint64_t g_execs, g_trans, g_pruned;
static char g_replay_sc[64]; static uint16_t g_replay_vec[MAX_CHOICES]; static int g_replay_len = -1;
static struct timespec g_t0;
static int g_hang_s = 20;

static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

bool mc_thorough(void) { return g_thorough; }
int mc_tier(int q, int t) { return g_thorough ? t : q; }
const char *mc_scratch(void) { return g_scratch; }
void mc_set_cleanup(void (*fn)(void)) { g_cleanup = fn; }

uint64_t mc_hash(uint64_t h, const void *p, size_t n) {
  const uint8_t *b = p;
  for(size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
  h ^= h >> 29;
  return h;
}

static void load_known(const char *path) {
  FILE *f = fopen(path, "r");
  if(!f) return;
  char line[1000];
  while(fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    /* known: property=<id> :: <signature> */
    char pre[64];
    snprintf(pre, sizeof pre, "known: property=%s :: ", g_prop);
    if(!strncmp(line, pre, strlen(pre)) && g_nknown < MAX_KNOWN)
      snprintf(g_known[g_nknown++], SIG_SZ, "%s", line + strlen(pre));
  }
  fclose(f);
}

void mc_main_init(int argc, char **argv, const char *property) {
  g_prop = property;
  setenv("TZ", "UTC0", 1);   /* no look at the time zone file on every conversion */
  clock_gettime(CLOCK_MONOTONIC, &g_t0);
  long nc = sysconf(_SC_NPROCESSORS_ONLN);
  if(nc >= 1 && nc < 8) g_workers = nc < 2 ? 2 : (int)nc;
  snprintf(g_out, sizeof g_out, "report.txt");
  snprintf(g_logdir, sizeof g_logdir, ".");
  snprintf(g_scratch_base, sizeof g_scratch_base, "/tmp");
  for(int i = 1; i < argc; i++) {
    if(!strcmp(argv[i], "--tier")) g_thorough = !strcmp(argv[++i], "thorough");
    else if(!strcmp(argv[i], "--out")) snprintf(g_out, sizeof g_out, "%s", argv[++i]);
    else if(!strcmp(argv[i], "--logdir")) snprintf(g_logdir, sizeof g_logdir, "%s", argv[++i]);
    else if(!strcmp(argv[i], "--scratch")) snprintf(g_scratch_base, sizeof g_scratch_base, "%s", argv[++i]);
    else if(!strcmp(argv[i], "--workers")) g_workers = atoi(argv[++i]);
    else if(!strcmp(argv[i], "--known")) load_known(argv[++i]);
    else if(!strcmp(argv[i], "--replay")) {
      snprintf(g_replay_sc, sizeof g_replay_sc, "%s", argv[++i]);
      char *p = argv[++i]; g_replay_len = 0;
      while(*p) { g_replay_vec[g_replay_len++] = (uint16_t)strtol(p, &p, 10); if(*p == ',') p++; }
    }
  }
  /* everything is made, and later removed, inside a new directory of our own */
  mkdir(g_scratch_base, 0700);
  strncat(g_scratch_base, "/mcXXXXXX", sizeof g_scratch_base - strlen(g_scratch_base) - 1);
  if(!mkdtemp(g_scratch_base)) { printf("harness error: no scratch directory below %s\n", g_scratch_base); exit(3); }

  if(g_workers > MAX_WORKERS) g_workers = MAX_WORKERS;
  S = mmap(NULL, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if(S == MAP_FAILED) { perror("mmap"); exit(2); }
  W = &S->w[0];
  if(g_replay_len < 0) {
    /* the library reports every rejected argument on stderr */
    if(!freopen("/dev/null", "w", stderr)) {}
  }
}

void mc_note(const char *fmt, ...) {
  if(g_nnotes >= 40) return;
  va_list ap; va_start(ap, fmt); vsnprintf(g_notes[g_nnotes++], sizeof g_notes[0], fmt, ap); va_end(ap);
}

void mc_sample(const char *fmt, ...) {
  if(W->nsamples >= 3) return;
  va_list ap; va_start(ap, fmt); vsnprintf(W->samples[W->nsamples++], sizeof W->samples[0], fmt, ap); va_end(ap);
}

void mc_tick(void) { W->trans++; g_tick0 = g_tick; }
void mc_exec_done(void) { W->execs++; g_tick0 = g_tick; }

void mc_op(const char *fmt, ...) {
  mc_tick();
  if(W->tlen >= TRACE_SZ - 2) return;
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(W->trace + W->tlen, TRACE_SZ - W->tlen - 1, fmt, ap);
  va_end(ap);
  if(n < 0) return;
  W->tlen += n;
  if(W->tlen > TRACE_SZ - 3) W->tlen = TRACE_SZ - 3;
  W->trace[W->tlen++] = '\n'; W->trace[W->tlen] = 0;
  if(g_replaying) { fprintf(stdout, "  %s", W->trace + W->tlen - 1 - n); fflush(stdout); }
}
const char *mc_trace_text(void) { return W->trace; }

void mc_state(uint64_t h) {
  if(!h) h = 1;
  uint64_t ix = (h * 0x9e3779b97f4a7c15ULL) >> (64 - STATE_BITS);
  for(int probe = 0; probe < 64; probe++) {
    uint64_t cur = atomic_load_explicit(&S->states[ix], memory_order_relaxed);
    if(cur == h) return;
    if(cur == 0) {
      uint64_t exp = 0;
      if(atomic_compare_exchange_strong(&S->states[ix], &exp, h)) { atomic_fetch_add(&S->nstates, 1); return; }
      if(exp == h) return;
    }
    ix = (ix + 1) & ((1u << STATE_BITS) - 1);
  }
}

int mc_choose(int n) {
  if(n <= 1) return 0;
  int pos = W->pos++;
  if(pos >= MAX_CHOICES) { fprintf(stdout, "harness error: too many choices\n"); exit(3); }
  if(pos >= W->len) {
    W->vec[pos] = 0; W->lim[pos] = (uint16_t)n; W->len = pos + 1;
  } else if(W->lim[pos] != n) {
    if(g_replaying && W->lim[pos] == 0) W->lim[pos] = (uint16_t)n;
    else { fprintf(stdout, "harness error: nondeterministic choice (%d vs %d) in %s\n%s", W->lim[pos], n, g_scenario, W->trace); fflush(stdout); _exit(3); }
  }
  if(W->vec[pos] >= n) { fprintf(stdout, "harness error: replay vector out of range\n"); exit(3); }
  if(!g_replaying && pos + 1 == g_shard_depth) {
    uint64_t h = mc_hash(MC_HASH0, W->vec, sizeof(W->vec[0]) * (size_t)(pos + 1));
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
    if((int)(h % (uint64_t)g_workers) != g_wid) longjmp(g_jmp, 3);
  }
  return W->vec[pos];
}

bool mc_mine(uint64_t ix) { return g_replaying || (int)(ix % (uint64_t)g_workers) == g_wid; }

void mc_prune(void) { longjmp(g_jmp, 2); }
/* the remaining answers to the latest question behave like this one */
void mc_skip_rest(void) { if(W->pos > 0 && W->pos >= g_shard_depth) W->lim[W->pos - 1] = (uint16_t)(W->vec[W->pos - 1] + 1); mc_prune(); }

void mc_fail(const char *fmt, ...) {
  char sig[SIG_SZ];
  va_list ap; va_start(ap, fmt); vsnprintf(sig, sizeof sig, fmt, ap); va_end(ap);
  for(char *p = sig; *p; p++) if(*p == '\n') *p = ' ';
  for(int i = 0; i < g_nknown; i++) {
    if(!strcmp(g_known[i], sig)) { S->known_hit[i] = 1; longjmp(g_jmp, 4); }
  }
  if(W->nviol < MAX_VIOL) {
    Viol *v = &W->viol[W->nviol++];
    snprintf(v->sig, SIG_SZ, "%s", sig);
    snprintf(v->scenario, sizeof v->scenario, "%s", g_scenario);
    memcpy(v->trace, W->trace, sizeof v->trace);
    memcpy(v->vec, W->vec, sizeof v->vec);
    v->len = W->pos < W->len ? W->pos : W->len;
  }
  longjmp(g_jmp, 1);
}

static void on_tick(int sig) {
  (void)sig;
  g_tick++;
  if(W->in_exec && g_tick - g_tick0 > g_hang_s) { W->hang = 1; _exit(78); }
}

static int rm_cb(const char *p, const struct stat *st, int flag, struct FTW *f) { (void)st; (void)flag; (void)f; remove(p); return 0; }

static void worker_setup(void) {
  struct sigaction sa = { .sa_handler = on_tick, .sa_flags = SA_RESTART };
  sigaction(SIGVTALRM, &sa, NULL);
  struct itimerval it = { {1, 0}, {1, 0} };
  setitimer(ITIMER_VIRTUAL, &it, NULL);
  snprintf(g_scratch, sizeof g_scratch, "%s/w%d", g_scratch_base, g_wid);
  mkdir(g_scratch, 0700);
}

static void run_worker(mc_body body) {
  worker_setup();
  W->len = W->pos = 0;
  W->hang = 0;
  for(;;) {
    W->pos = 0; W->tlen = 0; W->trace[0] = 0;
    g_tick0 = g_tick;
    W->in_exec = 1;
    int r = setjmp(g_jmp);
    if(r == 0) {
      if(g_cleanup) g_cleanup();
      body();
      bool counted = W->pos >= g_shard_depth || g_wid == 0;
      if(counted) W->execs++;
      if(W->nsamples < 3 && W->tlen && (W->execs == 3 || W->execs == 200 || W->execs == 3000)) {
        char *o = W->samples[W->nsamples++]; size_t k = 0;
        for(const char *p = W->trace; *p && k < sizeof W->samples[0] - 4; p++) { if(*p == '\n') { if(p[1]) { o[k++] = ';'; o[k++] = ' '; } } else o[k++] = *p; }
        o[k] = 0;
      }
    } else if(r == 2 || r == 4) {
      if(W->pos >= g_shard_depth || g_wid == 0) { W->execs++; if(r == 2) W->pruned++; }
    } else if(r == 1) {
      W->execs++;
      atomic_fetch_add(&S->stop, 1);
      W->in_exec = 0;
      break;
    }
    W->in_exec = 0;
    if(atomic_load(&S->stop)) break;
    /* next vector */
    int n = W->pos < W->len ? W->pos : W->len;
    while(n > 0 && W->vec[n-1] + 1 >= W->lim[n-1]) n--;
    if(n == 0) break;
    W->vec[n-1]++;
    W->len = n;
  }
  if(g_cleanup && setjmp(g_jmp) == 0 && !W->nviol) g_cleanup();
}

static void read_log(int pid, char *buf, size_t n) {
  char path[600];
  const char *kinds[] = {"asan", "ubsan", "msan"};
  buf[0] = 0;
  for(int k = 0; k < 3; k++) {
    snprintf(path, sizeof path, "%s/%s.%d", g_logdir, kinds[k], pid);
    FILE *f = fopen(path, "r");
    if(!f) continue;
    static char txt[20000];
    size_t got = fread(txt, 1, sizeof txt - 1, f); txt[got] = 0;
    fclose(f);
    char *s = strstr(txt, "SUMMARY:");
    char *e = strstr(txt, "ERROR: ");
    char *r = strstr(txt, "runtime error:");
    char *pick = r ? r : (s ? s : e);
    if(r) { while(pick > txt && pick[-1] != '\n') pick--; }
    if(pick) { snprintf(buf, n, "%.*s", (int)strcspn(pick, "\n"), pick); }
    if(buf[0]) return;
  }
}

static void add_viol(Viol *v) {
  for(int i = 0; i < g_nviol; i++) if(!strcmp(g_viol[i].sig, v->sig)) return;
  if(g_nviol < 16) g_viol[g_nviol++] = *v;
}

void mc_explore_depth(const char *scenario, mc_body body, int shard_depth) {
  g_scenario = scenario; g_shard_depth = shard_depth;
  double t0 = now_s();
  if(g_replay_len >= 0) {
    if(strcmp(scenario, g_replay_sc)) return;
    g_replaying = true;
    W = &S->w[0];
    g_wid = 0;
    worker_setup();
    memcpy(W->vec, g_replay_vec, sizeof W->vec); memset(W->lim, 0, sizeof W->lim);
    W->len = g_replay_len; W->pos = 0; W->tlen = 0; W->in_exec = 1;
    printf("replaying %s\n", scenario);
    int r = setjmp(g_jmp);
    if(r == 0) { if(g_cleanup) g_cleanup(); body(); printf("no violation on replay\n"); }
    else if(r == 1) printf("VIOLATION reproduced: %s\n", W->viol[0].sig);
    else printf("replay ended (%d)\n", r);
    return;
  }
  if(S->stop) return;    /* an earlier scenario already failed */
  fflush(NULL);
  pid_t pid[MAX_WORKERS];
  for(int i = 0; i < g_workers; i++) {
    memset(&S->w[i], 0, sizeof S->w[i]);
    pid[i] = fork();
    if(pid[i] == 0) {
      g_wid = i; W = &S->w[i];
      run_worker(body);
      fflush(NULL);
      _exit(0);
    }
    if(pid[i] < 0) { perror("fork"); exit(2); }
  }
  int k = g_nsc < 127 ? g_nsc++ : 127;
  snprintf(g_sc[k].name, 64, "%s", scenario);
  for(int i = 0; i < g_workers; i++) {
    int st = 0;
    waitpid(pid[i], &st, 0);
    Worker *w = &S->w[i];
    if(WIFEXITED(st) && WEXITSTATUS(st) == 3) { printf("HARNESS-ERROR in %s\n", scenario); fflush(stdout); exit(2); }
    if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      static Viol v; memset(&v, 0, sizeof v);
      char log[300]; read_log(pid[i], log, sizeof log);
      if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !w->hang) { printf("HARNESS-ERROR worker killed in %s\n", scenario); fflush(stdout); exit(2); }
      if(w->hang) snprintf(v.sig, SIG_SZ, "no progress (endless loop) in scenario %s", scenario);
      else if(WIFSIGNALED(st)) snprintf(v.sig, SIG_SZ, "crash by signal %d in scenario %s %s", WTERMSIG(st), scenario, log);
      else snprintf(v.sig, SIG_SZ, "memory error or undefined behaviour in scenario %s: %s", scenario, log);
      snprintf(v.scenario, sizeof v.scenario, "%s", scenario);
      memcpy(v.trace, w->trace, sizeof v.trace);
      memcpy(v.vec, w->vec, sizeof v.vec);
      v.len = w->pos < w->len ? w->pos : w->len;
      add_viol(&v);
      S->stop = 1;
    }
    for(int j = 0; j < w->nviol; j++) add_viol(&w->viol[j]);
    for(int j = 0; j < w->nsamples && g_nsamples < 24; j++) {
      bool dup = false;
      for(int q = 0; q < g_nsamples; q++) if(!strcmp(g_samples[q], w->samples[j])) dup = true;
      if(!dup && j == 0) snprintf(g_samples[g_nsamples++], 300, "%s", w->samples[j]);
    }
    g_sc[k].execs += w->execs; g_sc[k].trans += w->trans; g_sc[k].pruned += w->pruned;
  }
  g_sc[k].secs = now_s() - t0;
  g_execs += g_sc[k].execs; g_trans += g_sc[k].trans; g_pruned += g_sc[k].pruned;
  nftw(g_scratch_base, rm_cb, 16, FTW_DEPTH | FTW_PHYS | FTW_MOUNT);
  mkdir(g_scratch_base, 0700);
}
void mc_explore(const char *scenario, mc_body body) { mc_explore_depth(scenario, body, 2); }

static void put_esc(FILE *f, const char *s) {
  for(; *s; s++) {
    unsigned char c = (unsigned char)*s;
    if(c == '\\' || c == '"') fprintf(f, "\\%c", c);
    else if(c == '\n') fprintf(f, "\\n");
    else if(c == '\t') fprintf(f, "\\t");
    else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
}

int mc_main_finish(void) {
  nftw(g_scratch_base, rm_cb, 16, FTW_DEPTH | FTW_PHYS | FTW_MOUNT);
  if(g_replay_len >= 0) return 0;
  FILE *f = fopen(g_out, "w");
  if(!f) return 2;
  fprintf(f, "{\"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"pruned\": %llu,\n",
          (unsigned long long)g_execs, (unsigned long long)g_trans, (unsigned long long)S->nstates, (unsigned long long)g_pruned);
  fprintf(f, " \"scenarios\": [");
  for(int i = 0; i < g_nsc; i++)
    fprintf(f, "%s{\"name\": \"%s\", \"executions\": %llu, \"transitions\": %llu, \"seconds\": %.2f}", i ? ", " : "", g_sc[i].name,
            (unsigned long long)g_sc[i].execs, (unsigned long long)g_sc[i].trans, g_sc[i].secs);
  fprintf(f, "],\n \"samples\": [");
  for(int i = 0; i < g_nsamples; i++) { fprintf(f, "%s\"", i ? ", " : ""); put_esc(f, g_samples[i]); fprintf(f, "\""); }
  fprintf(f, "],\n \"notes\": [");
  for(int i = 0; i < g_nnotes; i++) { fprintf(f, "%s\"", i ? ", " : ""); put_esc(f, g_notes[i]); fprintf(f, "\""); }
  fprintf(f, "],\n \"known\": [");
  int c = 0;
  for(int i = 0; i < g_nknown; i++) if(S->known_hit[i]) { fprintf(f, "%s\"", c++ ? ", " : ""); put_esc(f, g_known[i]); fprintf(f, "\""); }
  fprintf(f, "],\n \"violations\": [");
  for(int i = 0; i < g_nviol; i++) {
    Viol *v = &g_viol[i];
    fprintf(f, "%s{\"sig\": \"", i ? ",\n  " : ""); put_esc(f, v->sig);
    fprintf(f, "\", \"scenario\": \"%s\", \"choices\": [", v->scenario);
    for(int j = 0; j < v->len; j++) fprintf(f, "%s%d", j ? "," : "", v->vec[j]);
    fprintf(f, "], \"trace\": \""); put_esc(f, v->trace); fprintf(f, "\"}");
  }
  fprintf(f, "]}\n");
  fclose(f);
  return g_nviol ? 1 : 0;
}

/* ------------------------------------------------------------------ */
/* allocation tracking */
#ifdef MC_NOWRAP   /* the library's allocations are handled elsewhere */
#define __real_malloc malloc
#define __real_calloc calloc
#define __real_realloc realloc
#define __real_free free
#endif
void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);

#define MAX_LIVE 20000
static void *al_ptr[MAX_LIVE]; static void *al_ra[MAX_LIVE];
static int al_n, al_count, al_fail_at, al_second;
static bool al_on, al_failed, al_more;
static int al_poison = 0xA5;

void *mc_real_malloc(size_t n) { return __real_malloc(n); }
void *mc_real_realloc(void *p, size_t n) { return __real_realloc(p, n); }
void mc_real_free(void *p) { __real_free(p); }

void mc_alloc_track(bool on) { al_on = on; }
int mc_alloc_live(void) { return al_n; }
/* call sites of the blocks that are still allocated, for violation reports */
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n) __attribute__((weak));
const char *mc_alloc_sites(void) {
  static char b[400]; int n = 0; b[0] = 0;
  for(int i = 0; i < al_n && i < 4; i++) {
    char s[100] = "?"; if(__sanitizer_symbolize_pc) __sanitizer_symbolize_pc(al_ra[i], "%f", s, sizeof s);
    n += snprintf(b + n, sizeof b - (size_t)n, "%s%s", i ? ", " : "", s);
  }
  return b;
}
int mc_alloc_count(void) { return al_count; }
void mc_alloc_fail_at(int n) { al_fail_at = n ? al_count + n : 0; al_failed = false; }
void mc_alloc_fail_more(bool on) { al_more = on; }
void mc_alloc_fail_second(int n) { al_second = n; }
bool mc_alloc_failed(void) { return al_failed; }
void mc_alloc_poison(int b) { al_poison = b; }
void mc_alloc_reset(void) {
  for(int i = 0; i < al_n; i++) __real_free(al_ptr[i]);
  al_n = 0; al_count = 0; al_fail_at = 0; al_failed = false; al_more = false; al_second = 0;
}

static bool al_take(size_t n) {
  if(!al_on) return true;
  if(n > ((size_t)1 << 30)) return false;  /* absurd sizes are refused */
  al_count++;
  if(al_fail_at && (al_count == al_fail_at || (al_second && al_count == al_fail_at + al_second) || (al_more && al_count > al_fail_at))) { al_failed = true; return false; }
  return true;
}
static void al_add_(void *p, void *ra) { if(al_on && p && al_n < MAX_LIVE) { al_ra[al_n] = ra; al_ptr[al_n++] = p; } }
#define al_add(p) al_add_(p, __builtin_return_address(0))
static void al_del(void *p) {
  for(int i = al_n - 1; i >= 0; i--) if(al_ptr[i] == p) { al_ptr[i] = al_ptr[--al_n]; al_ra[i] = al_ra[al_n]; return; }
}

void *__wrap_malloc(size_t n) {
  if(!al_take(n)) return NULL;
  void *p = __real_malloc(n);
  #ifndef MC_MSAN
  if(p && al_on) memset(p, al_poison, n);
#endif
  al_add(p);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if(!al_take(b && a > (size_t)-1 / b ? (size_t)-1 : a * b)) return NULL;
  void *p = __real_calloc(a, b);
  al_add(p);
  return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if(!al_take(n)) return NULL;
  void *p = __real_realloc(q, n);
  if(p) { if(q) al_del(q); al_add(p); }
  return p;
}
void __wrap_free(void *p) { if(p) al_del(p); __real_free(p); }

/* ------------------------------------------------------------------ */
const char *mc_bytes(const void *p, size_t n) {
  static char buf[8][600]; static int k;
  char *o = buf[k = (k + 1) & 7]; size_t j = 0;
  const unsigned char *s = p;
  if(!p) return "(null)";
  for(size_t i = 0; i < n && j < 560; i++) {
    if(s[i] >= 32 && s[i] < 127) o[j++] = (char)s[i];
    else j += (size_t)sprintf(o + j, "\\x%02x", s[i]);
  }
  o[j] = 0;
  return o;
}
const char *mc_str(const char *s) { return s ? mc_bytes(s, strlen(s)) : "(null)"; }
