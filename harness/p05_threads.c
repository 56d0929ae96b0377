/* P05: every schedule of short registry programs; the oracle is the same code run one call after another. */
#include "mc.h"
#include "memfs.h"
#include "fibers.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include <stdarg.h>
const char *evfs_err_name(int);

/* three plain file systems with nothing in them */
static int notified[4];
static int v_open(Evfs *v, const char *p, EvfsFile *f, int fl) { (void)v; (void)p; (void)f; (void)fl; return EVFS_ERR_NO_FILE; }
static int v_stat(Evfs *v, const char *p, EvfsInfo *i) { (void)p; memset(i, 0, sizeof *i); i->size = (evfs_off_t)(v->vfs_name[0]); return EVFS_OK; }
static int v_ctrl(Evfs *v, int cmd, void *a) { (void)a; if(cmd == EVFS_CMD_UNREGISTER) { notified[v->vfs_name[0] - 'A']++; return EVFS_OK; } return EVFS_ERR_NO_SUPPORT; }
static Evfs raw[3]; static char names[3][2] = {"A", "B", "C"};
static void fresh(void) {
  sched_drop_locks(); evfs_init(); evfs_unregister_all(); sched_reset(); evfs_init(); memset(notified, 0, sizeof notified);
  for(int i = 0; i < 3; i++) { memset(&raw[i], 0, sizeof raw[i]); raw[i].vfs_name = names[i]; raw[i].vfs_file_size = sizeof(EvfsFile); raw[i].vfs_dir_size = sizeof(EvfsDir); raw[i].m_open = v_open; raw[i].m_stat = v_stat; raw[i].m_vfs_ctrl = v_ctrl; }
}
enum { REG, REGD, UNREG, FIND, DFLT, USE, USED, INIT, ALL, JAIL, NOPS };
typedef struct { int op, v; } Call;
static const char *call_text(Call c) { static char b[4][40]; static int k; const char *t[] = {"register %s", "register %s as default", "unregister %s", "find %s", "default name", "stat on %s", "stat on the default", "init", "unregister all", "register a jail on %s"}; k = (k + 1) & 3; snprintf(b[k], 40, t[c.op], names[c.v]); return b[k]; }
static Evfs *jail_seen;
static int do_call(Call c) {
  EvfsInfo i;
  switch(c.op) {
    case REG: return evfs_register(&raw[c.v], false);
    case REGD: return evfs_register(&raw[c.v], true);
    case UNREG: return evfs_unregister(&raw[c.v]);
    case FIND: { Evfs *e = evfs_find_vfs(names[c.v]); return e == &raw[c.v] ? 1 : e ? 2 : 0; }
    case DFLT: { const char *n = evfs_default_vfs_name(); return n ? n[0] : 0; }
    case USE: { int st = evfs_stat_ex("/x", &i, names[c.v]); return st == EVFS_OK ? (int)i.size : st; }
    case USED: { int st = evfs_stat_ex("/x", &i, NULL); return st == EVFS_OK ? (int)i.size : st; }
    case INIT: evfs_init(); return 0;
    case ALL: evfs_unregister_all(); return 0;
    case JAIL: { char nm[8]; snprintf(nm, sizeof nm, "jail%s", names[c.v]); int st = evfs_register_jail(nm, names[c.v], "/", false); return st; }
  }
  return 0;
}
/* everything that can be observed afterwards */
static int final_state(char *o) {
  int n = 0, guard = 0;
  for(int i = 0; i < 3; i++) { Evfs *e = evfs_find_vfs(names[i]); n += sprintf(o + n, "%s%s ", names[i], e == &raw[i] ? "+" : e ? "?" : "-"); }
  for(int i = 0; i < 3; i++) { char nm[8]; snprintf(nm, sizeof nm, "jail%s", names[i]); Evfs *e = evfs_find_vfs(nm); if(e) n += sprintf(o + n, "%s ", nm); }
  n += sprintf(o + n, "defaults");
  const char *d;
  while((d = evfs_default_vfs_name()) && d[0] && guard++ < 10) { n += sprintf(o + n, " %s", d); Evfs *e = evfs_find_vfs(d); if(!e || evfs_unregister(e) != EVFS_OK) { n += sprintf(o + n, " (can not be unregistered)"); break; } }
  n += sprintf(o + n, " notified %d%d%d", notified[0], notified[1], notified[2]);
  return n;
}
#define MAXC 4
static Call prog[SCHED_MAX][MAXC]; static int plen[SCHED_MAX], nthr, result[SCHED_MAX][MAXC], setup_calls; static Call setup[4];
static void thread(int t) {
  for(int i = 0; i < plen[t]; i++) { result[t][i] = do_call(prog[t][i]); mc_op("thread %d: %s -> %d", t, call_text(prog[t][i]), result[t][i]); if(sched_locks_held_by_me()) sched_fail("%s returns with a lock held", call_text(prog[t][i])); }
}
static void outcome(char *o) { int n = 0; for(int t = 0; t < nthr; t++) for(int i = 0; i < plen[t]; i++) n += sprintf(o + n, "%d ", result[t][i]); final_state(o + n); }
/* outcomes of all sequential orders */
#define MAXO 400
static char seq[MAXO][300]; static int nseq; static char memo_key[400];
static void key(char *k) { int n = sprintf(k, "%d|", setup_calls); for(int i = 0; i < setup_calls; i++) n += sprintf(k + n, "%d.%d,", setup[i].op, setup[i].v); for(int t = 0; t < nthr; t++) { k[n++] = '|'; for(int i = 0; i < plen[t]; i++) n += sprintf(k + n, "%d.%d,", prog[t][i].op, prog[t][i].v); } k[n] = 0; }
static void prepare(void) { fresh(); for(int i = 0; i < setup_calls; i++) do_call(setup[i]); memset(notified, 0, sizeof notified); }
static void sequential(int *order, int depth, int *pos, int total) {
  if(depth == total) {
    prepare(); int at[SCHED_MAX] = {0};
    for(int i = 0; i < total; i++) { int t = order[i]; result[t][at[t]] = do_call(prog[t][at[t]]); at[t]++; }
    char o[300]; outcome(o);
    for(int i = 0; i < nseq; i++) if(!strcmp(seq[i], o)) return;
    if(nseq < MAXO) strcpy(seq[nseq++], o);
    return;
  }
  for(int t = 0; t < nthr; t++) if(pos[t] < plen[t]) { order[depth] = t; pos[t]++; sequential(order, depth + 1, pos, total); pos[t]--; }
}
static void oracle(void) {
  char k[400]; key(k);
  if(!strcmp(k, memo_key)) return;
  strcpy(memo_key, k); nseq = 0;
  int order[16], pos[SCHED_MAX] = {0}, total = 0; for(int t = 0; t < nthr; t++) total += plen[t];
  sequential(order, 0, pos, total);
}
static int bound_;
static void explore(void) {
  oracle(); prepare();
  for(int t = 0; t < nthr; t++) for(int i = 0; i < MAXC; i++) result[t][i] = 999;
  for(int i = 0; i < setup_calls; i++) mc_op("before: %s", call_text(setup[i]));
  sched_run(nthr, thread, bound_);
  MC_CHECK(!sched_locks_held(), "a lock stays held");
  char o[300]; outcome(o);
  mc_state(mc_hash(MC_HASH0, o, strlen(o)));
  for(int t = 0; t < nthr; t++) for(int i = 0; i < plen[t]; i++) if(prog[t][i].op == ALL) { /* it takes one file system at a time: no order to compare with, but the list has to be sound */
    MC_CHECK(!strstr(o, "can not") && !strchr(o, '?'), "the registry is damaged: %s", o);
    char *d = strstr(o, "defaults"); for(int v = 0; v < 3; v++) { int seen = 0; for(char *p = d + 8; *p && *p != 'n'; p++) seen += *p == names[v][0]; MC_CHECK(seen == (strstr(o, (char[]){names[v][0], '+', 0}) != NULL), "the registry lists %s %d times: %s", names[v], seen, o); }
    return;
  }
  for(int i = 0; i < nseq; i++) if(!strcmp(seq[i], o)) return;
  mc_fail("no sequential order of the calls explains results and final state: %s", o);
}
static Call pick(int t, int setup_kind) {
  /* a thread registers and unregisters only its own file system, and looks at all */
  int own = t; (void)setup_kind;
  static const int ops[] = { REG, REGD, UNREG, FIND, DFLT, USED, USE };
  int k = mc_choose(nthr == 2 ? 10 : 7);
  if(k < 3) return (Call){ ops[k], own };
  if(k == 3) return (Call){ FIND, own };
  if(k == 4) return (Call){ DFLT, 0 };
  if(k == 5) return (Call){ USED, 0 };
  if(k == 6) return (Call){ FIND, (own + 1) % nthr };
  if(k == 7) return (Call){ FIND, 2 };
  if(k == 8) return (Call){ USE, own };
  return (Call){ JAIL, own };
}
static void choose_setup(void) {
  static const Call s[][3] = { {{-1, 0}}, {{REG, 2}, {-1, 0}}, {{REG, 0}, {REG, 1}, {-1, 0}}, {{REG, 2}, {REG, 0}, {-1, 0}}, {{REG, 1}, {REG, 2}, {REGD, 0}} };
  int k = mc_choose(5); setup_calls = 0;
  for(int i = 0; i < 3 && s[k][i].op >= 0; i++) setup[setup_calls++] = s[k][i];
}
static void s_two(void) {
  nthr = 2; bound_ = mc_tier(3, 6); choose_setup();
  for(int t = 0; t < 2; t++) { plen[t] = 2; for(int i = 0; i < 2; i++) prog[t][i] = pick(t, 0); }
  explore();
}
static void s_three(void) {
  nthr = 3; bound_ = mc_tier(2, 4); choose_setup();
  for(int t = 0; t < 3; t++) { plen[t] = 1; prog[t][0] = pick(t, 0); }
  explore();
}
static void s_deep(void) { /* two threads, three calls each */
  nthr = 2; bound_ = mc_tier(1, 3); choose_setup();
  for(int t = 0; t < 2; t++) { plen[t] = 3; for(int i = 0; i < 3; i++) { int k = mc_choose(5); prog[t][i] = k < 3 ? (Call){ (int[]){REG, REGD, UNREG}[k], t } : k == 3 ? (Call){ DFLT, 0 } : (Call){ FIND, 1 - t }; } }
  explore();
}
/* the same file system handed in by both threads, and everything unregistered at once */
static void s_same(void) {
  nthr = 2; bound_ = mc_tier(3, 6); choose_setup();
  static const Call c[] = { {REG, 0}, {REGD, 0}, {UNREG, 0}, {FIND, 0}, {DFLT, 0}, {REG, 1}, {ALL, 0} };
  for(int t = 0; t < 2; t++) { plen[t] = 2; for(int i = 0; i < 2; i++) prog[t][i] = c[mc_choose(7)]; }
  /* unregistering everything frees what the other thread may be using: alone with registrations of plain file systems */
  explore();
}
static int init_ok[SCHED_MAX];
static void init_thread(int t) { evfs_init(); init_ok[t] = evfs_register(&raw[t], t == 1); mc_op("thread %d: init, register -> %d", t, init_ok[t]); }
static void s_init(void) {
  nthr = 2 + mc_choose(2); fresh(); sched_reset();
  sched_run(nthr, init_thread, mc_tier(4, 8));
  for(int t = 0; t < nthr; t++) { MC_CHECK(init_ok[t] == EVFS_OK, "registering right after evfs_init() fails: %s", evfs_err_name(init_ok[t])); MC_CHECK(evfs_find_vfs(names[t]) == &raw[t], "a file system registered during initialisation is lost"); }
  MC_CHECK(sched_atexits() <= 1 && sched_once_runs() <= 1, "initialisation runs %d times", sched_atexits());
  evfs_unregister_all();
}
static void clean(void) { sched_drop_locks(); evfs_unregister_all(); sched_reset(); memo_key[0] = memo_key[0]; }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P05");
  mc_set_cleanup(clean);
  fresh();
  mc_note("two threads of 2 calls each from 10, three threads of 1 call from 7, two threads of 3 calls from 5, from 5 starting registries, all schedules with up to %d/%d/%d preemptions at lock acquisitions; every byte access of the library checked with vector clocks", mc_tier(3, 6), mc_tier(2, 4), mc_tier(1, 3));
  mc_note("Oracle: the outcomes (all results, which file systems are registered, the order defaults are handed over, notifications) of running the same calls one after another in every order");
  mc_explore_depth("init", s_init, 2);
  mc_explore_depth("two", s_two, 4);
  mc_explore_depth("same", s_same, 4);
  mc_explore_depth("three", s_three, 3);
  mc_explore_depth("deep", s_deep, 4);
  return mc_main_finish();
}
