/* P26: threads share a mounted instance, each with files of its own.  Every schedule of
   short programs; the oracle is the same calls made one after another. */
#include "mc.h"
#include "memfs.h"
#include "fibers.h"
#include "images.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_rotate.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
const char *evfs_err_name(int);
#define EN(e) evfs_err_name(e)
enum { I_JAIL, I_ROT, I_TAR, I_TARR, I_ROM, I_ROMR, I_JAILROT, I_TRACE, I_TRJAIL, NI };
static const char *iname[] = { "jail", "rotate", "tar file", "tar resource", "romfs file", "romfs resource", "jail over rotate", "trace", "trace over jail" };
static Mem base; static Img tari, romi; static int inst; static Evfs *V;
static const char t0[] = "first file's own forty byte long text...", t1[] = "SECOND FILE, OTHER CONTENTS";
static bool writable(void) { return inst == I_JAIL || inst == I_TRACE || inst == I_TRJAIL || inst == I_JAILROT || inst == I_ROT; }
static bool has_dirs(void) { return inst != I_TAR && inst != I_TARR; }
static bool has_cwd(void) { return inst != I_ROT && inst != I_TRACE; } /* these pass the current directory through to what is underneath */
static int quiet(const char *buf, void *ctx) { (void)buf; (void)ctx; return 0; }
/* /d and /long-directory-name with g1 in each never change, /m<t> belongs to thread t */
static const struct { const char *p; const char *d; int n; } FILES[] = { {"/d", 0, 0}, {"/d/g1", t1, 12}, {"/long-directory-name", 0, 0}, {"/long-directory-name/g1", t0, 25}, {"/m0", 0, 0}, {"/m0/f", t0, sizeof t0 - 1}, {"/m1", 0, 0}, {"/m1/f", t1, sizeof t1 - 1}, {"/m2", 0, 0}, {"/m2/f", t1, 9} };
static void images(void) {
  tar_start(&tari); RomNode n[16] = { {0} }; int k = 1;
  for(size_t i = 0; i < sizeof FILES / sizeof *FILES; i++) {
    tar_add(&tari, FILES[i].p, NULL, FILES[i].d ? '0' : '5', FILES[i].d, FILES[i].n, 1);
    const char *sl = strrchr(FILES[i].p, '/');
    n[k] = (RomNode){ sl + 1, FILES[i].d ? RN_FILE : RN_DIR, FILES[i].d ? k - 1 : 0, 0, 0, FILES[i].d, FILES[i].n, 0 }; k++;
  }
  tar_end(&tari, 2);
  rom_build(&romi, n, k, "vol");
}
static void fresh(void) {
  sched_drop_locks(); evfs_init(); evfs_unregister_all(); sched_reset();
  mem_free(&base); mem_init(&base, "mem"); evfs_register(&base.vfs, true);
  static const char *root[] = { "", "/jail" }; const char *r = root[inst == I_JAIL || inst == I_TRJAIL || inst == I_JAILROT]; char p[100]; EvfsFile *img = NULL; int st = -1;
  if(*r) mem_mkdir(&base, r);
  for(size_t i = 0; i < sizeof FILES / sizeof *FILES; i++) { snprintf(p, 100, "%s%s", r, FILES[i].p); if(FILES[i].d) mem_put(&base, p, FILES[i].d, FILES[i].n); else mem_mkdir(&base, p); }
  RotateConfig cfg = { 32, 2 };
  switch(inst) {
    case I_JAIL: st = evfs_register_jail("v", "mem", "/jail", false); break;
    case I_ROT: st = evfs_register_rotate("v", "mem", &cfg, false); break;
    case I_JAILROT: evfs_register_rotate("rot", "mem", &cfg, false); st = evfs_register_jail("v", "rot", "/jail", false); break;
    case I_TRACE: st = evfs_register_trace("v", "mem", quiet, NULL, false); break;
    case I_TRJAIL: evfs_register_jail("j", "mem", "/jail", false); st = evfs_register_trace("v", "j", quiet, NULL, false); break;
    case I_TAR: case I_ROM: {
      Img *im = inst == I_TAR ? &tari : &romi; mem_put(&base, "/img", im->d, im->n);
      if(evfs_open_ex("/img", &img, EVFS_READ, "mem") != EVFS_OK) mc_fail("harness: no image");
      st = inst == I_TAR ? evfs_register_tar_fs("v", img, false) : evfs_register_romfs("v", img, false); break; }
    case I_TARR: st = evfs_register_tar_rsrc_fs("v", tari.d, (size_t)tari.n, false); break;
    case I_ROMR: st = evfs_register_rsrc_romfs("v", romi.d, (size_t)romi.n, false); break;
  }
  V = evfs_find_vfs("v");
  MC_CHECK(st == EVFS_OK && V, "registering the %s fails: %s", iname[inst], EN(st));
}
enum { READ, STATREL, READREL, CD, CDROOT, PWD, ABS, STATABS, MISSING, LIST, LISTREL, NREAD, APPEND = NREAD, RENAME, DEL, MKD, LOG, LOGREAD, LOGTRIM, OPENEX, LONGP };
static const char *oname[] = { "read own file", "stat 'g1'", "read 'g1'", "change directory", "change directory to /", "current directory", "absolute of 'x/../g1'", "stat own file", "stat missing", "list own directory", "list '.'", "append to own file", "rename own file", "delete own file", "make own directory", "append to own log", "read own log", "trim own log", "open by name", "stat of a name that is too long" };
#define RL 120
typedef struct { char *o; int n; } Out;
static void put(Out *o, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int k = vsnprintf(o->o + o->n, (size_t)(RL - o->n), fmt, ap); va_end(ap); o->n = o->n + k < RL ? o->n + k : RL - 1; }
static void slurp(Out *o, EvfsFile *f) {
  unsigned char b[80]; uint64_t h = MC_HASH0; int r; long total = 0;
  put(o, "size %d", (int)evfs_file_size(f));
  r = (int)evfs_file_read(f, b, 7); if(r > 0) h = mc_hash(h, b, (size_t)r); put(o, " %d@%d", r, (int)evfs_file_tell(f));
  put(o, " s%d", evfs_file_seek(f, 3, EVFS_SEEK_TO));
  while((r = (int)evfs_file_read(f, b, 30)) > 0 && total < 400) { total += r; h = mc_hash(h, b, (size_t)r); }
  put(o, " %ld,%d eof%d %08x", total, r, evfs_file_eof(f), (unsigned)(h ^ h >> 32));
}
static void read_path(Out *o, const char *p, int flags) {
  EvfsFile *f = NULL; int st = evfs_vfs_open(V, p, &f, flags); put(o, "%s ", EN(st));
  if(st != EVFS_OK) return;
  slurp(o, f); put(o, " c%d", evfs_file_close(f));
}
static void list(Out *o, const char *p) {
  EvfsDir *d = NULL; int st = evfs_vfs_open_dir(V, p, &d); put(o, "%s", EN(st)); if(st != EVFS_OK) return;
  EvfsInfo i; int n = 0; char nm[16][16], tmp[16];
  while((st = evfs_dir_read(d, &i)) == EVFS_OK && n < 16) snprintf(nm[n++], 16, "%.12s%s", i.name, i.type & EVFS_FILE_DIR ? "/" : "");
  for(int a = 0; a < n; a++) for(int b = a + 1; b < n; b++) if(strcmp(nm[b], nm[a]) < 0) { strcpy(tmp, nm[a]); strcpy(nm[a], nm[b]); strcpy(nm[b], tmp); }
  for(int a = 0; a < n; a++) put(o, " %s", nm[a]);
  put(o, " %d c%d", st, evfs_dir_close(d));
}
static void do_call(int t, int op, char *out) {
  Out o = { out, 0 }; out[0] = 0; EvfsFile *f = NULL; EvfsInfo i; int st; char b[EVFS_MAX_PATH]; StringRange r = { b, b + sizeof b };
  char own[40], lg[40], dir[40], other[40]; sprintf(dir, "/m%d", t); sprintf(own, "/m%d/f", t); sprintf(lg, "/m%d/log", t); sprintf(other, "/m%d/n", t);
  switch(op) {
    case READ: read_path(&o, own, EVFS_READ); break;
    case READREL: read_path(&o, "g1", EVFS_READ); break;
    case STATREL: case STATABS: case MISSING: st = V->m_stat(V, op == STATREL ? "g1" : op == STATABS ? own : other, &i); put(&o, "%s %d %d", EN(st), st == EVFS_OK ? (int)i.size : 0, st == EVFS_OK ? i.type : 0); break;
    case CD: put(&o, "%s", EN(V->m_set_cur_dir(V, t == 0 ? "/d" : "/long-directory-name"))); break;
    case CDROOT: put(&o, "%s", EN(V->m_set_cur_dir(V, "/"))); break;
    case PWD: st = V->m_get_cur_dir(V, &r); put(&o, "%s %s", EN(st), st == EVFS_OK ? b : ""); break;
    case ABS: st = evfs_vfs_path_absolute(V, "x/../g1", &r); put(&o, "%s %s", EN(st), st == EVFS_OK ? b : ""); break;
    case LIST: list(&o, dir); break;
    case LISTREL: list(&o, "."); break;
    case APPEND: st = evfs_vfs_open(V, own, &f, EVFS_RDWR | EVFS_APPEND); put(&o, "%s", EN(st)); if(st != EVFS_OK) break;
      put(&o, " %d", (int)evfs_file_write(f, t ? "xyz" : "123456", t ? 3 : 6)); put(&o, " %d ", evfs_file_sync(f)); slurp(&o, f); put(&o, " c%d", evfs_file_close(f)); break;
    case RENAME: put(&o, "%s", EN(V->m_rename(V, own, other))); break;
    case DEL: put(&o, "%s", EN(V->m_delete(V, own))); break;
    case MKD: put(&o, "%s", EN(V->m_make_dir(V, other))); break;
    case LOG: st = evfs_vfs_open(V, lg, &f, EVFS_RDWR | EVFS_APPEND); put(&o, "%s", EN(st)); if(st != EVFS_OK) break;
      { char w[50]; for(int k = 0; k < 50; k++) w[k] = (char)(t * 100 + k); put(&o, " %d", (int)evfs_file_write(f, w, 20)); put(&o, " %d ", (int)evfs_file_write(f, w + 20, 30)); }
      slurp(&o, f); put(&o, " c%d", evfs_file_close(f)); break;
    case LOGREAD: read_path(&o, lg, EVFS_READ); break;
    case LOGTRIM: st = evfs_vfs_open(V, lg, &f, EVFS_RDWR | EVFS_APPEND); put(&o, "%s", EN(st)); if(st != EVFS_OK) break;
      { evfs_off_t cut = 32; put(&o, " %d ", evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &cut)); } slurp(&o, f); put(&o, " c%d", evfs_file_close(f)); break;
    case LONGP: { char w[400]; memset(w, 'w', 399); w[399] = 0; if(t == 0) w[0] = '/'; put(&o, "%s", EN(V->m_stat(V, w, &i))); break; }
    case OPENEX: st = evfs_open_ex(own, &f, EVFS_READ, "v"); put(&o, "%s ", EN(st)); if(st == EVFS_OK) { slurp(&o, f); put(&o, " c%d", evfs_file_close(f)); } break;
  }
}
#define MAXC 3
static int prog[SCHED_MAX][MAXC], plen[SCHED_MAX], nthr, bound_, nsetup, setup[2]; static char res[SCHED_MAX][MAXC][RL];
static void final_state(char *o) {
  char b[EVFS_MAX_PATH] = "-"; StringRange r = { b, b + sizeof b };
  int st = V->m_get_cur_dir(V, &r);
  snprintf(o, 300, "tree %016lx directory %s %.120s, %d files and %d directories open", (unsigned long)mem_hash(&base), EN(st), st == EVFS_OK ? b : "", base.open_files, base.open_dirs);
}
static void outcome(char *o, size_t cap) {
  size_t n = 0; o[0] = 0;
  for(int t = 0; t < nthr; t++) for(int i = 0; i < plen[t]; i++) n += (size_t)snprintf(o + n, cap - n, "[%d %s: %s] ", t, oname[prog[t][i]], res[t][i]);
  final_state(o + n);
}
static void prepare(void) { fresh(); char x[RL]; for(int i = 0; i < nsetup; i++) do_call(i, setup[i], x); }
#define OUTL 1500
#define MAXO 100
static char seq[MAXO][OUTL], memo[200]; static int nseq;
static void sequential(int *order, int depth, int *pos, int total) {
  if(depth == total) {
    prepare(); int at[SCHED_MAX] = {0};
    for(int i = 0; i < total; i++) { int t = order[i]; do_call(t, prog[t][at[t]], res[t][at[t]]); at[t]++; }
    char o[OUTL]; outcome(o, OUTL - 310);
    for(int i = 0; i < nseq; i++) if(!strcmp(seq[i], o)) return;
    if(nseq < MAXO) strcpy(seq[nseq++], o);
    return;
  }
  for(int t = 0; t < nthr; t++) if(pos[t] < plen[t]) { order[depth] = t; pos[t]++; sequential(order, depth + 1, pos, total); pos[t]--; }
}
static void thread(int t) {
  for(int i = 0; i < plen[t]; i++) {
    do_call(t, prog[t][i], res[t][i]); mc_op("thread %d: %s -> %s", t, oname[prog[t][i]], res[t][i]);
    if(sched_locks_held_by_me()) sched_fail("'%s' returns with a lock held", oname[prog[t][i]]);
  }
}
static void explore(void) {
  char k[200]; int n = sprintf(k, "%d %d", inst, nsetup); for(int i = 0; i < nsetup; i++) n += sprintf(k + n, ".%d", setup[i]);
  for(int t = 0; t < nthr; t++) { k[n++] = '|'; for(int i = 0; i < plen[t]; i++) n += sprintf(k + n, ".%d", prog[t][i]); } k[n] = 0;
  if(strcmp(k, memo)) { strcpy(memo, k); nseq = 0; int order[16], pos[SCHED_MAX] = {0}, total = 0; for(int t = 0; t < nthr; t++) total += plen[t]; sequential(order, 0, pos, total); }
  prepare();
  mc_op("%s", iname[inst]); for(int i = 0; i < nsetup; i++) mc_op("before: %s", oname[setup[i]]);
  for(int t = 0; t < nthr; t++) for(int i = 0; i < plen[t]; i++) strcpy(res[t][i], "(not run)");
  sched_run(nthr, thread, bound_);
  MC_CHECK(!sched_locks_held(), "a lock stays held");
  char o[OUTL]; outcome(o, OUTL - 310);
  mc_state(mc_hash(MC_HASH0, o, strlen(o)));
  bool ok = false; for(int i = 0; i < nseq && !ok; i++) ok = !strcmp(seq[i], o);
  if(!ok) mc_fail("no sequential order of the calls gives these results: %s; one order gives %s", o, seq[0]);
  evfs_unregister_all();
  MC_CHECK(base.open_files == 0 && base.open_dirs == 0, "%d files and %d directories stay open", base.open_files, base.open_dirs);
  MC_CHECK(sched_blocks_live() == 0, "%d blocks of memory are lost", sched_blocks_live());
}
static int menu(int *m) {
  int n = 0;
  m[n++] = READ; m[n++] = STATABS;
  if(has_cwd()) { m[n++] = STATREL; m[n++] = READREL; m[n++] = CD; m[n++] = CDROOT; m[n++] = PWD; m[n++] = ABS; }
  if(has_dirs()) m[n++] = LIST;
  if(has_dirs() && has_cwd()) m[n++] = LISTREL;
  if(writable()) { m[n++] = APPEND; m[n++] = RENAME; m[n++] = DEL; m[n++] = MKD; }
  if(inst == I_ROT || inst == I_JAILROT) { m[n++] = LOG; m[n++] = LOGREAD; m[n++] = LOGTRIM; }
  m[n++] = MISSING; m[n++] = LONGP;
  return n;
}
static int lo, hi;
static void choose_setup(void) {
  nsetup = 0;
  int k = mc_choose(has_cwd() || inst == I_ROT ? 2 : 1);
  if(k == 1 && has_cwd()) { setup[0] = CD; nsetup = 1; }
  if(inst == I_ROT && k == 1) { setup[0] = LOG; setup[1] = LOG; nsetup = 2; }
}
static void s_pairs(void) { /* one call each, many preemptions */
  inst = mc_choose(NI); int m[32], n = menu(m); choose_setup(); nthr = 2; bound_ = mc_tier(3, 7); plen[0] = plen[1] = 1;
  prog[0][0] = m[mc_choose(n)]; prog[1][0] = m[mc_choose(n)];
  explore();
}
static void s_progs(void) { /* two calls each */
  inst = mc_choose(mc_tier(NI - 1, NI)); int m[32], n = menu(m); nsetup = 0; nthr = 2; bound_ = mc_tier(1, 3); plen[0] = plen[1] = 2;
  for(int t = 0; t < 2; t++) for(int i = 0; i < 2; i++) prog[t][i] = m[mc_choose(n)];
  explore();
}
static void s_three(void) {
  inst = mc_choose(mc_tier(NI - 1, NI)); int m[32], n = menu(m); nsetup = 0; nthr = 3; bound_ = mc_tier(1, 3);
  for(int t = 0; t < 3; t++) { plen[t] = 1; prog[t][0] = m[mc_choose(n)]; }
  explore();
}
static void s_named(void) { /* handles opened by name while the registry is used as well */
  inst = mc_choose(NI); nsetup = 0; nthr = 2; bound_ = mc_tier(2, 5); plen[0] = plen[1] = 1; prog[0][0] = OPENEX; int m[32], n = menu(m); m[n++] = OPENEX; prog[1][0] = m[mc_choose(n)];
  explore();
}
static void clean(void) { sched_drop_locks(); evfs_unregister_all(); sched_reset(); }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P26");
  mc_set_cleanup(clean); images(); (void)lo; (void)hi;
  mc_note("%d kinds of instances over an in-memory file system; menus of up to 17 calls on files, logs and directories of the thread's own and on the shared current directory; 2 threads of 1 and 2 calls, 3 threads of 1 call, up to %d/%d/%d preemptions at lock acquisitions; all byte accesses of the library, paths and buffers given to the base and uses of underlying handles checked with vector clocks", NI, mc_tier(3, 7), mc_tier(1, 3), mc_tier(1, 3));
  mc_note("Oracle: results and final tree of the same calls made one after another in every order");
  mc_explore_depth("pairs", s_pairs, 4);
  mc_explore_depth("named", s_named, 3);
  mc_explore_depth("three", s_three, 4);
  mc_explore_depth("programs", s_progs, 5);
  return mc_main_finish();
}
