/* P20: stacks of shims with tracing layers against the same stack without them. */
#include <ctype.h>
#include "common.h"
#include "images.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_rotate.h"

static Mem A, B;                   /* A below the traced stack, B below its twin */
static char word[8];               /* top layer first */
static const char *ta, *tb;        /* names of the two top layers */
/* ---- reports ---- */
enum { CAP = 1 << 16 };
typedef struct { char b[CAP]; int n, calls; bool lost; } Rep;
static Rep rep[3];
static int rep_ret;
static int report(const char *s, void *ctx) {
  Rep *r = ctx;
  r->calls++;
  for(; *s; s++) { /* colours are not part of the text */
    if(*s == 27 && s[1] == '[') { for(s += 2; *s && !isalpha((unsigned char)*s); s++); if(!*s) break; continue; }
    if(r->n < CAP - 1) r->b[r->n++] = *s;
  }
  r->b[r->n] = 0;
  return rep_ret;
}
static long kc[MF_NOPS];           /* calls of the base when the reports were last cleared */
static void rep_clear(void) { memcpy(kc, A.kind_count, sizeof kc); for(int i = 0; i < 3; i++) { rep[i].n = 0; rep[i].b[0] = 0; rep[i].calls = 0; } }
static int count(const char *h, const char *n) { int k = 0; size_t l = strlen(n); while((h = strstr(h, n))) { k++; h += l; } return k; }
static bool token(const char *line, const char *end, const char *t) { /* t as a whole word in the line */
  size_t l = strlen(t);
  for(const char *p = line; p + l <= end; p++)
    if(!strncmp(p, t, l) && (p == line || !(isalnum((unsigned char)p[-1]) || p[-1] == '-')) && !isalnum((unsigned char)p[l])) return true;
  return false;
}
/* the topmost tracing layer at the top of the stack reports method m with this operand and result */
static void said(const char *m, const char *operand, const char *extra, const char *result) {
  if(word[0] != 'T') return;
  Rep *r = &rep[0];
  char key[80]; snprintf(key, sizeof key, "%s.m_%s(", ta, m);
  const char *p = NULL, *q = r->b; while((q = strstr(q, key))) { p = q; q++; }
  MC_CHECK(p, "%s is not reported", m);
  const char *nx = strstr(p + strlen(key), "[[ "); if(!nx) nx = r->b + r->n;
  const char *res = strstr(p, "->"), *arg_end = res && res < nx ? res : nx;
  MC_CHECK(res && res < nx, "the result of %s is not reported", m);
  if(operand) { char o[40]; snprintf(o, 32, "%s", operand); bool f = false; for(const char *s = p; s + strlen(o) <= arg_end && !f; s++) f = !strncmp(s, o, strlen(o)); MC_CHECK(f, "the report of %s does not name '%s': %.*s", m, o, (int)(arg_end - p), p); }
  if(extra) MC_CHECK(token(p, arg_end, extra), "the report of %s does not show %s: %.*s", m, extra, (int)(arg_end - p), p);
  if(result) MC_CHECK(token(res, nx, result), "the report of %s does not show its result %s: %.*s", m, result, (int)(nx - p), p);
}
static const char *num(long v) { static char b[4][24]; static int i; i = (i + 1) & 3; snprintf(b[i], 24, "%ld", v); return b[i]; }
static const char *resn(long v) { return v < 0 ? EN((int)v) : num(v); }
static const char *base_of(const char *p) { const char *r = p; for(; *p; p++) if(*p == '/' || *p == '\\') r = p + 1; return r; }

static void tree(Mem *m, const char *name, bool dos, int depth) {
  mem_init(m, name); m->dos = dos; m->dots = dos; m->op_limit = 200000;
  char pre[64]; snprintf(pre, sizeof pre, "%s", dos ? "C:" : "");
  for(int i = 0; i <= depth; i++) {
    char t[128];
#define D(p) snprintf(t, sizeof t, "%s%s", pre, p), mem_mkdir(m, t)
#define F(p, c) snprintf(t, sizeof t, "%s%s", pre, p), mem_put(m, t, c, (int)strlen(c))
    D("/d"); D("/d/e"); F("/f", "file text"); F("/d/g", "gg");
    if(i < depth) { D("/j"); strcat(pre, "/j"); }
  }
}
/* one stack; without: leave tracing layers out */
static const char *stack(const char *base, const char *pre, bool without) {
  const char *under = base; static char nm[2][3][16]; bool dos = A.dos, first = true;
  for(int i = (int)strlen(word) - 1; i >= 0; i--) {
    char c = word[i]; if(without && c == 'T') continue;
    char *n = nm[without][i]; snprintf(n, 16, "%s%d", pre, i);
    int st; RotateConfig cfg = { 32, 3 };
    if(c == 'T') st = evfs_register_trace(n, under, report, &rep[i], false);
    else if(c == 'J') st = evfs_register_jail(n, under, first && dos ? "C:/j" : "/j", false);
    else st = evfs_register_rotate(n, under, &cfg, false);
    if(c == 'J') first = false;
    MC_CHECK(st == EVFS_OK, "registering layer %d of %s%s fails: %s", i, word, without ? " without tracing" : "", EN(st));
    under = n;
  }
  return under;
}
static void pick_word(int maxlen) {
  int n = 1 + mc_choose(maxlen); bool t = false;
  for(int i = 0; i < n; i++) { word[i] = "TJR"[mc_choose(3)]; t |= word[i] == 'T'; }
  word[n] = 0;
  if(!t) mc_prune();
}
static EvfsFile *fa, *fb; static EvfsDir *da, *db;
static char fname[300], dname[300];
static void same(long a, long b, const char *what) { MC_CHECK(a == b, "%s returns %s through %s and %s without tracing", what, resn(a), word, resn(b)); }
static const char *LONG = "a-name-that-is-longer-than-the-32-characters-kept-for-reports";
static void one_op(void) {
  char what[200] = ""; const char *p, *q;
  static const char *pp[] = { "f", "/d/g", "d/e/../new", "nodir/x", "log" };
  int op = mc_choose(24);
  rep_clear();
  switch(op) {
    case 0: case 1: case 2: case 3: {
      static const int fl[] = { EVFS_READ, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_RDWR | EVFS_OVERWRITE, EVFS_WRITE | EVFS_NO_EXIST };
      if(fa) mc_prune();
      p = op == 3 ? LONG : pp[mc_choose(5)];
      int s = evfs_open_ex(p, &fa, fl[op], ta), t = evfs_open_ex(p, &fb, fl[op], tb);
      snprintf(what, sizeof what, "open '%s' flags %x", p, fl[op]); mc_op("%s -> %s", what, EN(s));
      same(s, t, what); said("open", base_of(p), NULL, EN(s));
      MC_CHECK(!!fa == (s == EVFS_OK) && !!fb == !!fa, "%s: handle and status disagree", what); snprintf(fname, sizeof fname, "%s", base_of(p)); break; }
    case 4: case 5: case 6: case 7: case 8: case 9: {
      if(!fa) mc_prune();
      char b1[128], b2[128]; memset(b1, 1, 128); memset(b2, 1, 128); int x = 10, y = 10; evfs_off_t tr = 32, tr2 = 32;
      int k = (op - 4) * 2 + mc_choose(2);
      switch(k) {
        case 0: { int n = (int)evfs_file_read(fa, b1, 3); mc_op("read 3 -> %s", resn(n)); same(n, (int)evfs_file_read(fb, b2, 3), "read"); MC_CHECK(!memcmp(b1, b2, 128), "different data is read"); said("read", fname, "3", resn(n)); break; }
        case 1: { int n = (int)evfs_file_read(fa, b1, 120); mc_op("read 120 -> %s", resn(n)); same(n, (int)evfs_file_read(fb, b2, 120), "read"); MC_CHECK(!memcmp(b1, b2, 128), "different data is read"); said("read", fname, "120", resn(n)); break; }
        case 2: { int n = (int)evfs_file_write(fa, "WX", 2); mc_op("write 2 -> %s", resn(n)); same(n, (int)evfs_file_write(fb, "WX", 2), "write"); said("write", fname, "2", resn(n)); break; }
        case 3: { memset(b1, 'l', 120); int n = (int)evfs_file_write(fa, b1, 120); mc_op("write 120 -> %s", resn(n)); same(n, (int)evfs_file_write(fb, b1, 120), "write"); said("write", fname, "120", resn(n)); break; }
        case 4: { int s = evfs_file_seek(fa, 2, EVFS_SEEK_TO); mc_op("seek 2 -> %s", EN(s)); same(s, evfs_file_seek(fb, 2, EVFS_SEEK_TO), "seek"); said("seek", fname, "2", EN(s)); said("seek", fname, "EVFS_SEEK_TO", NULL); break; }
        case 5: { int rel = mc_choose(2), o = mc_choose(2) ? -1 : 1; int s = evfs_file_seek(fa, o, rel ? EVFS_SEEK_REL : EVFS_SEEK_REV); mc_op("seek %d -> %s", o, EN(s)); same(s, evfs_file_seek(fb, o, rel ? EVFS_SEEK_REL : EVFS_SEEK_REV), "seek"); said("seek", fname, num(o), EN(s)); said("seek", fname, rel ? "EVFS_SEEK_REL" : "EVFS_SEEK_REV", NULL); break; }
        case 6: { int s = evfs_file_truncate(fa, 4); mc_op("truncate 4 -> %s", EN(s)); same(s, evfs_file_truncate(fb, 4), "truncate"); said("truncate", fname, "4", EN(s)); break; }
        case 7: { int o = -1; int s = evfs_file_truncate(fa, o); mc_op("truncate -1 -> %s", EN(s)); same(s, evfs_file_truncate(fb, o), "truncate"); said("truncate", fname, "-1", EN(s)); break; }
        case 8: { int s = evfs_file_sync(fa); mc_op("sync -> %s", EN(s)); same(s, evfs_file_sync(fb), "sync"); said("sync", fname, NULL, EN(s)); break; }
        case 9: { int c = MEM_USER_CMDS[mc_choose(mc_tier(2, 8))], s = evfs_file_ctrl(fa, c, &x); mc_op("file_ctrl -> %s", EN(s)); same(s, evfs_file_ctrl(fb, c, &y), "file_ctrl"); same(x, y, "file_ctrl argument"); said("ctrl", fname, num(c), EN(s)); break; }
        case 10: { int s = evfs_file_ctrl(fa, EVFS_CMD_SET_ROTATE_TRIM, &tr); mc_op("trim -> %s", EN(s)); same(s, evfs_file_ctrl(fb, EVFS_CMD_SET_ROTATE_TRIM, &tr2), "trim"); same(tr, tr2, "trim argument"); said("ctrl", fname, "EVFS_CMD_SET_ROTATE_TRIM", EN(s)); break; }
        case 11: { int s = evfs_file_close(fa); mc_op("close -> %s", EN(s)); same(s, evfs_file_close(fb), "close"); fa = fb = NULL; said("close", fname, NULL, EN(s)); break; }
      }
      break; }
    case 10: { p = pp[mc_choose(5)]; EvfsInfo a, b; memset(&a, 7, sizeof a); memset(&b, 7, sizeof b); int s = evfs_stat_ex(p, &a, ta); mc_op("stat '%s' -> %s", p, EN(s));
      same(s, evfs_stat_ex(p, &b, tb), "stat"); if(s == EVFS_OK) MC_CHECK(a.size == b.size && a.type == b.type && a.mtime == b.mtime, "stat of '%s' differs", p); said("stat", p, NULL, EN(s)); break; }
    case 11: { p = pp[mc_choose(5)]; int s = evfs_delete_ex(p, ta); mc_op("delete '%s' -> %s", p, EN(s)); same(s, evfs_delete_ex(p, tb), "delete"); said("delete", p, NULL, EN(s)); break; }
    case 12: { p = pp[mc_choose(5)]; q = (const char *[]){ "moved", "/d/g" }[mc_choose(2)]; int s = evfs_rename_ex(p, q, ta); mc_op("rename '%s' '%s' -> %s", p, q, EN(s)); same(s, evfs_rename_ex(p, q, tb), "rename"); said("rename", p, NULL, EN(s)); said("rename", q, NULL, NULL); break; }
    case 13: { p = (const char *[]){ "newdir", "d", LONG }[mc_choose(3)]; int s = evfs_make_dir_ex(p, ta); mc_op("make_dir '%s' -> %s", p, EN(s)); same(s, evfs_make_dir_ex(p, tb), "make_dir"); said("make_dir", p, NULL, EN(s)); break; }
    case 14: { if(da) mc_prune(); p = (const char *[]){ "/", "d", "f", "nodir" }[mc_choose(4)]; int s = evfs_open_dir_ex(p, &da, ta); mc_op("open_dir '%s' -> %s", p, EN(s)); same(s, evfs_open_dir_ex(p, &db, tb), "open_dir");
      MC_CHECK(!!da == (s == EVFS_OK) && !!db == !!da, "open_dir: handle and status disagree"); snprintf(dname, sizeof dname, "%s", p); said("open_dir", p, NULL, EN(s)); break; }
    case 15: case 16: { if(!da) mc_prune(); EvfsInfo a, b; int s, reps = op == 16 ? 8 : 1;
      while(reps--) { rep_clear(); s = evfs_dir_read(da, &a); same(s, evfs_dir_read(db, &b), "dir_read"); mc_op("dir_read -> %s %s", EN(s), s == EVFS_OK ? a.name : ""); said("dir_read", dname, NULL, EN(s));
        if(s == EVFS_OK) MC_CHECK(!strcmp(a.name, b.name) && a.size == b.size && a.type == b.type && a.mtime == b.mtime, "a directory entry differs"); } break; }
    case 17: { if(!da) mc_prune(); if(mc_choose(2)) { int s = evfs_dir_rewind(da); mc_op("dir_rewind -> %s", EN(s)); same(s, evfs_dir_rewind(db), "dir_rewind"); said("dir_rewind", dname, NULL, EN(s)); }
      else { int s = evfs_dir_close(da); mc_op("dir_close -> %s", EN(s)); same(s, evfs_dir_close(db), "dir_close"); da = db = NULL; said("dir_close", dname, NULL, EN(s)); } break; }
    case 18: { p = (const char *[]){ "d", "..", "/d/e", "f", "nodir" }[mc_choose(5)]; int s = evfs_set_cur_dir_ex(p, ta); mc_op("set_cur_dir '%s' -> %s", p, EN(s)); same(s, evfs_set_cur_dir_ex(p, tb), "set_cur_dir"); said("set_cur_dir", p, NULL, EN(s)); break; }
    case 19: { unsigned a = 0, b = 0; int k = mc_choose(11), c = k < 3 ? (int[]){ EVFS_CMD_GET_STAT_FIELDS, EVFS_CMD_GET_DIR_FIELDS, EVFS_CMD_GET_RSRC_ADDR }[k] : MEM_USER_CMDS[k - 3]; int s = evfs_vfs_ctrl_ex(c, &a, ta); mc_op("vfs_ctrl %d -> %s", c, EN(s)); same(s, evfs_vfs_ctrl_ex(c, &b, tb), "vfs_ctrl"); same((long)a, (long)b, "vfs_ctrl argument");
      said("vfs_ctrl", k >= 3 ? num(c) : evfs_cmd_name(c), NULL, EN(s)); break; }
    case 20: { unsigned a = 1 - (unsigned)mc_choose(2), b = a; int c = mc_choose(2) ? EVFS_CMD_SET_READONLY : EVFS_CMD_SET_NO_DIR_DOTS; int s = evfs_vfs_ctrl_ex(c, &a, ta); mc_op("vfs_ctrl %s %u -> %s", evfs_cmd_name(c), a, EN(s)); same(s, evfs_vfs_ctrl_ex(c, &b, tb), "vfs_ctrl"); said("vfs_ctrl", evfs_cmd_name(c), NULL, EN(s)); break; }
    case 21: { RotateConfig c1 = { 64, 2 }, c2 = c1; int s = evfs_vfs_ctrl_ex(EVFS_CMD_SET_ROTATE_CFG, &c1, ta); mc_op("set rotate cfg -> %s", EN(s)); same(s, evfs_vfs_ctrl_ex(EVFS_CMD_SET_ROTATE_CFG, &c2, tb), "vfs_ctrl"); said("vfs_ctrl", "EVFS_CMD_SET_ROTATE_CFG", NULL, EN(s)); break; }
    case 22: { p = (const char *[]){ "f", "../d/./e", "C:\\x", "" }[mc_choose(4)]; char b1[EVFS_MAX_PATH] = "", b2[EVFS_MAX_PATH] = ""; StringRange r1 = RANGE_FROM_ARRAY(b1), r2 = RANGE_FROM_ARRAY(b2);
      int s = evfs_path_absolute_ex(p, &r1, ta); mc_op("path_absolute '%s' -> %s '%s'", p, EN(s), b1); same(s, evfs_path_absolute_ex(p, &r2, tb), "path_absolute"); MC_CHECK(!strcmp(b1, b2), "path_absolute gives '%s' and '%s' without tracing", b1, b2); said("path_root_component", NULL, NULL, NULL); break; }
    case 23: { if(!fa) mc_prune(); MC_CHECK(evfs_file_sync(fa) == evfs_file_sync(fb), "sync"); rep_clear(); evfs_off_t s = evfs_file_size(fa), t = evfs_file_tell(fa); bool e = evfs_file_eof(fa); mc_op("size %d tell %d eof %d", (int)s, (int)t, e);
      same(s, evfs_file_size(fb), "size"); same(t, evfs_file_tell(fb), "tell"); same(e, evfs_file_eof(fb), "eof"); said("size", fname, NULL, NULL); said("tell", fname, NULL, NULL);
      if(s >= 0) said("size", fname, NULL, num(s)); if(t >= 0) said("tell", fname, NULL, num(t)); said("eof", fname, NULL, e ? "T" : "f"); break; }
  }
}
/* reports of the lowest layer are exactly the calls of the base */
static const struct { int op; const char *m; } mth[] = { {MF_OPEN, ".m_open("}, {MF_STAT, ".m_stat("}, {MF_DELETE, ".m_delete("}, {MF_RENAME, ".m_rename("}, {MF_MKDIR, ".m_make_dir("}, {MF_OPENDIR, ".m_open_dir("},
  {MF_GETCWD, ".m_get_cur_dir("}, {MF_SETCWD, ".m_set_cur_dir("}, {MF_CTRL, ".m_vfs_ctrl("}, {MF_ROOT, ".m_path_root_component("}, {MF_READ, ".m_read("}, {MF_WRITE, ".m_write("}, {MF_TRUNC, ".m_truncate("}, {MF_SYNC, ".m_sync("}, {MF_SIZE, ".m_size("},
  {MF_SEEK, ".m_seek("}, {MF_TELL, ".m_tell("}, {MF_EOF, ".m_eof("}, {MF_FCTRL, ".m_ctrl("}, {MF_CLOSE, ".m_close("}, {MF_DREAD, ".m_dir_read("}, {MF_DREWIND, ".m_dir_rewind("}, {MF_DCLOSE, ".m_dir_close("} };
static void check_step(void) {
  int n = (int)strlen(word);
  char why[200]; MC_CHECK(mem_same(&A, &B, why, sizeof why), "the effect through %s differs: %s", word, why);
  MC_CHECK(!strcmp(A.cwd, B.cwd), "the current directory of the base differs");
  MC_CHECK(A.open_files == B.open_files && A.open_dirs == B.open_dirs, "the open handles of the base differ");
  MC_CHECK(A.log_hash == B.log_hash && A.log_len == B.log_len, "%s does not make the same calls on its base:\n%s-- without tracing:\n%s", word, A.log, B.log);
  if(word[n - 1] == 'T') for(unsigned i = 0; i < sizeof mth / sizeof *mth; i++)
    MC_CHECK(count(rep[n - 1].b, mth[i].m) == A.kind_count[mth[i].op] - kc[mth[i].op], "%d reports of %s...) for %d calls", count(rep[n - 1].b, mth[i].m), mth[i].m + 1, (int)(A.kind_count[mth[i].op] - kc[mth[i].op]));
  for(int i = 0; i < n; i++) MC_CHECK(count(rep[i].b, "[[ ") == count(rep[i].b, "->"), "calls and results do not pair up in the report");
}
static void clean(void) { std_cleanup(); mem_clear_fault(&A); mem_clear_fault(&B); }
static void run(int depth, int faults, int maxlen) {
  pick_word(maxlen);
  bool dos = mc_choose(mc_thorough() ? 2 : 1) == 1;
  int fault = faults ? 1 + mc_choose(faults) : 0, kind = faults ? mc_choose(3) : 0;
  int jd = 0; for(char *s = word; *s; s++) jd += *s == 'J';
  rep_ret = fault & 1 ? EVFS_ERR : 0;
  tree(&A, "base", dos, jd); tree(&B, "twin", dos, jd);
  MC_CHECK(evfs_register(&A.vfs, true) == EVFS_OK && evfs_register(&B.vfs, false) == EVFS_OK, "harness: register");
  mc_alloc_reset(); mc_alloc_track(true); int live0 = mc_alloc_live();
  rep_clear(); fa = fb = NULL; da = db = NULL;
  ta = stack("base", "traced", false); int liveA = mc_alloc_live(); tb = stack("twin", "bare", true); int liveB = mc_alloc_live() - liveA; (void)liveB;
  mc_op("stack %s%s", word, dos ? " on a drive-letter base" : "");
  mem_log(&A, true); mem_log(&B, true);
  if(fault) {
    unsigned m = MF_FAILABLE | MF_BIT(MF_CLOSE) | MF_BIT(MF_DCLOSE);
    mem_fault(&A, m, fault, kind == 0 ? EVFS_ERR_IO : EVFS_ERR_NO_PATH, kind == 2); mem_fault(&B, m, fault, kind == 0 ? EVFS_ERR_IO : EVFS_ERR_NO_PATH, kind == 2);
    mc_op("%s base operation %d fails%s", kind ? "NO_PATH:" : "IO:", fault, kind == 2 ? " and all later" : "");
  }
  for(int i = 0; i < depth; i++) {
    one_op();
    check_step();
    mc_state(mc_hash(mem_hash(&A), A.cwd, strlen(A.cwd)) + (uint64_t)A.ops);
  }
  if(fault && !A.fired) mc_prune();
  mem_clear_fault(&A); mem_clear_fault(&B);
  if(fa) same(evfs_file_close(fa), evfs_file_close(fb), "close"); if(da) same(evfs_dir_close(da), evfs_dir_close(db), "dir_close");
  MC_CHECK(!A.open_files && !A.open_dirs, "closing everything leaves handles of the base open");
  if(depth == 1 && mc_choose(2)) { evfs_unregister_all(); MC_CHECK(mc_alloc_live() == live0, "unregistering everything leaves %d blocks allocated", mc_alloc_live() - live0); return; }
  for(int w = 0; w < 2; w++) for(int i = 0; word[i]; i++) {
    if(w && word[i] == 'T') continue;
    char nm[16]; snprintf(nm, sizeof nm, "%s%d", w ? "bare" : "traced", i);
    Evfs *v = evfs_find_vfs(nm); MC_CHECK(v && evfs_unregister(v) == EVFS_OK, "unregistering layer %s fails", nm);
    MC_CHECK(!evfs_find_vfs(nm), "layer %s is still registered", nm);
    MC_CHECK(evfs_find_vfs("base") && evfs_find_vfs("twin"), "unregistering a layer removes another file system");
    if(!word[i + 1] && !w) MC_CHECK(mc_alloc_live() == live0 + liveB, "unregistering the traced stack leaves %d blocks allocated", mc_alloc_live() - live0 - liveB);
  }
  MC_CHECK(mc_alloc_live() == live0, "unregistering leaves %d blocks allocated", mc_alloc_live() - live0);
  MC_CHECK(!A.unregistered && !B.unregistered, "unregistering a layer reaches its base");
}
static void s_ops(void) { run(mc_tier(2, 3), 0, 3); }
static void s_deep(void) { run(3, 0, mc_tier(1, 2)); }
static void s_fault(void) { run(mc_tier(2, 3), mc_tier(8, 10), mc_tier(2, 2)); }
static void s_fault1(void) { run(1, 40, 3); }
/* what read-only back ends offer stays reachable: resource addresses, data, listings */
static void s_rsrc(void) {
  static Img im; static Fence fim; int kind = mc_choose(4); pick_word(3);
  int jd = 0; for(char *s = word; *s; s++) jd += *s == 'J';
  mem_init(&A, "base"); evfs_register(&A.vfs, true); A.op_limit = 0;
  const char *pre = jd == 0 ? "" : jd == 1 ? "j/" : jd == 2 ? "j/j/" : "j/j/j/"; char n[64];
  if(kind < 2) { tar_start(&im); for(int i = 1; i <= jd; i++) { snprintf(n, 64, "%.*s", 2 * i, pre); tar_add(&im, n, 0, '5', NULL, 0, 1); } snprintf(n, 64, "%sd/", pre); tar_add(&im, n, 0, '5', NULL, 0, 1); snprintf(n, 64, "%sf", pre); tar_add(&im, n, 0, '0', "contents", 8, 1); snprintf(n, 64, "%sd/g", pre); tar_add(&im, n, 0, '0', "gg", 2, 1); tar_end(&im, 2); }
  else {
    RomNode nd[12] = {{.name = ".", .type = RN_DIR, .parent = -1}}; int c = 1, r = 0;
    for(int i = 0; i < jd; i++) { nd[c] = (RomNode){.name = "j", .type = RN_DIR, .parent = r}; r = c++; }
    nd[c++] = (RomNode){.name = "f", .type = RN_FILE, .parent = r, .data = "contents", .size = 8};
    nd[c] = (RomNode){.name = "d", .type = RN_DIR, .parent = r}; r = c++;
    nd[c++] = (RomNode){.name = "g", .type = RN_FILE, .parent = r, .data = "gg", .size = 2};
    rom_build(&im, nd, c, "v");
  }
  uint8_t *img = (uint8_t *)fence_put(&fim, im.d, (size_t)im.n); EvfsFile *f; int st;
  mem_put(&A, "/img", im.d, im.n);
  if(kind == 0 || kind == 2) { MC_CHECK(evfs_open_ex("/img", &f, EVFS_READ, "base") == EVFS_OK, "image"); st = kind ? evfs_register_romfs("ro", f, false) : evfs_register_tar_fs("ro", f, false); }
  else st = kind == 1 ? evfs_register_tar_rsrc_fs("ro", img, (size_t)im.n, false) : evfs_register_rsrc_romfs("ro", img, (size_t)im.n, false);
  MC_CHECK(st == EVFS_OK, "mounting fails");
  mc_alloc_track(true); int live0 = mc_alloc_live(); rep_clear();
  ta = stack("ro", "traced", false); tb = stack("ro", "bare", true);
  mc_op("stack %s on %s", word, kind == 0 ? "tar" : kind == 1 ? "tar in memory" : kind == 2 ? "romfs" : "romfs in memory");
  static const char *pp[] = { "f", "/d/g", "d", "none" };
  for(int i = 0; i < 4; i++) {
    EvfsInfo a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    int s = evfs_stat_ex(pp[i], &a, ta); same(s, evfs_stat_ex(pp[i], &b, tb), "stat"); MC_CHECK(a.size == b.size && a.type == b.type, "stat differs");
    MC_CHECK((s == EVFS_OK) == (i < 3), "stat of '%s' returns %s through %s", pp[i], EN(s), word);
    fa = fb = NULL; s = evfs_open_ex(pp[i], &fa, EVFS_READ, ta); same(s, evfs_open_ex(pp[i], &fb, EVFS_READ, tb), "open"); MC_CHECK((s == EVFS_OK) == (i < 2), "opening '%s' returns %s through %s", pp[i], EN(s), word);
    if(fa) {
      uint8_t *x = NULL, *y = NULL; s = evfs_file_ctrl(fa, EVFS_CMD_GET_RSRC_ADDR, &x); same(s, evfs_file_ctrl(fb, EVFS_CMD_GET_RSRC_ADDR, &y), "resource address"); MC_CHECK(x == y, "the resource address differs through %s", word);
      if(kind & 1) MC_CHECK(s == EVFS_OK && !memcmp(x, i ? "gg" : "contents", i ? 2 : 8), "the resource address of '%s' is not available through %s", pp[i], word);
      char c[20]; int k = (int)evfs_file_read(fa, c, 20); MC_CHECK(k == (i ? 2 : 8) && !memcmp(c, i ? "gg" : "contents", (size_t)k), "reading '%s' through %s", pp[i], word);
      MC_CHECK(evfs_file_close(fa) == EVFS_OK && evfs_file_close(fb) == EVFS_OK, "close"); fa = fb = NULL;
    }
  }
  EvfsDir *d = NULL, *e = NULL; st = evfs_open_dir_ex("/", &d, ta); same(st, evfs_open_dir_ex("/", &e, tb), "open_dir"); MC_CHECK(kind < 2 || st == EVFS_OK, "listing fails through %s", word);
  if(d) { EvfsInfo x, y; int k = 0, s; do { s = evfs_dir_read(d, &x); same(s, evfs_dir_read(e, &y), "dir_read"); if(s == EVFS_OK) { MC_CHECK(!strcmp(x.name, y.name) && x.type == y.type && x.size == y.size, "an entry differs"); k++; } } while(s == EVFS_OK && k < 9);
    MC_CHECK(k >= 2 && k <= 4, "the listing through %s has %d entries", word, k); evfs_dir_close(d); evfs_dir_close(e); }
  for(int w = 0; w < 2; w++) for(int i = 0; word[i]; i++) { if(w && word[i] == 'T') continue; char nm[16]; snprintf(nm, sizeof nm, "%s%d", w ? "bare" : "traced", i); MC_CHECK(evfs_unregister(evfs_find_vfs(nm)) == EVFS_OK, "unregister"); }
  MC_CHECK(mc_alloc_live() == live0, "unregistering leaves %d blocks allocated", mc_alloc_live() - live0);
  MC_CHECK(evfs_find_vfs("ro") && evfs_unregister(evfs_find_vfs("ro")) == EVFS_OK, "unregistering the file system below");
  MC_CHECK(!A.open_files, "the image stays open");
}
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P20");
  mc_set_cleanup(clean);
  evfs_init();
  mc_note("Every stack of up to 3 layers of tracing, jail and rotating log containing a tracing layer (25 stacks) x all sequences of %d operations, one layer with 3; with the n-th base operation failing (once with either of two codes, or from then on), n up to %d; the twin is the same stack without the tracing layers on an identical base", mc_tier(2, 3), mc_tier(8, 10));
  mc_note("Compared: every result, data, handle, the whole tree and the log of base calls with their arguments. Reports: a tracing layer on the base reports exactly the calls the base receives; a tracing layer on top reports operation, operand and result of each call. The text's layout and colours are not specified");
  mc_explore_depth("operations", s_ops, 4);
  mc_explore_depth("sequences", s_deep, 3);
  mc_explore_depth("faults", s_fault, 4);
  mc_explore_depth("single faults", s_fault1, 4);
  mc_explore("resources", s_rsrc);
  return mc_main_finish();
}
