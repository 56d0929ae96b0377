/* P32: missing arguments and incomplete back ends are refused, never crashed on, and change nothing. */
#include "memfs.h"
#include "images.h"
#include "evfs/stdio_fs.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_rotate.h"
#define EN evfs_err_name
static Mem A, B; static Img im;
static int rep_null(const char *s, void *c) { (void)s; (void)c; return 0; }
static void clean(void) {
  mc_alloc_track(false); mem_clear_fault(&A); mem_clear_fault(&B);
  evfs_unregister_all(); mem_free(&A); mem_free(&B); mc_alloc_reset();
}
static void fill(Mem *m) { mem_put(m, "/f", "hello", 5); mem_mkdir(m, "/d"); mem_put(m, "/d/x", "xy", 2); mem_put(m, "/d/y", "z", 1); mem_mkdir(m, "/d/e"); }

/* --- missing arguments --- */
/* A call with up to three pointers it can not do without; N(i, v) is v or null. */
static unsigned nulls;
#define N(i, v) ((nulls >> (i) & 1) ? NULL : (v))
enum { C_INT, C_BOOL, C_EOF };
typedef struct { const char *name; int ptrs, kind; } Call;
static const Call calls[] = {
  {"open", 2, C_INT}, {"stat", 2, C_INT}, {"existing_file", 1, C_BOOL}, {"existing_dir", 1, C_BOOL}, {"delete", 1, C_INT}, {"rename", 2, C_INT}, {"make_dir", 1, C_INT}, {"make_path", 1, C_INT},
  {"make_path_range", 1, C_INT}, {"open_dir", 2, C_INT}, {"get_cur_dir", 1, C_INT}, {"set_cur_dir", 1, C_INT}, {"copy_to_file", 2, C_INT}, {"path_root_component", 2, C_BOOL}, {"path_basename", 2, C_INT},
  {"path_dirname", 2, C_INT}, {"path_join", 3, C_INT}, {"path_join_str", 3, C_INT}, {"path_extname", 2, C_INT}, {"path_normalize", 2, C_INT}, {"path_absolute", 2, C_INT}, {"path_is_absolute", 1, C_BOOL},
  {"file_ctrl", 1, C_INT}, {"file_close", 1, C_INT}, {"file_read", 2, C_INT}, {"file_write", 2, C_INT}, {"file_truncate", 1, C_INT}, {"file_sync", 1, C_INT}, {"file_size", 1, C_INT}, {"file_seek", 1, C_INT},
  {"file_tell", 1, C_INT}, {"file_eof", 1, C_EOF}, {"dir_close", 1, C_INT}, {"dir_read", 2, C_INT}, {"dir_rewind", 1, C_INT}, {"dir_find", 3, C_INT}, {"register", 1, C_INT}, {"unregister", 1, C_INT},
  {"find_vfs", 1, C_BOOL}, {"register_jail", 3, C_INT}, {"register_trace", 3, C_INT}, {"register_rotate", 2, C_INT}, {"register_tar_fs", 2, C_INT}, {"register_rsrc_tar_fs", 2, C_INT},
  {"register_romfs", 2, C_INT}, {"register_rsrc_romfs", 2, C_INT}, {"vfs_path_dirname", 3, C_INT}, {"vfs_path_join", 3, C_INT}, {"vfs_path_normalize", 3, C_INT}, {"vfs_path_absolute", 3, C_INT} };
#define NC ((int)(sizeof calls / sizeof *calls))
static EvfsFile *fh, *nf; static EvfsDir *dh, *nd; static char obuf[64];
static long call(int c, const char *v) {
  EvfsInfo info; StringRange r, h, t; char buf[64]; RotateConfig cfg = {32, 3}; EvfsFile **pf = &nf; EvfsDir **pd = &nd;
  range_init(&r, obuf, sizeof obuf); range_init(&h, (char *)"/d/n", 5); range_init(&t, (char *)"q", 2);
  switch(c) {
    case 0: return evfs_open_ex(N(0, "/d/new"), N(1, pf), EVFS_RDWR | EVFS_OVERWRITE, v);
    case 1: return evfs_stat_ex(N(0, "/f"), N(1, &info), v);
    case 2: return evfs_existing_file_ex(N(0, "/f"), v);
    case 3: return evfs_existing_dir_ex(N(0, "/d"), v);
    case 4: return evfs_delete_ex(N(0, "/f"), v);
    case 5: return evfs_rename_ex(N(0, "/d/x"), N(1, "/d/w"), v);
    case 6: return evfs_make_dir_ex(N(0, "/d/n"), v);
    case 7: return evfs_make_path_ex(N(0, "/d/n/m"), v);
    case 8: return evfs_make_path_range_ex(N(0, &h), v);
    case 9: return evfs_open_dir_ex(N(0, "/d"), N(1, pd), v);
    case 10: return evfs_get_cur_dir_ex(N(0, &r), v);
    case 11: return evfs_set_cur_dir_ex(N(0, "/"), v);
    case 12: return evfs_copy_to_file_ex(N(0, "/d/copy"), N(1, fh), buf, sizeof buf, v);
    case 13: return evfs_path_root_component_ex(N(0, "/f"), N(1, &r), v);
    case 14: return evfs_path_basename(N(0, "/f"), N(1, &r));
    case 15: return evfs_path_dirname_ex(N(0, "/f"), N(1, &r), v);
    case 16: return evfs_path_join_ex(N(0, &h), N(1, &t), N(2, &r), v);
    case 17: return evfs_path_join_str_ex(N(0, "/a"), N(1, "b"), N(2, &r), v);
    case 18: return evfs_path_extname(N(0, "/f.c"), N(1, &r));
    case 19: return evfs_path_normalize_ex(N(0, "/a/../b"), N(1, &r), v);
    case 20: return evfs_path_absolute_ex(N(0, "a"), N(1, &r), v);
    case 21: return evfs_path_is_absolute_ex(N(0, "/a"), v);
    case 22: { evfs_off_t o = 2; return evfs_file_ctrl(N(0, fh), EVFS_CMD_SET_ROTATE_TRIM, &o); }
    case 23: return evfs_file_close(N(0, fh));
    case 24: return evfs_file_read(N(0, fh), N(1, buf), 4);
    case 25: return evfs_file_write(N(0, fh), N(1, "abcd"), 4);
    case 26: return evfs_file_truncate(N(0, fh), 1);
    case 27: return evfs_file_sync(N(0, fh));
    case 28: return evfs_file_size(N(0, fh));
    case 29: return evfs_file_seek(N(0, fh), 1, EVFS_SEEK_TO);
    case 30: return evfs_file_tell(N(0, fh));
    case 31: return evfs_file_eof(N(0, fh));
    case 32: return evfs_dir_close(N(0, dh));
    case 33: return evfs_dir_read(N(0, dh), N(1, &info));
    case 34: return evfs_dir_rewind(N(0, dh));
    case 35: return evfs_dir_find(N(0, dh), N(1, "*"), N(2, &info));
    case 36: return evfs_register(N(0, &B.vfs), true);
    case 37: return evfs_unregister(N(0, &A.vfs));
    case 38: return evfs_find_vfs(N(0, "mem")) != NULL;
    case 39: return evfs_register_jail(N(0, "new"), N(1, "mem"), N(2, "/d"), true);
    case 40: return evfs_register_trace(N(0, "new"), N(1, "mem"), N(2, rep_null), NULL, true);
    case 41: return evfs_register_rotate(N(0, "new"), N(1, "mem"), &cfg, true);
    case 42: return evfs_register_tar_fs(N(0, "new"), N(1, fh), true);
    case 43: return evfs_register_tar_rsrc_fs(N(0, "new"), N(1, im.d), (size_t)im.n, true);
    case 44: return evfs_register_romfs(N(0, "new"), N(1, fh), true);
    case 45: return evfs_register_rsrc_romfs(N(0, "new"), N(1, im.d), (size_t)im.n, true);
    case 46: return evfs_vfs_path_dirname(N(0, &A.vfs), N(1, "/f"), N(2, &r));
    case 47: return evfs_vfs_path_join(N(0, &A.vfs), N(1, &h), N(2, &t), &r);
    case 48: return evfs_vfs_path_normalize(N(0, &A.vfs), N(1, "/f"), N(2, &r));
    case 49: return evfs_vfs_path_absolute(N(0, &A.vfs), N(1, "f"), N(2, &r));
  }
  return 0;
}
static const char *stacks[] = { "mem", "jail", "trace", "rot", "tj", "rj", "jr" };   /* tj: trace on jail, rj: rotate on jail, jr: jail on rotate */
#define NST 7
#define JAILED(k) ((k) == 1 || (k) == 4 || (k) == 5 || (k) == 6)
#define ROTATED(k) ((k) == 3 || (k) == 5 || (k) == 6)
static void up(Mem *m, const char *base, const char *sfx) {
  char n[16]; RotateConfig cfg = {32, 3}; MC_CHECK(evfs_register(&m->vfs, !*sfx) == EVFS_OK, "harness: register");
  sprintf(n, "jail%s", sfx); MC_CHECK(evfs_register_jail(n, base, "/", false) == EVFS_OK, "a jail can not be put on '%s'", base);
  sprintf(n, "trace%s", sfx); MC_CHECK(evfs_register_trace(n, base, rep_null, NULL, false) == EVFS_OK, "a trace can not be put on '%s'", base);
  sprintf(n, "rot%s", sfx); MC_CHECK(evfs_register_rotate(n, base, &cfg, false) == EVFS_OK, "a rotating layer can not be put on '%s'", base);
  char o[16];
  sprintf(n, "tj%s", sfx); sprintf(o, "jail%s", sfx); MC_CHECK(evfs_register_trace(n, o, rep_null, NULL, false) == EVFS_OK, "a trace can not be put on '%s'", o);
  sprintf(n, "rj%s", sfx); MC_CHECK(evfs_register_rotate(n, o, &cfg, false) == EVFS_OK, "a rotating layer can not be put on '%s'", o);
  sprintf(n, "jr%s", sfx); sprintf(o, "rot%s", sfx); MC_CHECK(evfs_register_jail(n, o, "/", false) == EVFS_OK, "a jail can not be put on '%s'", o);
}
static void s_null(void) {
  mem_init(&A, "mem"); mem_init(&B, "other"); fill(&A); strcpy(A.cwd, "/d");
  int k = mc_choose(NST), c = mc_choose(NC); const char *v = k ? stacks[k] : mc_choose(2) ? NULL : "mem";
  nulls = 1 + (unsigned)mc_choose((1 << calls[c].ptrs) - 1);
  tar_start(&im); tar_add(&im, "x", 0, '0', (const unsigned char *)"x", 1, 1000); tar_end(&im, 2);
  up(&A, "mem", "");
  if(JAILED(k)) { int st = evfs_set_cur_dir_ex("/d", stacks[k]); MC_CHECK(st == EVFS_OK, "harness: %s", EN(st)); }
  mc_alloc_track(true);
  MC_CHECK(evfs_open_ex("/f", &fh, EVFS_RDWR, v) == EVFS_OK && evfs_open_dir_ex("/d", &dh, v) == EVFS_OK && evfs_file_seek(fh, 1, EVFS_SEEK_TO) == EVFS_OK, "harness: open");
  uint64_t h0 = mem_hash(&A); int of = A.open_files, od = A.open_dirs, live = mc_alloc_live(); char def[32]; strcpy(def, evfs_default_vfs_name());
  nf = (EvfsFile *)(void *)obuf; nd = (EvfsDir *)(void *)obuf;
  long r = call(c, v);
  mc_op("%s with null argument set %u on %s -> %ld", calls[c].name, nulls, v ? v : "the default", r);
  if(calls[c].kind == C_INT) MC_CHECK(r < 0, "%s without a needed argument (set %u) returns %ld", calls[c].name, nulls, r);
  else if(calls[c].kind == C_BOOL) MC_CHECK(!r, "%s without a needed argument returns true", calls[c].name);
  MC_CHECK(!nf || nf == (EvfsFile *)(void *)obuf, "a refused open leaves a handle"); MC_CHECK(!nd || nd == (EvfsDir *)(void *)obuf, "a refused open_dir leaves a handle");
  MC_CHECK(mem_hash(&A) == h0, "a refused %s changes the file system", calls[c].name);
  MC_CHECK(A.open_files == of && A.open_dirs == od && mc_alloc_live() == live, "a refused %s changes what is open or allocated", calls[c].name);
  MC_CHECK(!strcmp(A.cwd, "/d") && !A.unregistered, "a refused %s changes the current directory or the registry", calls[c].name);
  MC_CHECK(!evfs_find_vfs("new") && !evfs_find_vfs("other") && evfs_find_vfs("mem") == &A.vfs && !strcmp(def, evfs_default_vfs_name()), "a refused %s changes the registry", calls[c].name);
  char b[8]; EvfsInfo info; int n = 0;
  MC_CHECK(evfs_file_tell(fh) == 1 && evfs_file_read(fh, b, 8) == 4 && !memcmp(b, "ello", 4), "a refused %s disturbs the open file", calls[c].name);
  while(evfs_dir_read(dh, &info) == EVFS_OK) n++;
  MC_CHECK(n == (A.dots ? 5 : 3), "a refused %s disturbs the open directory", calls[c].name);
  MC_CHECK(evfs_file_close(fh) == EVFS_OK && evfs_dir_close(dh) == EVFS_OK && A.open_files == 0 && A.open_dirs == 0, "a refused %s disturbs closing", calls[c].name);
  mc_state(mc_hash(MC_HASH0 + (unsigned)(k * 100 + c), &nulls, sizeof nulls));
  clean();
}

/* --- back ends without some of the optional methods --- */
enum { DEL, REN, MKD, OPD, GCW, SCW, CTL, ROOT };
typedef struct { const char *name; unsigned need, jail_need, may; } Op;
#define BIT(x) (1u << (x))
static const Op ops[] = {
  {"open and read", 0, 0, 0}, {"write a new file", 0, 0, 0}, {"stat", 0, 0, 0}, {"existing_dir", 0, 0, 0},
  {"delete a file", BIT(DEL), BIT(DEL), 0}, {"rename", BIT(REN), BIT(REN), 0}, {"make_dir", BIT(MKD), BIT(MKD), 0}, {"make_path of two", BIT(MKD), BIT(MKD), 0}, {"make_path of one there", 0, 0, 0},
  {"list a directory", BIT(OPD), BIT(OPD), 0}, {"get_cur_dir", BIT(GCW), 0, 0}, {"set_cur_dir", BIT(SCW), 0, BIT(OPD) | BIT(SCW) | BIT(GCW)}, {"query the fields", BIT(CTL), BIT(CTL), 0},
  {"absolute path", BIT(GCW), 0, 0}, {"copy", 0, 0, 0}, {"root component", 0, 0, 0}, {"a rotating log", 0, 0, 0xff}, {"delete a rotating log", 0, 0, 0xff}, {"use a path", 0, 0, 0} };
#define NOPS ((int)(sizeof ops / sizeof *ops))
static char what[400];
static void say(const char *f, ...) { va_list a; va_start(a, f); size_t l = strlen(what); vsnprintf(what + l, sizeof what - l, f, a); va_end(a); }
static int do_op(int o, const char *v) {
  EvfsFile *f = NULL; EvfsDir *d = NULL; EvfsInfo info; char b[200]; StringRange r; int st = EVFS_OK; what[0] = 0;
  memset(b, 0, sizeof b); range_init(&r, b, sizeof b);
  switch(o) {
    case 0: st = evfs_open_ex("/f", &f, EVFS_READ, v); if(!st) { say("%d", (int)evfs_file_read(f, b, 9)); say("[%s] %d", b, evfs_file_close(f)); } break;
    case 1: st = evfs_open_ex("/d/new", &f, EVFS_WRITE | EVFS_OVERWRITE, v); if(!st) { say("%d", (int)evfs_file_write(f, "abc", 3)); say(" %d", evfs_file_close(f)); } break;
    case 2: memset(&info, 0, sizeof info); st = evfs_stat_ex("/f", &info, v); say("%d %d", info.type, (int)info.size); break;
    case 3: say("%d%d", evfs_existing_dir_ex("/d", v), evfs_existing_dir_ex("/f", v)); break;
    case 4: st = evfs_delete_ex("/d/x", v); break;
    case 5: st = evfs_rename_ex("/d/x", "/d/w", v); break;
    case 6: st = evfs_make_dir_ex("/d/n", v); break;
    case 7: st = evfs_make_path_ex("/d/n/m", v); break;
    case 8: st = evfs_make_path_ex("/d/e", v); break;
    case 9: st = evfs_open_dir_ex("/d", &d, v); if(!st) { int s; while((s = evfs_dir_read(d, &info)) == EVFS_OK) say("%s ", info.name); say("%d", s); say(" %d", evfs_dir_close(d)); } break;
    case 10: st = evfs_get_cur_dir_ex(&r, v); if(!st) say("%.*s", (int)range_strlen(&r), r.start); break;
    case 11: st = evfs_set_cur_dir_ex("/d", v); break;
    case 12: { unsigned x = 0; st = evfs_vfs_ctrl_ex(EVFS_CMD_GET_STAT_FIELDS, &x, v); say("%u", x); break; }
    case 13: st = evfs_path_absolute_ex("d/../f", &r, v); if(!st) say("%s", b); break;
    case 14: st = evfs_open_ex("/f", &f, EVFS_READ, v); if(!st) { st = evfs_copy_to_file_ex("/d/copy", f, NULL, 0, v); say("%d", evfs_file_close(f)); } break;
    case 15: say("%d", evfs_path_root_component_ex("//f", &r, v)); say(" %d", (int)range_strlen(&r)); break;
    case 16: st = evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, v); if(!st) { say("%d", (int)evfs_file_write(f, "0123456789abcdefghijklmnopqrstuvwxyzABCD", 40)); say(" %d", evfs_file_close(f)); } break;
    case 17: st = evfs_delete_ex("/old", v); break;
    case 18: st = evfs_path_normalize_ex("/d//x/../y", &r, v); say("%s", b); break;
  }
  return st;
}
static void s_methods(void) {
  int missing = mc_choose(256), k = mc_choose(NST), o = mc_choose(NOPS); char full[16];
  mem_init(&A, "mem"); mem_init(&B, "mem2"); fill(&A); fill(&B);
#define OUT(bit, m) if(missing >> bit & 1) A.vfs.m = NULL
  /* an existing rotating log in both */
  up(&B, "mem2", "2");
  { EvfsFile *f; MC_CHECK(evfs_open_ex("/old", &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, "rot2") == EVFS_OK && evfs_file_write(f, "0123456789012345678901234567890123456789", 40) == 40 && evfs_file_close(f) == EVFS_OK, "harness: log");
    for(int i = 0; i < B.nhigh; i++) if(B.n[i].used && !strncmp(B.n[i].path, "/old", 4)) { if(B.n[i].dir) mem_mkdir(&A, B.n[i].path); else mem_put(&A, B.n[i].path, B.n[i].data, B.n[i].size); } }
  char why[200]; if(!mem_same(&A, &B, why, sizeof why)) mc_fail("harness: %s", why);
  OUT(DEL, m_delete); OUT(REN, m_rename); OUT(MKD, m_make_dir); OUT(OPD, m_open_dir); OUT(GCW, m_get_cur_dir); OUT(SCW, m_set_cur_dir); OUT(CTL, m_vfs_ctrl); OUT(ROOT, m_path_root_component);
  up(&A, "mem", "");
  sprintf(full, "%s2", stacks[k]);
  uint64_t h0 = mem_hash(&A); char w2[400];
  mc_alloc_track(true);
  int st = do_op(o, stacks[k]); strcpy(w2, what);
  int live = mc_alloc_live(); mc_alloc_track(false);
  int want = do_op(o, full);
  unsigned need = JAILED(k) ? ops[o].jail_need : ops[o].need, may = need | ops[o].may;
  if(ROTATED(k) && (o == 1 || o == 14)) may = 0xff;                   /* makes a rotating log, which is a directory */
  mc_op("%s on %s without methods %02x -> %s %s", ops[o].name, stacks[k], (unsigned)missing, EN(st), w2);
  MC_CHECK(!live, "%s without methods %02x leaves %d allocations", ops[o].name, (unsigned)missing, live);
  MC_CHECK(!A.open_files && !A.open_dirs, "%s without methods %02x leaves handles open", ops[o].name, (unsigned)missing);
  bool same_res = st == want && !strcmp(w2, what), same_tree = mem_same(&A, &B, why, sizeof why);
  if(need & (unsigned)missing) {
    MC_CHECK(st == EVFS_ERR_NO_SUPPORT, "%s, which '%s' can not do, returns %s", ops[o].name, stacks[k], EN(st));
    MC_CHECK(mem_hash(&A) == h0 || o == 7, "%s, which is not supported, changes the file system", ops[o].name);
  } else if(may & (unsigned)missing) {
    if(o == 16 && ROTATED(k) && (missing & (BIT(MKD)))) MC_CHECK(st != EVFS_OK, "a rotating log is made without make_dir");
    if(st == EVFS_OK) MC_CHECK(same_res && same_tree, "%s without methods %02x claims to succeed but does not do what it does with all methods: %s", ops[o].name, (unsigned)missing, why);
  } else {
    MC_CHECK(same_res, "%s does not need methods %02x but gives %s %s instead of %s %s", ops[o].name, (unsigned)missing, EN(st), w2, EN(want), what);
    MC_CHECK(same_tree, "%s without methods %02x has another effect: %s", ops[o].name, (unsigned)missing, why);
  }
  /* everything else still works */
  MC_CHECK(evfs_existing_file_ex("/d/y", stacks[k]) && evfs_existing_dir_ex("/d/e", stacks[k]), "after %s the file system is unusable", ops[o].name);
  MC_CHECK(evfs_unregister(&A.vfs) == EVFS_OK && !evfs_find_vfs("mem"), "unregistering without methods %02x", (unsigned)missing);
  mc_state(mc_hash(MC_HASH0 + (unsigned)(k * 100 + o), &missing, sizeof missing));
  clean();
}
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P32"); mc_set_cleanup(clean); evfs_init();
  mc_note("%d public calls x every nonempty set of null pointer arguments x {direct, 6 stacks of shims}; every subset of the 8 optional methods missing from a back end x %d operations x {direct, 6 stacks of shims}", NC, NOPS);
  mc_explore("null arguments", s_null);
  mc_explore("missing methods", s_methods);
  return mc_main_finish();
}
