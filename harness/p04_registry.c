/* P04: every sequence of registry operations up to a depth, against a list model.
   After every operation: lookups and the default; at the end: where every public call goes. */
#include "common.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"

static Mem A, B, A2;              /* A2 uses A's name */
typedef struct { EvfsFile base; } MinFile;
static struct { Evfs vfs; int opens, stats, other; } Min;  /* implements the mandatory methods only */
static int min_open(Evfs *v, const char *p, EvfsFile *fh, int fl) { Min.opens++; return EVFS_ERR_NO_FILE; }
static int min_stat(Evfs *v, const char *p, EvfsInfo *i) { Min.stats++; return EVFS_ERR_NO_FILE; }

enum { NONE = -1, IA, IB, IM, IJ, NV };
static const char *names[] = { "a", "b", "m", "j" };
static Evfs *obj[NV];             /* object registered under each name, NULL if none */
static int order[NV], n;          /* most recent first */
static int unreg_seen[3];
static Evfs *def; static Mem *jbase;

static int idx_of(Evfs *v) { for(int i = 0; i < NV; i++) if(obj[i] == v) return i; return -1; }
static void model_add(int i, Evfs *v) { memmove(order + 1, order, sizeof(int) * (size_t)n); order[0] = i; n++; obj[i] = v; }
static void model_del(int i) { int k = 0; while(order[k] != i) k++; memmove(order + k, order + k + 1, sizeof(int) * (size_t)(n - k - 1)); n--; obj[i] = NULL; }

static Evfs *actual_default(void) { return n ? evfs_find_vfs(evfs_default_vfs_name()) : NULL; }

static void model_register(int i, Evfs *v, bool mk) {
  if(!obj[i]) { model_add(i, v); if(n == 1 || mk) def = v; return; }
  v = obj[i];                     /* the object already listed stays */
  if(mk) def = v;
  else if(def == v && n > 1) {
    Evfs *a = actual_default();   /* any other one may be chosen */
    MC_CHECK(a && a != v, "taking the default away from '%s' leaves it the default", v->vfs_name);
    def = a;
  }
}

static void check_lists(const char *after) {
  for(int i = 0; i < NV; i++)
    MC_CHECK(evfs_find_vfs(names[i]) == obj[i], "after %s, looking up '%s' gives %s object", after, names[i], obj[i] ? "the wrong or no" : "a stale");
  MC_CHECK(!evfs_find_vfs("zz") && !evfs_find_vfs(""), "unregistered names are found");
  const char *d = evfs_default_vfs_name();
  if(!n) MC_CHECK(!d || !*d, "after %s nothing is registered but the default is '%s'", after, d);
  else {
    MC_CHECK(idx_of(def) >= 0 && d && !strcmp(d, def->vfs_name), "after %s the default is '%s' instead of '%s'", after, d ? d : "(null)", def->vfs_name);
  }
}

/* ---- routing ---- */
static const char *want_prefix;
static int hits[3], other_hits;   /* Mem A, B, A2 */
static void hook(Mem *m, int op, const char *raw, const char *abs) {}
static long total(Mem *m) { long t = 0; for(int i = 0; i < MF_NOPS; i++) t += m->kind_count[i]; return t; }

static const char *calls[] = { "open", "stat", "existing_file", "existing_dir", "delete", "rename", "make_dir", "make_path", "make_path_range", "open_dir", "get_cur_dir",
  "set_cur_dir", "vfs_ctrl", "path_root_component", "path_dirname", "path_join", "path_join_str", "path_normalize", "path_absolute", "path_is_absolute", "copy_to_file" };
#define NCALLS 21
/* value = return; *err = 1 when the call has an error code result */
static int call(int c, const char *v, bool inl, EvfsFile *src) {
  EvfsFile *f = NULL; EvfsDir *d = NULL; EvfsInfo info; char buf[EVFS_MAX_PATH]; StringRange r = RANGE_FROM_ARRAY(buf), h, t, rt;
  unsigned u = 0; buf[0] = 0;
  int s;
#define X(ex, in) (inl ? (in) : (ex))
  switch(c) {
    case 0: s = X(evfs_open_ex("/f", &f, EVFS_READ, v), evfs_open("/f", &f, EVFS_READ)); if(s == EVFS_OK) evfs_file_close(f); return s;
    case 1: return X(evfs_stat_ex("/f", &info, v), evfs_stat("/f", &info));
    case 2: return X(evfs_existing_file_ex("/f", v), evfs_existing_file("/f"));
    case 3: return X(evfs_existing_dir_ex("/d", v), evfs_existing_dir("/d"));
    case 4: return X(evfs_delete_ex("/gone", v), evfs_delete("/gone"));
    case 5: return X(evfs_rename_ex("/gone", "/gone2", v), evfs_rename("/gone", "/gone2"));
    case 6: return X(evfs_make_dir_ex("/d", v), evfs_make_dir("/d"));
    case 7: return X(evfs_make_path_ex("/d", v), evfs_make_path("/d"));
    case 8: range_init(&h, (char *)"/d/x", 2); return X(evfs_make_path_range_ex(&h, v), evfs_make_path_range(&h));
    case 9: s = X(evfs_open_dir_ex("/d", &d, v), evfs_open_dir("/d", &d)); if(s == EVFS_OK) evfs_dir_close(d); return s;
    case 10: return X(evfs_get_cur_dir_ex(&r, v), evfs_get_cur_dir(&r));
    case 11: return X(evfs_set_cur_dir_ex("/", v), evfs_set_cur_dir("/"));
    case 12: return X(evfs_vfs_ctrl_ex(EVFS_CMD_GET_STAT_FIELDS, &u, v), evfs_vfs_ctrl(EVFS_CMD_GET_STAT_FIELDS, &u));
    case 13: return X(evfs_path_root_component_ex("/f", &rt, v), evfs_path_root_component("/f", &rt));
    case 14: return X(evfs_path_dirname_ex("/f/g", &rt, v), evfs_path_dirname("/f/g", &rt));
    case 15: range_init(&h, "/x", 2); range_init(&t, "y", 1); return X(evfs_path_join_ex(&h, &t, &r, v), evfs_path_join(&h, &t, &r));
    case 16: return X(evfs_path_join_str_ex("/x", "y", &r, v), evfs_path_join_str("/x", "y", &r));
    case 17: return X(evfs_path_normalize_ex("/f/./g", &r, v), evfs_path_normalize("/f/./g", &r));
    case 18: return X(evfs_path_absolute_ex("f", &r, v), evfs_path_absolute("f", &r));
    case 19: return X(evfs_path_is_absolute_ex("/f", v), evfs_path_is_absolute("/f"));
    case 20: return X(evfs_copy_to_file_ex("/f", src, buf, 64, v), evfs_copy_to_file("/f", src, buf, 64));
  }
  return 0;
}
static Mem srcm; 

static void routing(void) {
  static const char *vn[] = { NULL, "a", "b", "m", "j", "zz" };
  Mem *ms[3] = { &A, &B, &A2 };
  EvfsFile *src = NULL;
  MC_CHECK(evfs_vfs_open(&srcm.vfs, "/src", &src, EVFS_READ) == EVFS_OK, "harness: source file");
  for(int q = 0; q < 7; q++) {
    bool inl = q == 6; const char *v = inl ? NULL : vn[q];
    Evfs *t = (v && evfs_find_vfs(v)) ? obj[q - 1] : def;
    if(!n) t = NULL;
    for(int c = 0; c < NCALLS; c++) {
      for(int k = 0; k < 3; k++) memset(ms[k]->kind_count, 0, sizeof ms[k]->kind_count);
      Min.opens = Min.stats = 0;
      int s = call(c, v, inl, src);
      mc_tick();
      const char *nm = v ? v : "(default)";
      bool boolean = c == 2 || c == 3 || c == 13 || c == 19;
      if(!t) {
        MC_CHECK(boolean ? s == 0 : s == EVFS_ERR_NO_VFS, "%s with nothing registered returns %s", calls[c], boolean ? "true" : EN(s));
      } else {
        /* who must have seen the call */
        Mem *m = t == &A.vfs ? &A : t == &B.vfs ? &B : t == &A2.vfs ? &A2 : NULL;
        bool jail = t == obj[IJ], isroot = c >= 13 && c <= 19;
        for(int k = 0; k < 3; k++) {
          long tot = total(ms[k]);
          if(m == ms[k] || (jail && ms[k] == jbase)) {
            if(m == ms[k]) MC_CHECK(tot > 0, "%s on '%s' does not reach the file system it names", calls[c], nm);
          } else MC_CHECK(tot == 0, "%s on '%s' goes to another file system", calls[c], nm);
        }
        if(m == &A || m == &B || m == &A2) {
          int want = c == 0 ? EVFS_OK : c == 1 ? EVFS_OK : c == 2 || c == 3 || c == 13 || c == 19 ? 1 : c == 4 || c == 5 ? EVFS_ERR_NO_FILE : c == 6 ? EVFS_ERR_EXISTS : c == 20 ? 12345 : EVFS_OK;
          if(want == 12345) MC_CHECK(s != EVFS_OK, "copying over an existing file succeeds");
          else MC_CHECK(s == want, "%s on '%s' returns %s", calls[c], nm, EN(s));
        } else if(t == &Min.vfs) {
          if(c == 0 || c == 20) MC_CHECK(Min.opens == 1 && s == EVFS_ERR_NO_FILE, "%s on '%s' does not reach it", calls[c], nm);
          else if(c >= 1 && c <= 3) MC_CHECK(Min.stats == 1, "%s on '%s' does not reach it", calls[c], nm);
          else if((c >= 4 && c <= 6) || c == 7 || c == 8 || (c >= 9 && c <= 12) || c == 18) MC_CHECK(s == EVFS_ERR_NO_SUPPORT, "%s, which '%s' lacks, returns %s", calls[c], nm, EN(s));
          else MC_CHECK(s == (boolean ? 1 : EVFS_OK), "%s on '%s' returns %s", calls[c], nm, EN(s));
          MC_CHECK(Min.opens + Min.stats > 0 || c > 3, "%s on '%s' is lost", calls[c], nm);
        } else if(jail && !isroot) {
          if(c == 0 || c == 1) MC_CHECK(s == EVFS_OK && total(jbase) > 0, "%s on the jail does not reach its base (%s)", calls[c], EN(s));
          if(c == 12 || c == 20 || c == 9 || c == 4) MC_CHECK(total(jbase) > 0, "%s on the jail does not reach its base", calls[c]);
        }
      }
    }
  }
  evfs_file_close(src);
}

static void fresh(Mem *m, const char *nm) {
  mem_init(m, nm);
  mem_put(m, "/f", "data", 4); mem_mkdir(m, "/d"); mem_mkdir(m, "/jail"); mem_put(m, "/jail/f", "xy", 2); mem_mkdir(m, "/jail/d");
}

static int do_op(int op, char *what) {
  switch(op) {
    case 0: case 1: strcpy(what, op ? "register a default" : "register a"); return evfs_register(&A.vfs, op == 1);
    case 2: case 3: strcpy(what, op == 3 ? "register b default" : "register b"); return evfs_register(&B.vfs, op == 3);
    case 4: case 5: strcpy(what, op == 5 ? "register other a default" : "register other a"); return evfs_register(&A2.vfs, op == 5);
    case 6: case 7: strcpy(what, op == 7 ? "register m default" : "register m"); return evfs_register(&Min.vfs, op == 7);
    case 8: case 9: strcpy(what, op == 9 ? "register jail j default" : "register jail j"); return evfs_register_jail("j", "a", "/jail", op == 9);
    case 10: strcpy(what, "unregister a"); return evfs_unregister(&A.vfs);
    case 11: strcpy(what, "unregister b"); return evfs_unregister(&B.vfs);
    case 12: strcpy(what, "unregister other a"); return evfs_unregister(&A2.vfs);
    case 13: strcpy(what, "unregister m"); return evfs_unregister(&Min.vfs);
    case 14: strcpy(what, "unregister j"); return obj[IJ] ? evfs_unregister(obj[IJ]) : EVFS_ERR_NO_VFS;
    default: strcpy(what, "unregister everything"); evfs_unregister_all(); return EVFS_OK;
  }
}

static void s_seq(void) {
  std_cleanup();
  fresh(&A, "a"); fresh(&B, "b"); fresh(&A2, "a"); fresh(&srcm, "s"); mem_put(&srcm, "/src", "hello", 5);
  memset(&Min, 0, sizeof Min);
  Min.vfs = (Evfs){ .vfs_name = "m", .vfs_file_size = sizeof(MinFile), .m_open = min_open, .m_stat = min_stat };
  memset(obj, 0, sizeof obj); n = 0; def = NULL; memset(unreg_seen, 0, sizeof unreg_seen);
  int depth = mc_tier(5, 6);
  Mem *ms[3] = { &A, &B, &A2 };
  check_lists("start");
  for(int i = 0; i < depth; i++) {
    int c = mc_choose(17);
    if(c == 16) break;
    if(c == 14 && !obj[IJ]) mc_prune();   /* there is no object to unregister */
    if((c == 8 || c == 9) && obj[IJ]) mc_prune();  /* a second jail object of the same name: not covered */
    char what[64]; int before[3]; for(int k = 0; k < 3; k++) before[k] = ms[k]->unregistered;
    bool had_a = obj[IA] != NULL;
    int s = do_op(c, what);
    mc_op("%s -> %s", what, EN(s));
    int want = EVFS_OK; Evfs *gone[NV]; int ngone = 0;
    static const int reg_ix[] = { IA, IA, IB, IB, IA, IA, IM, IM, IJ, IJ };
    Evfs *reg_obj[] = { &A.vfs, &A.vfs, &B.vfs, &B.vfs, &A2.vfs, &A2.vfs, &Min.vfs, &Min.vfs };
    if(c < 8) model_register(reg_ix[c], reg_obj[c], c & 1);
    else if(c < 10) {
      if(!had_a) want = n ? EVFS_OK : EVFS_ERR_NO_VFS;
      if(!had_a) { MC_CHECK(s != EVFS_OK, "a jail is registered over a missing file system"); want = s; }
      else { Evfs *j = evfs_find_vfs("j"); MC_CHECK(j, "the jail is not found after registering it"); model_register(IJ, j, c & 1); jbase = obj[IA] == &A2.vfs ? &A2 : &A; }
    } else if(c < 15) {
      Evfs *v = c == 10 ? &A.vfs : c == 11 ? &B.vfs : c == 12 ? &A2.vfs : c == 13 ? &Min.vfs : obj[IJ];
      int ix = idx_of(v);
      if(ix < 0) want = EVFS_ERR_NO_VFS;
      else {
        bool was = def == v; gone[ngone++] = v; model_del(ix);
        if(was) { def = actual_default(); if(n) MC_CHECK(idx_of(def) >= 0, "after %s there is no default", what); }
      }
    } else { for(int k = 0; k < n; k++) gone[ngone++] = obj[order[k]]; n = 0; memset(obj, 0, sizeof obj); def = NULL; }
    MC_CHECK(s == want, "%s returns %s instead of %s", what, EN(s), EN(want));
    for(int k = 0; k < 3; k++) {
      int exp = before[k]; for(int g = 0; g < ngone; g++) if(gone[g] == &ms[k]->vfs) exp++;
      MC_CHECK(ms[k]->unregistered == exp, "%s notifies file system '%s' %d times of its unregistration instead of %d", what, ms[k]->name, ms[k]->unregistered - before[k], exp - before[k]);
    }
    check_lists(what);
    mc_state(mc_hash(mc_hash(MC_HASH0, order, sizeof(int) * (size_t)n), (int[]){ n, idx_of(def), obj[IA] == &A2.vfs }, 12));
  }
  routing();
}

/* before initialization */
static void s_uninit(void) {
  mem_init(&A, "a");
  bool d = mc_choose(2);
  mc_op("register before evfs_init");
  int s = evfs_register(&A.vfs, d);
  MC_CHECK(s == EVFS_ERR_INIT, "registering before evfs_init() returns %s", EN(s));
  MC_CHECK(!evfs_find_vfs("a"), "a failed registration is listed");
}

/* argument validation */
static void s_args(void) {
  std_cleanup(); fresh(&A, "a"); evfs_register(&A.vfs, true);
  mc_choose(1);
  EvfsFile *f; EvfsInfo i; StringRange r; EvfsDir *d;
#define BAD(e) { int s = (e); mc_op(#e " -> %s", EN(s)); MC_CHECK(s == EVFS_ERR_BAD_ARG, #e " returns %s", EN(s)); }
  BAD(evfs_register(NULL, true)) BAD(evfs_unregister(NULL)) BAD(evfs_open(NULL, &f, EVFS_READ)) BAD(evfs_open("/f", NULL, EVFS_READ))
  BAD(evfs_stat(NULL, &i)) BAD(evfs_stat("/f", NULL)) BAD(evfs_delete(NULL)) BAD(evfs_rename(NULL, "/x")) BAD(evfs_rename("/x", NULL))
  BAD(evfs_make_dir(NULL)) BAD(evfs_make_path(NULL)) BAD(evfs_open_dir(NULL, &d)) BAD(evfs_open_dir("/", NULL)) BAD(evfs_get_cur_dir(NULL))
  BAD(evfs_set_cur_dir(NULL)) BAD(evfs_file_close(NULL)) BAD(evfs_file_read(NULL, &i, 1)) BAD(evfs_file_write(NULL, &i, 1)) BAD(evfs_dir_close(NULL))
  BAD(evfs_dir_read(NULL, &i)) BAD(evfs_path_normalize(NULL, &r)) BAD(evfs_path_absolute(NULL, &r)) BAD(evfs_path_absolute("x", NULL))
  MC_CHECK(!evfs_find_vfs(NULL), "looking up a NULL name finds something");
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P04");
  mc_note("all sequences of up to %d of 16 registry operations over two in-memory file systems, a second object using the first one's name, a minimal one without optional methods, and a jail; after each: 4 lookups and the default; after the last: 21 public calls x 6 names and their default-VFS forms", mc_tier(5, 6));
  mc_note("which other file system becomes the default when the current one is removed or demoted is left open; a second shim object registered under a taken name is not covered");
  mc_explore("uninitialized", s_uninit);
  evfs_init();
  mc_set_cleanup(std_cleanup);
  mc_explore("sequences", s_seq);
  mc_explore("arguments", s_args);
  return mc_main_finish();
}
