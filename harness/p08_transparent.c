/* P08: a jail against a twin file system on which the same operations are done with the jail root prepended. */
#include "common.h"
#include "evfs/shim/shim_jail.h"
static Mem A, B;                  /* A under the jail, B the twin */
static char root[128], cwd[REF_MAX]; static bool dos;

static void tree(Mem *m, const char *name) {
  mem_init(m, name); m->dos = dos;
  const char *d = dos ? "C:" : "";
  char t[100];
#define D(p) snprintf(t, sizeof t, "%s%s", d, p), mem_mkdir(m, t)
#define F(p, c) snprintf(t, sizeof t, "%s%s", d, p), mem_put(m, t, c, (int)strlen(c))
  D("/out"); F("/f", "outside"); D("/j"); F("/j/f", "inside file"); D("/j/d"); F("/j/d/g", "gg"); D("/j/d/e"); F("/j/h", "");
  D("/d"); F("/d/g", "not this");
}
/* what the path means on the twin */
static const char *real(const char *p) {
  static char out[4][REF_MAX]; static int k; k = (k + 1) & 3;
  char a[REF_MAX], full[REF_MAX * 2]; ref_absolute(cwd, p, dos, a);
  bool ab; int r = ref_root(a, dos, &ab);
  snprintf(full, sizeof full, "%s/%s", root, a + r);
  ref_normalize(full, dos, out[k]);
  return out[k];
}
static const char *paths[] = { "f", "/d/g", "../d", "d/e/../new", "/", "d\\g", "nodir/x", "f/x", "h", "/d/e", "../f", "new" };
#define NP mc_tier(8, 12)
#define NQ mc_tier(4, 7)   /* targets of a rename */
static EvfsFile *fa, *fb; static EvfsDir *da, *db;
static void same(int a, int b, const char *what) { MC_CHECK(a == b, "%s through the jail returns %d, directly %d", what, a, b); }

static void s_ops(void) {
  dos = mc_choose(2);
  int dots = mc_thorough() ? mc_choose(2) : dos;
  std_cleanup(); tree(&A, "base"); tree(&B, "twin"); A.dots = B.dots = dots;
  MC_CHECK(evfs_register(&A.vfs, true) == EVFS_OK && evfs_register(&B.vfs, false) == EVFS_OK, "harness: register");
  strcpy(root, dos ? "C:/j" : "/j"); strcpy(cwd, "/"); fa = fb = NULL; da = db = NULL;
  mc_alloc_reset(); mc_alloc_track(true);
  int live0 = mc_alloc_live();
  MC_CHECK(evfs_register_jail("jail", "base", root, false) == EVFS_OK, "registering the jail fails");
  Evfs *J = evfs_find_vfs("jail"); int live1 = mc_alloc_live();
  int depth = 3;
  for(int i = 0; i < depth; i++) {
    int op = mc_choose(20);
    if(op == 19) break;
    char what[120] = "";
    switch(op) {
      case 0: case 1: case 2: { /* open */
        static const int fl[] = { EVFS_READ, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_OVERWRITE };
        if(fa) mc_prune();
        const char *p = paths[mc_choose(NP)];
        snprintf(what, sizeof what, "open '%s' flags %x", p, fl[op]);
        int s = evfs_open_ex(p, &fa, fl[op], "jail"), t = evfs_vfs_open(&B.vfs, real(p), &fb, fl[op]);
        mc_op("%s -> %s", what, EN(s)); same(s, t, what);
        MC_CHECK((s == EVFS_OK) == (fa != NULL), "%s: handle and status disagree", what); break; }
      case 3: { /* file operations */
        if(!fa) mc_prune();
        int k = mc_choose(9); char b1[16] = "", b2[16] = ""; int x = 10, y = 10;
        static const char *kn[] = { "read 3", "write 2", "seek 1", "seek end-2", "truncate 4", "size/tell/eof", "sync", "ctrl", "close" };
        snprintf(what, sizeof what, "%s", kn[k]); mc_op("%s", what);
        switch(k) {
          case 0: { int n = (int)evfs_file_read(fa, b1, 3); same(n, (int)evfs_file_read(fb, b2, 3), what); MC_CHECK(n < 0 || !memcmp(b1, b2, 3), "different data is read through the jail"); break; }
          case 1: same((int)evfs_file_write(fa, "WX", 2), (int)evfs_file_write(fb, "WX", 2), what); break;
          case 2: same(evfs_file_seek(fa, 1, EVFS_SEEK_TO), evfs_file_seek(fb, 1, EVFS_SEEK_TO), what); break;
          case 3: same(evfs_file_seek(fa, 2, EVFS_SEEK_REV), evfs_file_seek(fb, 2, EVFS_SEEK_REV), what); break;
          case 4: same(evfs_file_truncate(fa, 4), evfs_file_truncate(fb, 4), what); break;
          case 5: break;
          case 6: same(evfs_file_sync(fa), evfs_file_sync(fb), what); break;
          case 7: for(unsigned i = 0; i < sizeof MEM_USER_CMDS / sizeof *MEM_USER_CMDS; i++) { int c = MEM_USER_CMDS[i]; same(evfs_file_ctrl(fa, c, &x), evfs_file_ctrl(fb, c, &y), what); same(x, y, what); } break;
          case 8: same(evfs_file_close(fa), evfs_file_close(fb), what); fa = fb = NULL; break;
        }
        break; }
      case 4: { const char *p = paths[mc_choose(NP)]; EvfsInfo a, b; memset(&a, 7, sizeof a); memset(&b, 7, sizeof b);
        snprintf(what, sizeof what, "stat '%s'", p);
        int s = evfs_stat_ex(p, &a, "jail"); mc_op("%s -> %s", what, EN(s)); same(s, B.vfs.m_stat(&B.vfs, real(p), &b), what);
        if(s == EVFS_OK) MC_CHECK(a.size == b.size && a.type == b.type && a.mtime == b.mtime, "%s differs through the jail", what); break; }
      case 5: { const char *p = paths[mc_choose(NP)]; snprintf(what, sizeof what, "delete '%s'", p);
        if(!strcmp(real(p), root)) mc_prune();    /* removing the jail itself */
        int s = evfs_delete_ex(p, "jail"); mc_op("%s -> %s", what, EN(s)); same(s, B.vfs.m_delete(&B.vfs, real(p)), what); break; }
      case 6: { const char *p = paths[mc_choose(NQ)], *q = paths[1 + mc_choose(NQ)]; snprintf(what, sizeof what, "rename '%s' to '%s'", p, q);
        if(!strcmp(real(p), root)) mc_prune();
        int s = evfs_rename_ex(p, q, "jail"); mc_op("%s -> %s", what, EN(s)); same(s, B.vfs.m_rename(&B.vfs, real(p), real(q)), what); break; }
      case 7: { const char *p = paths[mc_choose(NP)]; snprintf(what, sizeof what, "make_dir '%s'", p);
        int s = evfs_make_dir_ex(p, "jail"); mc_op("%s -> %s", what, EN(s)); same(s, B.vfs.m_make_dir(&B.vfs, real(p)), what); break; }
      case 8: { if(da) mc_prune(); const char *p = paths[2 + mc_choose(NQ)]; snprintf(what, sizeof what, "open_dir '%s'", p);
        int s = evfs_open_dir_ex(p, &da, "jail"); mc_op("%s -> %s", what, EN(s)); same(s, evfs_vfs_open_dir(&B.vfs, real(p), &db), what);
        MC_CHECK((s == EVFS_OK) == (da != NULL), "%s: handle and status disagree", what); break; }
      case 9: case 10: case 11: case 12: { if(!da) mc_prune();
        EvfsInfo a, b; static const char *kn[] = { "dir_read", "dir_find", "dir_rewind", "dir_close" }; mc_op("%s", kn[op - 9]); int s;
        if(op == 11) { same(evfs_dir_rewind(da), evfs_dir_rewind(db), kn[2]); break; }
        if(op == 12) { same(evfs_dir_close(da), evfs_dir_close(db), kn[3]); da = db = NULL; break; }
        int reps = op == 9 ? 1 + mc_choose(2) * 5 : 1;
        while(reps--) {
          s = op == 9 ? evfs_dir_read(da, &a) : evfs_dir_find(da, "?", &a);
          same(s, op == 9 ? evfs_dir_read(db, &b) : evfs_dir_find(db, "?", &b), kn[op - 9]);
          if(s == EVFS_OK) MC_CHECK(!strcmp(a.name, b.name) && a.size == b.size && a.type == b.type && a.mtime == b.mtime, "a directory entry differs through the jail");
        } break; }
      case 13: case 14: { static const char *to[] = { "d", "..", "/d/e", ".", "f", "nodir", "/", "d/../d/./e/", "\\d", "../../..", "" };
        const char *p = to[mc_choose(11)]; if(op == 14) { if(strcmp(p, "d")) mc_prune(); p = "/d//e/.."; }
        EvfsInfo inf; bool dir = B.vfs.m_stat(&B.vfs, real(p), &inf) == EVFS_OK && (inf.type & EVFS_FILE_DIR);
        int s = evfs_set_cur_dir_ex(p, "jail"); mc_op("set_cur_dir '%s' -> %s", p, EN(s));
        MC_CHECK((s == EVFS_OK) == dir, "changing to '%s' from '%s' in the jail returns %s", p, cwd, EN(s));
        if(s == EVFS_OK) { char n[REF_MAX]; ref_absolute(cwd, p, dos, n); strcpy(cwd, n); } break; }
      case 15: { unsigned v = (unsigned)mc_choose(2); mc_op("set no dir dots %u", v); unsigned w = v; same(evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &v, "jail"), B.vfs.m_vfs_ctrl(&B.vfs, EVFS_CMD_SET_NO_DIR_DOTS, &w), "set no dir dots"); break; }
      case 16: { unsigned v = 0, w = 0; int x = 1, y = 1; mc_op("queries");
        same(evfs_vfs_ctrl_ex(EVFS_CMD_GET_STAT_FIELDS, &v, "jail"), B.vfs.m_vfs_ctrl(&B.vfs, EVFS_CMD_GET_STAT_FIELDS, &w), "stat fields"); same((int)v, (int)w, "stat fields");
        same(evfs_vfs_ctrl_ex(EVFS_CMD_GET_DIR_FIELDS, &v, "jail"), B.vfs.m_vfs_ctrl(&B.vfs, EVFS_CMD_GET_DIR_FIELDS, &w), "dir fields"); same((int)v, (int)w, "dir fields");
        for(unsigned i = 0; i < sizeof MEM_USER_CMDS / sizeof *MEM_USER_CMDS; i++) { int c = MEM_USER_CMDS[i]; same(evfs_vfs_ctrl_ex(c, &x, "jail"), B.vfs.m_vfs_ctrl(&B.vfs, c, &y), "user command"); same(x, y, "user command"); } break; }
      case 17: { /* read-only base */
        unsigned v = (unsigned)mc_choose(2), w = v; mc_op("set readonly %u", v); same(evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &v, "jail"), B.vfs.m_vfs_ctrl(&B.vfs, EVFS_CMD_SET_READONLY, &w), "set readonly"); break; }
      case 18: { /* path conversion in the jail */
        const char *p = paths[mc_choose(NP)]; char b[EVFS_MAX_PATH]; StringRange r = RANGE_FROM_ARRAY(b); char n[REF_MAX]; ref_absolute(cwd, p, dos, n);
        int s = evfs_path_absolute_ex(p, &r, "jail"); mc_op("path_absolute '%s' -> %s", p, EN(s));
        MC_CHECK(s == EVFS_OK && !strcmp(b, n), "'%s' is '%s' in the jail instead of '%s'", p, b, n); break; }
    }
    /* shared state */
    char why[200] = ""; MC_CHECK(mem_same(&A, &B, why, sizeof why), "%s has a different effect through the jail: %s", what, why);
    MC_CHECK(A.open_files == B.open_files && A.open_dirs == B.open_dirs, "%s leaves underlying handles open (%d files, %d directories instead of %d, %d)", what, A.open_files, A.open_dirs, B.open_files, B.open_dirs);
    if(fa) { same(evfs_file_size(fa), evfs_file_size(fb), "size"); same(evfs_file_tell(fa), evfs_file_tell(fb), "tell"); same(evfs_file_eof(fa), evfs_file_eof(fb), "eof"); }
    char b[EVFS_MAX_PATH]; StringRange r = RANGE_FROM_ARRAY(b);
    MC_CHECK(evfs_get_cur_dir_ex(&r, "jail") == EVFS_OK && !strcmp(b, cwd), "the jail's current directory is '%s' instead of '%s'", b, cwd);
    MC_CHECK(!strcmp(A.cwd, B.cwd), "the underlying current directory changed");
    MC_CHECK(mc_alloc_live() == live1 + (fa ? 2 : 0) + (da ? 2 : 0), "%s leaks memory", what);
    mc_state(mc_hash(mem_hash(&A), cwd, strlen(cwd)) + (fa ? (uint64_t)evfs_file_tell(fa) + 1 : 0));
  }
  if(fa) { evfs_file_close(fa); evfs_file_close(fb); } if(da) { evfs_dir_close(da); evfs_dir_close(db); }
  MC_CHECK(evfs_unregister(J) == EVFS_OK && mc_alloc_live() == live0, "unregistering the jail leaks memory");
  MC_CHECK(A.open_files == 0 && A.open_dirs == 0 && A.unregistered == 0, "unregistering the jail affects its base");
}

/* two jails on one base: current directories are independent, contents shared */
static void s_two(void) {
  dos = false; std_cleanup(); tree(&A, "base"); evfs_register(&A.vfs, true);
  evfs_register_jail("j1", "base", "/j", false); evfs_register_jail("j2", "base", mc_choose(2) ? "/j" : "/", false);
  char c[2][REF_MAX] = { "/", "/" }; const char *jr[2] = { "/j", NULL };
  { EvfsInfo i; jr[1] = evfs_stat_ex("/out", &i, "j2") == EVFS_OK ? "" : "/j"; }
  static const char *to[] = { "d", "..", "/d", "e", "/" };
  int k = mc_tier(5, 6);
  for(int i = 0; i < k; i++) {
    int w = mc_choose(3); const char *p = to[mc_choose(5)];
    if(w == 2) { strcpy(A.cwd, mc_choose(2) ? "/d" : "/"); mc_op("base current directory changes"); }
    else {
      char n[REF_MAX], real_[REF_MAX * 2]; ref_absolute(c[w], p, false, n); snprintf(real_, sizeof real_, "%s%s", jr[w], n); char rn[REF_MAX]; ref_normalize(real_, false, rn);
      bool ok = !strcmp(rn, "/") || (mem_find(&A, rn) && mem_find(&A, rn)->dir);
      int s = evfs_set_cur_dir_ex(p, w ? "j2" : "j1"); mc_op("jail %d: set_cur_dir '%s' -> %s", w + 1, p, EN(s));
      MC_CHECK((s == EVFS_OK) == ok, "changing to '%s' returns %s", p, EN(s));
      if(ok) strcpy(c[w], n);
    }
    for(int q = 0; q < 2; q++) { char b[EVFS_MAX_PATH]; StringRange r = RANGE_FROM_ARRAY(b); evfs_get_cur_dir_ex(&r, q ? "j2" : "j1"); MC_CHECK(!strcmp(b, c[q]), "jail %d stands in '%s' instead of '%s'", q + 1, b, c[q]); }
    mc_state(mc_hash(mc_hash(MC_HASH0, c[0], strlen(c[0]) + 1), c[1], strlen(c[1])));
  }
}

/* long paths: every combination of lengths, up to where the real path no longer fits */
static char *longp(char *out, char c, int len) { out[0] = '/'; for(int i = 1; i < len; i++) out[i] = i % 60 ? c : '/'; if(out[len - 1] == '/') out[len - 1] = c; out[len] = 0; return out; }
static void long_dirs(const char *p, const char *pre) { char t[600]; for(int i = 1; p[i]; i++) if(p[i] == '/') { snprintf(t, sizeof t, "%s%.*s", pre, i, p); if(!mem_find(&A, t)) mem_mkdir(&A, t); if(!mem_find(&B, t)) mem_mkdir(&B, t); } }
static void s_long(void) {
  static const int lens[] = { 2, 20, 59, 61, 100, 110, 125, 126, 127, 128, 129, 140, 180, 200, 230, 240, 248, 250, 252, 253, 254, 255, 256, 270 };
  dos = false; std_cleanup(); tree(&A, "base"); tree(&B, "twin"); evfs_register(&A.vfs, true); evfs_register(&B.vfs, false);
  static const char *rt[] = { "/j", "/" , "/j/d/e" }; strcpy(root, rt[mc_choose(3)]); const char *pre = root[1] ? root : ""; strcpy(cwd, "/");
  MC_CHECK(evfs_register_jail("jail", "base", root, false) == EVFS_OK, "registering the jail fails");
  int op = mc_choose(8), la = lens[mc_choose(24)], lb = op == 0 ? lens[mc_choose(24)] : 20, in = mc_choose(3);   /* from where: the root by an absolute path, a directory by an absolute or a relative one */
  char a[400], b[400], ra[600], rb[600]; longp(a, 'a', la); longp(b, 'b', lb);
  if(in == 1) { /* stand in the directory of the path */
    char *sl = strrchr(a, '/'); if(sl == a || op == 0) mc_prune();
    long_dirs(a, pre); *sl = 0; if(evfs_set_cur_dir_ex(a, "jail") != EVFS_OK) { MC_CHECK((int)strlen(pre) + la > 240, "changing to a directory of %d characters fails", (int)strlen(a)); mc_prune(); } strcpy(cwd, a); *sl = '/';
  } else if(in == 2) { memmove(a, a + 1, strlen(a)); memmove(b, b + 1, strlen(b)); }
  char *use = in == 1 ? strrchr(a, '/') + 1 : a;
  snprintf(ra, sizeof ra, "%s%s%s", pre, *a == '/' ? "" : "/", a); snprintf(rb, sizeof rb, "%s%s%s", pre, *b == '/' ? "" : "/", b);
  int longest = (int)strlen(ra); if(op == 0 && (int)strlen(rb) > longest) longest = (int)strlen(rb);
  if(in != 1) long_dirs(ra + strlen(pre), pre);
  long_dirs(rb + strlen(pre), pre);
  if(op != 2 && op != 4) { mem_put(&A, ra, "content", 7); mem_put(&B, ra, "content", 7); }
  uint64_t before = mem_hash(&A); int s = 0, t = 0; EvfsInfo x, y; EvfsFile *f = NULL, *g = NULL; EvfsDir *d = NULL, *e = NULL;
  static const char *on[] = { "rename", "stat", "create", "delete", "make_dir", "open", "open_dir", "path_absolute" };
  switch(op) {
    case 0: s = evfs_rename_ex(a, b, "jail"); t = B.vfs.m_rename(&B.vfs, ra, rb); break;
    case 1: s = evfs_stat_ex(use, &x, "jail"); t = B.vfs.m_stat(&B.vfs, ra, &y); break;
    case 2: s = evfs_open_ex(use, &f, EVFS_RDWR | EVFS_OVERWRITE, "jail"); t = evfs_vfs_open(&B.vfs, ra, &g, EVFS_RDWR | EVFS_OVERWRITE); break;
    case 3: s = evfs_delete_ex(use, "jail"); t = B.vfs.m_delete(&B.vfs, ra); break;
    case 4: s = evfs_make_dir_ex(use, "jail"); t = B.vfs.m_make_dir(&B.vfs, ra); break;
    case 5: s = evfs_open_ex(use, &f, EVFS_READ, "jail"); t = evfs_vfs_open(&B.vfs, ra, &g, EVFS_READ); break;
    case 6: { char *sl = strrchr(ra, '/'), *sa = strrchr(a, '/'); if(in == 1 || !sa || sa == a) mc_prune(); *sa = 0; *sl = 0; s = evfs_open_dir_ex(a, &d, "jail"); t = evfs_vfs_open_dir(&B.vfs, ra, &e); *sl = '/'; *sa = '/'; break; }
    case 7: { char n[EVFS_MAX_PATH], w[600]; StringRange r = RANGE_FROM_ARRAY(n); s = evfs_path_absolute_ex(use, &r, "jail"); snprintf(w, sizeof w, "%s%s", *a == '/' ? "" : "/", a); t = EVFS_OK; if(s == EVFS_OK) MC_CHECK(!strcmp(n, w), "a path of %d characters resolves to one of %zu", la, strlen(n)); break; }
  }
  mc_op("%s of %d characters%s (real path of %d) -> %s", on[op], la, in == 1 ? " by its name" : in == 2 ? ", relative" : "", longest, EN(s));
  if(op == 0) mc_op("new path of %d", lb);
  if(longest <= EVFS_MAX_PATH - 4 && lb < 253) MC_CHECK(s == t, "%s of a path of %d characters returns %s, directly %s", on[op], longest, EN(s), EN(t));
  if(s != t) { MC_CHECK(s < 0 && mem_hash(&A) == before, "%s of a path that is too long (%d) has an effect", on[op], longest); return; }
  if(f) { evfs_file_close(f); evfs_file_close(g); } if(d) { evfs_dir_close(d); evfs_dir_close(e); }
  char why[200] = ""; MC_CHECK(mem_same(&A, &B, why, sizeof why), "%s of a path of %d characters: %s", on[op], longest, why);
  MC_CHECK(A.open_files == 0 && A.open_dirs == 0, "handles stay open");
  mc_state(mc_hash(MC_HASH0 + (unsigned)(op * 4 + in), ra, strlen(ra)));
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P08");
  mc_set_cleanup(std_cleanup);
  evfs_init();
  mc_note("all sequences of 3 operations (open with 3 flag sets, 9 file operations, stat, delete, rename, make_dir, directory listing and searching, directory changes, control commands, path conversion) over %d path spellings, POSIX and drive-letter bases; two jails on one base: all sequences of %d directory changes", mc_tier(8, 12), mc_tier(5, 6));
  mc_note("oracle: an identical in-memory file system operated on directly with the jail root prepended to the path resolved by harness/ref.c; the whole tree is compared after each step");
  mc_explore_depth("operations", s_ops, 4);
  mc_note("8 operations on paths of 24 lengths up to beyond the limit (rename: every pair), absolute, relative and from inside their directory, below three roots");
  mc_explore("two jails", s_two);
  mc_explore("long paths", s_long);
  return mc_main_finish();
}
