/* P07: no path leaves the jail.  The base is a monitor that fails every call after recording the path;
   a second scenario runs histories of directory changes on a real tree. */
#include "common.h"
#include "evfs/shim/shim_jail.h"

static Mem g; static char g_root[REF_MAX]; static int nhook; static const char *g_what; static char last_abs[4][REF_MAX];
static void hook(Mem *m, int op, const char *raw, const char *abs) {
  size_t l = strlen(g_root);
  bool top = g_root[l - 1] == '/';
  MC_CHECK(!strncmp(abs, g_root, l) && (top || !abs[l] || abs[l] == '/'), "%s: the base is given '%s' (%s), outside the jail at '%s'", g_what, mc_str(raw), mc_str(abs), mc_str(g_root));
  bool isabs; ref_root(raw, m->dos, &isabs);
  MC_CHECK(isabs, "%s: the base is given the relative path '%s'", g_what, mc_str(raw));
  if(nhook < 4) strcpy(last_abs[nhook], abs);
  nhook++;
}

static const char *opn[] = { "open", "open new", "stat", "delete", "rename from", "rename to", "make_dir", "open_dir", "set_cur_dir", "make_path" };
static int act(int op, const char *p) {
  EvfsFile *f; EvfsDir *d; EvfsInfo i; int s;
  g_what = opn[op]; nhook = 0;
  switch(op) {
    case 0: s = evfs_open(p, &f, EVFS_READ); if(s == EVFS_OK) evfs_file_close(f); return s;
    case 1: s = evfs_open(p, &f, EVFS_WRITE | EVFS_OVERWRITE); if(s == EVFS_OK) { evfs_file_write(f, "x", 1); evfs_file_close(f); } return s;
    case 2: return evfs_stat(p, &i);
    case 3: return evfs_delete(p);
    case 4: return evfs_rename(p, "/zz");
    case 5: return evfs_rename("zz", p);
    case 6: return evfs_make_dir(p);
    case 7: s = evfs_open_dir(p, &d); if(s == EVFS_OK) evfs_dir_close(d); return s;
    case 8: return evfs_set_cur_dir(p);
    default: return evfs_make_path(p);
  }
}

static void mount(bool dos, int root, const char *cwd) {
  static const char *roots[] = { "/jail", "/", "j", "/x/../jail//y/", "..", "\\jail/.", "." , "/a" };
  static const char *droots[] = { "D:/jail", "C:/", "j", "D:\\x\\..\\jail", "..", "/jail", ".", "C:/a" };
  std_cleanup();
  mem_init(&g, "base"); g.dos = dos;
  const char *bcwd = dos ? "C:/w/v" : "/w/v";
  if(dos) { mem_mkdir(&g, "C:/w"); mem_mkdir(&g, "C:/w/v"); } else { mem_mkdir(&g, "/w"); mem_mkdir(&g, "/w/v"); }
  strcpy(g.cwd, bcwd);
  const char *r = dos ? droots[root] : roots[root];
  ref_absolute(bcwd, r, dos, g_root);
  /* the directories the jail may stand in */
  char t[REF_MAX]; const char *sub[] = { "", "a", "a/b", "zz" };
  for(int i = 0; i < 4; i++) {
    snprintf(t, sizeof t, "%s%s%s", g_root, g_root[strlen(g_root) - 1] == '/' ? "" : "/", sub[i]);
    char n[REF_MAX]; ref_normalize(t, dos, n);
    /* parents as well */
    for(char *s = n + (dos ? 3 : 1); *s; s++) if(*s == '/') { *s = 0; mem_mkdir(&g, n); *s = '/'; }
    bool a; if(n[ref_root(n, dos, &a)]) mem_mkdir(&g, n);
  }
  MC_CHECK(evfs_register(&g.vfs, true) == EVFS_OK, "harness: register");
  MC_CHECK(evfs_register_jail("jail", "base", r, true) == EVFS_OK, "registering a jail at '%s' fails", r);
  g.path_hook = hook;
  if(cwd) { g_what = "set_cur_dir"; int s = evfs_set_cur_dir(cwd); MC_CHECK(s == EVFS_OK, "changing to '%s' in a jail at '%s' fails: %s", cwd, g_root, EN(s)); }
}

static void one(const char *p, bool all) {
  mem_fault(&g, ~0u, 1, EVFS_ERR_NO_FILE, true);
  for(int op = 0; op < 10; op++) { act(op, p); mc_tick(); }
  mem_clear_fault(&g);
}

static void s_paths(void) {
  static const char *cwds[] = { "/", "/a", "a/b" };
  bool dos = mc_choose(2); int root = mc_choose(8); const char *cwd = cwds[mc_choose(3)];
  const char *alpha = dos ? "/.aD:" : "/\\.ab"; int na = 5, max = mc_tier(6, 7);
  static bool done; (void)done;
  char p[16]; int n = 0;
  while(n < max) { int c = mc_choose(na + 1); if(c == 0) break; p[n++] = alpha[c - 1]; }
  p[n] = 0;
  mount(dos, root, cwd);
  mc_op("all operations on '%s' in a jail at '%s', standing in '%s'", mc_str(p), mc_str(g_root), cwd);
  one(p, false);
}

static void s_segments(void) {
  static const char *seg[] = { "..", ".", "a", "..a", "...", "C:", "" };
  static const char *cwds[] = { "/", "/a", "/a/b" };
  bool dos = mc_choose(2); int root = mc_choose(8); const char *cwd = cwds[mc_choose(3)];
  static const char *lead[] = { "", "/", "\\", "D:", "D:/" };
  char p[200]; strcpy(p, lead[mc_choose(5)]);
  int sep = mc_choose(2), k = mc_tier(4, 5);
  for(int i = 0; i < k; i++) { int c = mc_choose(8); if(c == 7) break; if(i) strcat(p, sep ? "\\" : "/"); strcat(p, seg[c]); }
  mount(dos, root, cwd);
  mc_op("all operations on '%s' in a jail at '%s', standing in '%s'", mc_str(p), mc_str(g_root), cwd);
  one(p, false);
}

/* every length around the path limit, and paths that only fit after normalization */
static void s_long(void) {
  bool dos = mc_choose(2); int root = mc_choose(8); int kind = mc_choose(8);
  static const char *cwds[] = { "/", "/a/b" };
  const char *cwd = cwds[mc_choose(2)];
  int n = 180 + mc_choose(120);
  char p[1024] = "";
  switch(kind) {
    case 0: p[0] = '/'; memset(p + 1, 'n', (size_t)n - 1); p[n] = 0; break;
    case 1: memset(p, 'n', (size_t)n); p[n] = 0; break;
    case 2: memset(p, 'n', (size_t)n); strcpy(p + n, "/../../../../etc"); break;
    case 3: for(int i = 0; i < n / 3; i++) strcat(p, "../"); strcat(p, "etc"); break;
    case 4: for(int i = 0; i < n / 2; i++) strcat(p, i & 1 ? "./" : "n/"); break;
    case 5: strcpy(p, "/"); for(int i = 0; i < n / 5; i++) strcat(p, "n/../"); strcat(p, "../../etc"); break;
    case 6: memset(p, '/', (size_t)n); strcpy(p + n, "../etc"); break;
    case 7: strcpy(p, dos ? "D:" : "/"); memset(p + strlen(p), 'n', (size_t)n); strcat(p, "/../../x"); break;
  }
  mount(dos, root, cwd);
  mc_op("all operations on a %d character path of kind %d in a jail at '%s', standing in '%s'", (int)strlen(p), kind, mc_str(g_root), cwd);
  one(p, false);
}

/* histories: directory changes with hostile spellings on an existing tree, each followed by every operation */
static void s_history(void) {
  static const char *to[] = { "..", "../..", "a", "b", "/a/b", "/", ".", "a/../..", "\\a", "../a/./b/..", "/../a", "nope", "a/f", "....", "//", "" };
  bool dos = mc_choose(2); int root = mc_choose(8);
  mount(dos, root, NULL);
  char t[REF_MAX], nn[REF_MAX]; snprintf(t, sizeof t, "%s/a/f", g_root); ref_normalize(t, dos, nn); mem_put(&g, nn, "f", 1);
  char cwd[REF_MAX] = "/";
  int k = mc_tier(4, 5);
  for(int i = 0; i < k; i++) {
    int c = mc_choose(17);
    if(c == 16) break;
    g_what = "set_cur_dir";
    int s = evfs_set_cur_dir(to[c]);
    mc_op("set_cur_dir '%s' -> %s", to[c], EN(s));
    char buf[EVFS_MAX_PATH]; StringRange r = RANGE_FROM_ARRAY(buf); buf[0] = 0;
    MC_CHECK(evfs_get_cur_dir(&r) == EVFS_OK, "current directory unavailable");
    char norm[REF_MAX]; ref_normalize(buf, dos, norm); bool a; ref_root(buf, dos, &a);
    MC_CHECK(a && !strcmp(norm, buf), "the jail's current directory became '%s'", buf);
    strcpy(cwd, buf);
  }
  static const char *targets[] = { "..", "x", "../../x", "/x", "../", "a/../../../x", "\\..\\x" };
  for(int q = 0; q < 7; q++) one(targets[q], true);
  mc_state(mc_hash(MC_HASH0 + (uint64_t)root * 2 + dos, cwd, strlen(cwd)));
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P07");
  mc_set_cleanup(std_cleanup);
  evfs_init();
  mc_note("all paths over {/,\\,.,a,b} and {/,.,a,D,:} up to length %d, all up to %d segments of {..,.,a,..a,...,C:,empty} after 5 leads, lengths 180..300 in 8 shapes; 8 jail roots x POSIX/drive-letter bases x 3 current directories x 10 operations; all sequences of %d directory changes over 16 spellings", mc_tier(6, 7), mc_tier(4, 5), mc_tier(4, 5));
  mc_note("monitor: every path handed to the base is normalized against the base's current directory by harness/ref.c and must be the jail root or below it; symbolic links in the base are outside the property");
  mc_explore_depth("paths", s_paths, 4);
  mc_explore_depth("segments", s_segments, 4);
  mc_explore_depth("long paths", s_long, 3);
  mc_explore_depth("directory histories", s_history, 3);
  return mc_main_finish();
}
