#include "common.h"

static Mem g_m;
static Fence fp, fo, fh_, ft;

static void setup(bool dos) {
  static int have = -1;
  if(have != dos) { evfs_unregister_all(); mem_init(&g_m, "mem"); g_m.dos = dos; evfs_register(&g_m.vfs, true); have = dos; }
}
static bool is(StringRange *r, const char *base, int start, int len) { return r->start == base + start && r->end == base + start + len; }

static void check_split(const char *path, bool dos) {
  char *p = fence_str(&fp, path);
  int s, n; StringRange r;
  memset(&r, 0, sizeof r);
  MC_CHECK(evfs_path_basename(p, &r) == EVFS_OK, "basename fails");
  ref_basename(p, &s, &n);
  MC_CHECK(is(&r, p, s, n), "basename('%s') gives '%s' instead of '%s'", mc_str(path), r.start >= p && r.end <= p + strlen(p) && r.end >= r.start ? mc_bytes(r.start, (size_t)(r.end - r.start)) : "<outside>", mc_bytes(p + s, (size_t)n));
  memset(&r, 0, sizeof r);
  MC_CHECK(evfs_path_extname(p, &r) == EVFS_OK, "extname fails");
  ref_extname(p, &s, &n);
  MC_CHECK(range_size(&r) == n && (n == 0 || r.start == p + s), "extname('%s') gives '%s' instead of '%s'", mc_str(path), mc_bytes(r.start, (size_t)(r.end - r.start)), mc_bytes(p + s, (size_t)n));
  MC_CHECK(r.start >= p && r.end <= p + strlen(p), "extname('%s') lies outside the path", mc_str(path));
  memset(&r, 0, sizeof r);
  MC_CHECK(evfs_path_dirname_ex(p, &r, NULL) == EVFS_OK, "dirname fails");
  ref_dirname(p, dos, &s, &n);
  MC_CHECK(is(&r, p, s, n), "%s dirname('%s') gives '%s' instead of '%s'", POSIX_DOS(dos), mc_str(path), mc_bytes(r.start, (size_t)(r.end - r.start)), mc_bytes(p + s, (size_t)n));
  bool abs; int rl = ref_root(p, dos, &abs);
  memset(&r, 0, sizeof r);
  bool got = evfs_path_root_component_ex(p, &r, NULL);
  MC_CHECK(got == abs && is(&r, p, 0, rl), "%s root component of '%s' is wrong", POSIX_DOS(dos), mc_str(path));
  MC_CHECK(evfs_path_is_absolute_ex(p, NULL) == abs, "%s absolute test of '%s' is wrong", POSIX_DOS(dos), mc_str(path));
  /* the elements are exactly the non-empty segments after the root of an absolute path */
  const char *q = p + (abs ? rl : 0);
  int st = evfs_vfs_scan_path(&g_m.vfs, p, &r);
  for(;;) {
    while(ref_is_sep(*q)) q++;
    const char *e = q; while(*e && !ref_is_sep(*e)) e++;
    if(e == q) { MC_CHECK(st != EVFS_OK, "scanning '%s' yields an extra element", mc_str(path)); break; }
    MC_CHECK(st == EVFS_OK && r.start == q && r.end == e, "scanning '%s' yields a wrong element", mc_str(path));
    q = e;
    st = evfs_vfs_scan_path(&g_m.vfs, NULL, &r);
  }
  mc_tick(); mc_state(mc_hash(MC_HASH0 + dos, path, strlen(path)));
  fence_off(&fp);
}

static void s_split(void) {
  bool dos = mc_choose(2);
  const char *alpha = dos ? "/\\.aC:" : "/\\.ab";
  int na = (int)strlen(alpha), max = dos ? mc_tier(7, 9) : mc_tier(8, 9);
  char path[32]; int n = 0;
  while(n < max) { int c = mc_choose(na + 1); if(c == 0) break; path[n++] = alpha[c - 1]; }
  path[n] = 0;
  setup(dos);
  mc_op("split '%s' (%s)", mc_str(path), POSIX_DOS(dos));
  check_split(path, dos);
  if(n > 4) mc_sample("basename/dirname/extname/root/scan of '%s' (%s)", mc_str(path), POSIX_DOS(dos));
}

static int pick(char *out, const char *alpha, int max) {
  int n = 0, na = (int)strlen(alpha);
  while(n < max) { int c = mc_choose(na + 1); if(c == 0) break; out[n++] = alpha[c - 1]; }
  out[n] = 0; return n;
}

/* form 0: terminated strings; 1: unterminated sub-ranges; 2: head is followed by junk; 3: joined on top of head;
   4: the string entry point */
static void join_all_sizes(const char *head, int hn, const char *tail, int tn, bool dos, int lo_slack) {
  char ref[REF_MAX]; ref_join(head, hn, tail, tn, dos, ref);
  int n = (int)strlen(ref);
  int lo = lo_slack < 0 ? 0 : (n - lo_slack > 0 ? n - lo_slack : 0);
  for(int form = 0; form < 5; form++) {
    for(int size = lo; size <= n + 4; size++) {
      mc_tick();
      if(form == 3 && size < hn + 1) continue;
      char hb[2048]; memcpy(hb, head, (size_t)hn);
      char *h, *t;
      if(form == 1) { h = fence_put(&fh_, head, (size_t)hn); t = fence_put(&ft, tail, (size_t)tn); }
      else if(form == 2) { memcpy(hb + hn, "/:/", 4); h = fence_put(&fh_, hb, (size_t)hn + 4); t = fence_str(&ft, tail); }
      else { hb[hn] = 0; h = fence_put(&fh_, hb, (size_t)hn + 1); t = fence_str(&ft, tail); }
      char *o = fence_put(&fo, NULL, (size_t)size);
      memset(o, '#', (size_t)size);
      StringRange hr, tr, jr; range_init(&hr, h, hn); range_init(&tr, t, tn); range_init(&jr, o, size);
      if(form == 0) { hr.end++; tr.end++; }
      if(form == 3) { memcpy(o, hb, (size_t)hn + 1); range_init(&hr, o, hn); }
      int st = form == 4 ? evfs_path_join_str_ex(h, t, &jr, NULL) : evfs_path_join_ex(&hr, &tr, &jr, NULL);
      MC_CHECK(st == EVFS_OK || st == EVFS_ERR_OVERFLOW, "join reports %s", EN(st));
      if(st == EVFS_OK)
        MC_CHECK(size > n && !strcmp(o, ref), "%s join('%s','%s') into %d bytes (form %d) reports success with '%s' instead of '%s'", POSIX_DOS(dos), mc_bytes(head, (size_t)hn), mc_bytes(tail, (size_t)tn), size, form, mc_bytes(o, strnlen(o, (size_t)size)), mc_str(ref));
      else
        MC_CHECK(size < hn + 1 + tn + 1 || hn + 1 + tn >= EVFS_MAX_PATH, "%s join('%s','%s') into %d bytes (form %d) fails although it fits", POSIX_DOS(dos), mc_bytes(head, (size_t)hn), mc_bytes(tail, (size_t)tn), size, form);
    }
  }
  fence_off(&fo); fence_off(&fh_); fence_off(&ft);
}

static void s_join(void) {
  bool dos = mc_choose(2);
  char head[16], tail[16];
  int hn = pick(head, dos ? "/aC:" : "/\\a.", mc_tier(4, 5)), tn = pick(tail, dos ? "/a:" : "/a.", mc_tier(3, 4));
  setup(dos);
  mc_op("join '%s' '%s' (%s)", mc_str(head), mc_str(tail), POSIX_DOS(dos));
  join_all_sizes(head, hn, tail, tn, dos, -1);
  if(tn && hn) mc_sample("join('%s','%s') (%s)", head, tail, POSIX_DOS(dos));
  mc_state(mc_hash(mc_hash(MC_HASH0 + 7 + dos, head, (size_t)hn + 1), tail, (size_t)tn));
}
/* around the path length limit */
static void s_join_long(void) {
  int hn = EVFS_MAX_PATH - 6 + mc_choose(10) - mc_choose(2) * 100; int tn = mc_choose(4) + (hn < 200 ? 97 : 0);
  bool slash = mc_choose(2);
  char head[600], tail[300];
  memset(head, 'h', (size_t)hn); head[hn] = 0; if(slash) head[0] = '/';
  memset(tail, 't', (size_t)tn); tail[tn] = 0;
  setup(false);
  mc_op("join of %d and %d characters", hn, tn);
  join_all_sizes(head, hn, tail, tn, false, 3);
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P02");
  evfs_init();
  mc_note("Split helpers: all strings over {/,\\,.,a,b} up to length %d and {/,\\,.,a,C,:} up to length %d", mc_tier(8, 9), mc_tier(7, 9));
  mc_note("Join: all heads up to length %d x tails up to length %d x every output size x 5 calling forms (terminated, unterminated sub-range, followed by separators, in place, string entry point), plus lengths around the path limit", mc_tier(4, 5), mc_tier(3, 4));
  mc_note("basename and extname ignore drive letters (they take no file system); Python os.path is the documented reference");
  mc_explore("split", s_split);
  mc_explore("join", s_join);
  mc_explore("join_long", s_join_long);
  return mc_main_finish();
}
