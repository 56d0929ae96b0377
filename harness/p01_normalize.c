#include "common.h"

static Mem g_m;
static Fence fp, fo;
static bool g_dos;

static void setup(bool dos) {
  static int have = -1;
  if(have != dos) { evfs_unregister_all(); mem_init(&g_m, "mem"); g_m.dos = dos; evfs_register(&g_m.vfs, true); have = dos; }
  g_dos = dos;
}

static void check(const char *path, bool all_sizes) {
  char ref[REF_MAX], again[REF_MAX];
  ref_normalize(path, g_dos, ref);
  int n = (int)strlen(ref), pl = (int)strlen(path);
  char *p = fence_str(&fp, path);
  int lo = all_sizes ? 0 : (n > 2 ? n - 2 : 0);
  for(int size = lo; size <= n + 3; size++) {
    mc_tick();
    char *o = fence_put(&fo, NULL, (size_t)size);
    memset(o, '#', (size_t)size);
    StringRange r; range_init(&r, o, size);
    int st = evfs_path_normalize_ex(p, &r, NULL);
    if(size > n) {
      MC_CHECK(st == EVFS_OK, "%s: normalizing a path into a large enough range fails", POSIX_DOS(g_dos));
      MC_CHECK(!strcmp(o, ref), "%s normalize('%s') gives '%s' instead of '%s'", POSIX_DOS(g_dos), mc_str(path), mc_bytes(o, strnlen(o, (size_t)size)), mc_str(ref));
    } else {
      MC_CHECK(st == EVFS_ERR_OVERFLOW, "%s: normalize('%s') into %d bytes returns %s though the result needs %d", POSIX_DOS(g_dos), mc_str(path), size, EN(st), n + 1);
      if(size > 0) MC_CHECK(memchr(o, 0, (size_t)size), "%s: normalize('%s') into %d bytes leaves the output unterminated", POSIX_DOS(g_dos), mc_str(path), size);
    }
  }
  /* in place, exactly sized and with slack */
  for(int slack = 0; slack <= 4; slack += 4) {
    mc_tick();
    char *o = fence_put(&fo, NULL, (size_t)(pl + 1 + slack));
    memset(o, '#', (size_t)(pl + 1 + slack)); memcpy(o, path, (size_t)pl + 1);
    StringRange r; range_init(&r, o, pl + 1 + slack);
    int st = evfs_path_normalize_ex(o, &r, NULL);
    MC_CHECK(st == EVFS_OK && !strcmp(o, ref), "%s in-place normalize('%s') gives '%s' (%s) instead of '%s'", POSIX_DOS(g_dos), mc_str(path), mc_bytes(o, strnlen(o, (size_t)(pl + 1))), EN(st), mc_str(ref));
  }
  /* idempotence on the real result */
  { char *o = fence_put(&fo, NULL, (size_t)n + 1); char tmp[REF_MAX];
    StringRange r; range_init(&r, o, n + 1);
    evfs_path_normalize_ex(p, &r, NULL); strcpy(tmp, o);
    char *q = fence_str(&fp, tmp); range_init(&r, o, n + 1);
    int st = evfs_path_normalize_ex(q, &r, NULL); strcpy(again, o);
    /* a segment with a colon that ends up first reads as a drive letter; such names can't exist there */
    bool drive_like = g_dos && tmp[0] && tmp[1] == ':' && path[1] != ':';
    MC_CHECK(drive_like || (st == EVFS_OK && !strcmp(again, tmp)), "%s: normalizing '%s' twice differs", POSIX_DOS(g_dos), mc_str(path)); }
  mc_state(mc_hash(MC_HASH0 + g_dos, ref, (size_t)n));
  if(pl > 5) mc_sample("normalize('%s') == '%s' (%s)", mc_str(path), mc_str(ref), POSIX_DOS(g_dos));
  fence_off(&fo); fence_off(&fp);
}

/* every string over the alphabet, all lengths up to the bound */
static void s_strings(void) {
  bool dos = mc_choose(2);
  const char *alpha = dos ? "/\\.aC:" : "/\\.ab";
  int na = (int)strlen(alpha), max = dos ? mc_tier(6, 8) : mc_tier(7, 9);
  char path[32]; int n = 0;
  while(n < max) { int c = mc_choose(na + 1); if(c == 0) break; path[n++] = alpha[c - 1]; }
  path[n] = 0;
  setup(dos);
  mc_op("normalize '%s' (%s)", mc_str(path), POSIX_DOS(dos));
  check(path, true);
}

/* sequences of interesting segments with interesting separators */
static void s_segments(void) {
  static const char *seg[] = { "a", "..", ".", "..a", "...", ".a", "b.", "" };
  static const char *root[] = { "", "/", "//", "\\/", "C:", "C:/", "c:\\\\", "/C:/", "0:" };
  bool dos = mc_choose(2);
  const char *rt = root[mc_choose(9)];
  int k = mc_tier(5, 6);
  char path[128]; strcpy(path, rt);
  int sep = mc_choose(2);
  for(int i = 0; i < k; i++) {
    int c = mc_choose(9);
    if(c == 8) break;
    if(i) strcat(path, sep ? "\\" : "/");
    strcat(path, seg[c]);
  }
  setup(dos);
  mc_op("normalize '%s' (%s)", mc_str(path), POSIX_DOS(dos));
  check(path, false);
}

/* around the 32-segment switch to the allocating algorithm, long roots included; with allocation failure */
static void s_long(void) {
  static const char *seg[] = { "a", "..", ".", "..a", "..." };
  static const char *lead[] = { "", "../", "../../", "a/../" };
  static const int roots[] = { 0, 1, 2, 14, 15, 16, 17, 40 };
  bool dos = mc_choose(2);
  int pre = 27 + mc_choose(9);
  int fill = mc_choose(3);      /* names, dots, parents */
  int rlen = roots[mc_choose(8)];
  const char *ld = lead[mc_choose(4)];
  char path[1024] = "";
  if(dos && rlen) strcat(path, "d:");
  for(int i = 0; i < rlen; i++) strcat(path, i & 1 ? "\\" : "/");
  strcat(path, ld);
  for(int i = 0; i < pre; i++) strcat(path, fill == 0 ? "n/" : fill == 1 ? (i % 3 ? "./" : "m/") : (i % 4 == 3 ? "../" : "p/"));
  int k = mc_tier(3, 4);
  for(int i = 0; i < k; i++) { strcat(path, seg[mc_choose(5)]); if(i < k - 1) strcat(path, "/"); }
  setup(dos);
  mc_op("normalize '%s' (%s)", mc_str(path), POSIX_DOS(dos));
  check(path, false);
  /* allocation failure: error or right answer, never a wrong path */
  char ref[REF_MAX]; ref_normalize(path, dos, ref);
  mc_alloc_reset(); mc_alloc_track(true);
  for(int at = 1; at <= 3; at++) {
    char o[1200]; StringRange r = RANGE_FROM_ARRAY(o); o[0] = 0;
    mc_alloc_fail_at(at);
    int st = evfs_path_normalize_ex(path, &r, NULL);
    bool hit = mc_alloc_failed();
    mc_alloc_fail_at(0);
    MC_CHECK(mc_alloc_live() == 0, "normalizing leaks memory");
    if(!hit) break;
    /* keeping the root as written when there is no memory to reduce it is tolerated */
    MC_CHECK(st != EVFS_OK || rlen + (dos ? 2 : 0) >= 16 || !strcmp(o, ref), "normalize('%s') reports success without memory but gives '%s'", mc_str(path), mc_str(o));
  }
  mc_alloc_track(false);
}

/* every short shape stretched past the switch by segments that cancel out: the long algorithm must agree with the short one */
static void s_stretched(void) {
  static const char *seg[] = { "a", "..", ".", "..a", "b." };
  static const char *root[] = { "", "/", "\\/", "C:/", "C:" };
  bool dos = mc_choose(2);
  const char *rt = root[mc_choose(5)];
  int fill = mc_choose(2), at = mc_choose(3);  /* before, in the middle, after */
  int k = mc_tier(5, 6), n = 0, pick[8];
  while(n < k) { int c = mc_choose(6); if(c == 5) break; pick[n++] = c; }
  char path[1024], plain[128], pad[256] = ""; strcpy(path, rt); strcpy(plain, rt);
  for(int i = 0; i < (fill ? 17 : 34); i++) strcat(pad, fill ? "q/../" : "./");
  int where = at == 0 ? 0 : at == 1 ? (n + 1) / 2 : n;
  for(int i = 0; i <= n; i++) {
    if(i == where) strcat(path, pad);
    if(i < n) { strcat(path, seg[pick[i]]); strcat(path, "/"); strcat(plain, seg[pick[i]]); strcat(plain, "/"); }
  }
  setup(dos);
  mc_op("normalize '%s' (%s)", mc_str(path), POSIX_DOS(dos));
  check(path, false);
  char a[600], b[600]; StringRange ra = RANGE_FROM_ARRAY(a), rb = RANGE_FROM_ARRAY(b);
  if(evfs_path_normalize_ex(path, &ra, NULL) != EVFS_OK || evfs_path_normalize_ex(plain, &rb, NULL) != EVFS_OK) mc_fail("normalizing fails with enough room");
  if(strcmp(rt, "C:") || dos) MC_CHECK(!strcmp(a, b), "a long path normalizes to '%s' but its short equivalent '%s' to '%s'", mc_str(a), mc_str(plain), mc_str(b));
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P01");
  evfs_init();
  mc_note("Strings over {/,\\,.,a,b} up to length %d and {/,\\,.,a,C,:} up to length %d; up to %d segments from {a,..,.,..a,...,.a,b.,empty}; 27..39 segment paths across the 32-segment switch", mc_tier(7, 9), mc_tier(6, 8), mc_tier(5, 6));
  mc_note("Oracle: an independent segment-stack normalizer (harness/ref.c) written from the documentation; memory safety by ASan-poisoned fences");
  mc_explore("strings", s_strings);
  mc_explore("segments", s_segments);
  mc_explore("long", s_long);
  mc_explore("stretched", s_stretched);
  return mc_main_finish();
}
