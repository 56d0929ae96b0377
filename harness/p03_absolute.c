/* P03: evfs_vfs_path_absolute for every enumerated path x current directory x output size x placement. */
#include "common.h"
#include "evfs_internal.h"
#include "evfs/shim/shim_jail.h"

static Mem g_m;
static char *A; /* arena */
#define ARENA 1400

static void setup(bool dos, const char *cwd) {
  static int have = -1;
  if(have != dos) { evfs_unregister_all(); mem_init(&g_m, "mem"); g_m.dos = dos; evfs_register(&g_m.vfs, true); have = dos; }
  strcpy(g_m.cwd, cwd); g_m.ops = 0;
}

/* po/ao: offsets of path and output in one arena; separate arenas when po < 0 */
static Fence fa, fpth;
static void one(const char *cwd, const char *path, bool dos, int po, int ao, int size, const char *ref) {
  int pl = (int)strlen(path), cl = (int)strlen(cwd), rl = (int)strlen(ref);
  static char img[ARENA], before[ARENA];
  char *p, *a, *base; int total;
  memset(img, 0x7e, sizeof img);
  bool overlap = po >= 0;
  if(!overlap) {
    p = fence_str(&fpth, path);
    total = size; ao = 0; base = a = fence_put(&fa, img, (size_t)size);
  } else {
    memcpy(img + po, path, (size_t)pl + 1);
    total = po + pl + 1 > ao + size ? po + pl + 1 : ao + size;
    base = fence_put(&fa, img, (size_t)total);
    p = base + po; a = base + ao;
  }
  memcpy(before, base, (size_t)total);
  StringRange r = {.start = a, .end = a + size};
  mc_tick();
  int st = evfs_vfs_path_absolute(&g_m.vfs, p, &r);
  for(int i = 0; i < total; i++) if(i < ao || i >= ao + size)
    MC_CHECK(base[i] == before[i], "absolute('%s' at %d, cwd '%s', output %d bytes at %d) writes outside the output", mc_str(path), po, mc_str(cwd), size, ao);
  if(!overlap) MC_CHECK(!strcmp(p, path), "absolute() changes its input");
  if(st == EVFS_OK) {
    MC_CHECK(rl < size, "absolute('%s' at %d, cwd '%s', %d bytes at %d) succeeds although '%s' does not fit", mc_str(path), po, mc_str(cwd), size, ao, mc_str(ref));
    MC_CHECK(!memcmp(a, ref, (size_t)rl + 1), "absolute('%s' at %d, cwd '%s', %d bytes at %d) gives '%s' instead of '%s'", mc_str(path), po, mc_str(cwd), size, ao, mc_bytes(a, strnlen(a, (size_t)size)), mc_str(ref));
  } else {
    MC_CHECK(st < 0, "absolute returns %d", st);
    bool abs; ref_root(path, dos, &abs);
    int need = abs ? pl + 1 : pl + 1 + cl + 1;
    if(!overlap) { int n2 = abs ? rl + 1 : cl + 1 + 2; if(rl + 1 > n2) n2 = rl + 1; need = n2; }
    if(pl + cl + 4 < EVFS_MAX_PATH)
      MC_CHECK(size < need, "absolute('%s' at %d, cwd '%s', %d bytes at %d) fails with %s although '%s' fits", mc_str(path), po, mc_str(cwd), size, ao, EN(st), mc_str(ref));
  }
  fence_off(&fa); fence_off(&fpth);
}

static const char *cwds_p[] = {"/", "/a", "/b/cd", "/a.b/..c"};
static const char *cwds_d[] = {"/", "/a", "C:/", "D:/b/c", "C:/a", "/x/y"};

static void all_forms(const char *cwd, const char *path, bool dos) {
  char ref[REF_MAX]; ref_absolute(cwd, path, dos, ref);
  int pl = (int)strlen(path), cl = (int)strlen(cwd);
  int top = pl + cl + 6;
  for(int size = 0; size <= top; size++) {
    one(cwd, path, dos, -1, 0, size, ref);
    if(size == 0) continue;
    one(cwd, path, dos, 0, 0, size, ref);
    for(int k = 1; k <= 3; k++) {
      if(k < size) one(cwd, path, dos, k, 0, size, ref);           /* path begins inside the output */
      bool abs; ref_root(path, dos, &abs);
      if(k <= pl && !abs) one(cwd, path, dos, 0, k, size, ref);            /* output begins inside the path */
    }
  }
}

static void s_abs(void) {
  bool dos = mc_choose(2);
  const char *alpha = dos ? "/.aC:" : "/\\.a";
  int na = (int)strlen(alpha), max = dos ? mc_tier(5, 6) : mc_tier(6, 7);
  const char *cwd = dos ? cwds_d[mc_choose(6)] : cwds_p[mc_choose(4)];
  char path[32]; int n = 0;
  while(n < max) { int c = mc_choose(na + 1); if(c == 0) break; path[n++] = alpha[c - 1]; }
  path[n] = 0;
  setup(dos, cwd);
  mc_op("absolute '%s' cwd '%s' (%s)", mc_str(path), cwd, POSIX_DOS(dos));
  all_forms(cwd, path, dos);
  mc_state(mc_hash(mc_hash(MC_HASH0 + dos, path, strlen(path)), cwd, strlen(cwd)));
  if(n > 3) mc_sample("absolute('%s') with cwd '%s', every output size and overlap", mc_str(path), cwd);
}

/* lengths around EVFS_MAX_PATH and allocation failure of the temporary */
static void s_long(void) {
  bool dos = mc_choose(2);
  static const int cls[] = {1, 10, 120, 240, 252, 253, 254, 255, 256, 300};
  int cl = cls[mc_choose(10)];
  int shape = mc_choose(4);
  int delta = mc_choose(14) - 9;
  char cwd[600], path[600];
  memset(cwd, 'c', (size_t)cl); cwd[0] = '/'; cwd[cl] = 0;
  int pl = 255 - cl + delta; if(pl < 1) { pl = 1 + (delta + 9); }
  int o = 0;
  if(shape == 1) { memcpy(path, "../", 3); o = 3; }
  if(shape == 2 && dos) { memcpy(path, "C:", 2); o = 2; }
  if(shape == 3) { while(o < pl - 1) { path[o++] = '/' ; path[o++] = o & 2 ? 'a' : '.'; } memmove(path, path + 1, (size_t)o - (o > 0)); if(o > 0) o--; }
  while(o < pl) path[o++] = 'p';
  path[o] = 0; pl = o;
  setup(dos, cwd);
  char ref[REF_MAX]; ref_absolute(cwd, path, dos, ref);
  int rl = (int)strlen(ref);
  int sizes[] = {cl, cl + 1, cl + 2, cl + 3, rl - 1, rl, rl + 1, rl + 2, pl, pl + 1, 254, 255, 256, pl + cl + 1, pl + cl + 2, pl + cl + 3};
  mc_op("absolute of %d-byte path (shape %d), %d-byte cwd (%s)", pl, shape, cl, POSIX_DOS(dos));
  for(unsigned i = 0; i < sizeof sizes / sizeof *sizes; i++) {
    if(sizes[i] < 0 || sizes[i] > 300) continue;
    one(cwd, path, dos, -1, 0, sizes[i], ref);
    if(sizes[i] > 0) { one(cwd, path, dos, 0, 0, sizes[i], ref); one(cwd, path, dos, 2, 0, sizes[i], ref); one(cwd, path, dos, 0, 2, sizes[i], ref); }
    /* temporary cannot be had */
    static char out[400]; StringRange r = {.start = out, .end = out + sizes[i]};
    memset(out, 0x55, sizeof out);
    mc_alloc_track(true); mc_alloc_fail_at(1);
    int st = evfs_vfs_path_absolute(&g_m.vfs, path, &r);
    mc_alloc_fail_at(0); mc_alloc_track(false);
    MC_CHECK(mc_alloc_live() == 0, "absolute leaks memory");
    MC_CHECK(st != EVFS_OK || (rl < sizes[i] && !strcmp(out, ref)), "absolute with failing allocation succeeds with a wrong result");
  }
  mc_state(mc_hash(MC_HASH0, path, (size_t)pl));
}

/* a current directory that cannot be had */
static void s_nocwd(void) {
  static const char *paths[] = {"a", "", "..", "C:a", "/a", "a/b"};
  const char *path = paths[mc_choose(6)];
  bool dos = mc_choose(2); int form = mc_choose(3); int nth = 1 + mc_choose(2);
  setup(dos, "/cwd");
  char buf[64]; strcpy(buf, path);
  StringRange r = {.start = form == 1 ? buf : form == 2 ? buf + 1 : (char[64]){0}, .end = 0};
  static char out[64]; if(form == 0) r.start = out;
  r.end = r.start + 40;
  mem_fault(&g_m, MF_BIT(MF_GETCWD), nth, EVFS_ERR_IO, false);
  int st = evfs_vfs_path_absolute(&g_m.vfs, buf, &r);
  bool fired = g_m.fired; mem_clear_fault(&g_m);
  mc_op("absolute '%s' form %d with failing getcwd -> %s", path, form, EN(st));
  if(fired) MC_CHECK(st < 0, "absolute succeeds although the current directory is unavailable");
  mc_state((uint64_t)st + form * 100);
}

/* get_cur_dir of the library's own file systems: exact text or an error, at every size */
void backends_cwd(void);

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P03");
  evfs_init();
  mc_note("paths over {'/', '\\', '.', 'a'} to length %d (POSIX) and {'/', '.', 'a', 'C', ':'} to length %d (drive letters), 4/6 current directories, every output size from 0 to path+cwd+6, output separate, equal to, before and inside the input", mc_tier(6, 7), mc_tier(5, 6));
  mc_note("paths and current directories around the 256-byte maximum in 4 shapes");
  mc_explore("every path, cwd, size and placement", s_abs);
  mc_explore("lengths around the path limit", s_long);
  mc_explore("current directory unavailable", s_nocwd);
  backends_cwd();
  return mc_main_finish();
}

#include "images.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_trace.h"
#include <unistd.h>
#include <sys/stat.h>

static Img img_t, img_r;
static int rep_null(const char *b, void *ctx) { (void)b; (void)ctx; return EVFS_OK; }
static void s_backend(void) {
  std_cleanup();
  int be = mc_choose(6), deep = mc_choose(4);
  static const char *dirs[] = {"/", "/a", "/a/bb", "/a/bb/longer-directory-name"};
  const char *want = dirs[deep], *vfsn = "x";
  mem_init(&g_m, "mem"); mem_mkdir(&g_m, "/a"); mem_mkdir(&g_m, "/a/bb"); mem_mkdir(&g_m, "/a/bb/longer-directory-name"); mem_mkdir(&g_m, "/jail");
  mem_mkdir(&g_m, "/jail/a"); mem_mkdir(&g_m, "/jail/a/bb"); mem_mkdir(&g_m, "/jail/a/bb/longer-directory-name");
  evfs_register(&g_m.vfs, true);
  tar_start(&img_t);
  tar_add(&img_t, "a/", 0, '5', 0, 0, 1); tar_add(&img_t, "a/bb/", 0, '5', 0, 0, 1); tar_add(&img_t, "a/bb/longer-directory-name/", 0, '5', 0, 0, 1);
  tar_end(&img_t, 2);
  RomNode rn[] = {{"", RN_DIR, -1}, {"a", RN_DIR, 0}, {"bb", RN_DIR, 1}, {"longer-directory-name", RN_DIR, 2}};
  rom_build(&img_r, rn, 4, "vol");
  char expect[1200]; strcpy(expect, want);
  int st = EVFS_OK;
  const char *names[] = {"jail", "tar file", "tar resource", "romfs", "stdio", "trace"};
  switch(be) {
    case 0: st = evfs_register_jail("x", "mem", "/jail", true); break;
    case 1: { mem_put(&g_m, "/t.tar", img_t.d, img_t.n); EvfsFile *f = NULL; evfs_open("/t.tar", &f, EVFS_READ); st = evfs_register_tar_fs("x", f, true); break; }
    case 2: st = evfs_register_tar_rsrc_fs("x", img_t.d, (size_t)img_t.n, true); break;
    case 3: st = evfs_register_rsrc_romfs("x", img_r.d, (size_t)img_r.n, true); break;
    case 4: { st = evfs_register_stdio(true); vfsn = "stdio"; char b[900]; snprintf(b, sizeof b, "%s/a", mc_scratch()); mkdir(b, 0755); strcat(b, "/bb"); mkdir(b, 0755); strcat(b, "/longer-directory-name"); mkdir(b, 0755);
              snprintf(expect, sizeof expect, "%s%s", mc_scratch(), deep ? want : ""); break; }
    case 5: st = evfs_register_trace("x", "mem", rep_null, NULL, true); break;
  }
  MC_CHECK(st == EVFS_OK, "cannot register the %s file system: %s", names[be], EN(st));
  st = evfs_set_cur_dir_ex(expect, vfsn);
  MC_CHECK(st == EVFS_OK, "%s: cannot change to the existing directory '%s': %s", names[be], want, EN(st));
  Evfs *v = evfs_find_vfs(vfsn);
  int n = (int)strlen(expect);
  static Fence fb; char fill[1400]; memset(fill, 0x7e, sizeof fill);
  mc_op("%s in '%s': get_cur_dir and absolute at every size", names[be], want);
  static const char *rel[] = {"f", "..", "../a/../zz", "."};
  for(int size = 0; size <= n + 4; size++) {
    char *b = fence_put(&fb, fill, (size_t)size);
    StringRange r = {.start = b, .end = b + size};
    mc_tick();
    st = evfs_get_cur_dir_ex(&r, vfsn);
    if(size > n) MC_CHECK(st == EVFS_OK && !strcmp(b, expect), "%s: current directory read into %d bytes fails or differs (%s)", names[be], size, EN(st));
    else MC_CHECK(st < 0, "%s: current directory '%s' is reported as read into %d bytes", names[be], want, size);
    fence_off(&fb);
  }
  for(int i = 0; i < 4; i++) {
    char ref[REF_MAX]; ref_absolute(expect, rel[i], false, ref); int rl = (int)strlen(ref);
    for(int size = 0; size <= n + (int)strlen(rel[i]) + 5; size++) for(int ov = 0; ov < 2; ov++) {
      char tmp[1400]; strcpy(tmp, rel[i]);
      int cap = size > (int)strlen(rel[i]) + 1 ? size : (int)strlen(rel[i]) + 1;
      char *b = fence_put(&fb, ov ? tmp : fill, (size_t)(ov ? cap : size));
      StringRange r = {.start = b, .end = b + size};
      if(size > EVFS_MAX_PATH) { fence_off(&fb); continue; }
      mc_tick();
      st = evfs_vfs_path_absolute(v, ov ? b : rel[i], &r);
      if(st == EVFS_OK) MC_CHECK(rl < size && !strcmp(b, ref), "%s: absolute('%s') in '%s' with %d bytes gives a wrong result", names[be], rel[i], want, size);
      else MC_CHECK(size <= n || (ov && size < n + (int)strlen(rel[i]) + 2) || size <= rl || n + (int)strlen(rel[i]) + 2 > EVFS_MAX_PATH, "%s: absolute('%s') in '%s' fails with %d bytes (%s)", names[be], rel[i], want, size, EN(st));
      fence_off(&fb);
    }
  }
  if(be == 4 && chdir("/")) mc_fail("chdir");
  mc_state(mc_hash(MC_HASH0 + be, want, strlen(want)));
}
void backends_cwd(void) { mc_note("current directory of the jail, tar, romfs, stdio and trace file systems at every buffer size"); mc_explore("file systems' current directory", s_backend); }
