/* P19: position, read, size and end-of-file on every read-only back end, for every sequence of operations. */
#include "common.h"
#include "images.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"

static Mem g_m;
static Img im;
static Fence fimg, fb;
static unsigned char pat[2048];
static int rep_null(const char *s, void *c) { (void)s; (void)c; return 0; }

static void mount(int be, int size) {
  int st = EVFS_OK; EvfsFile *f = NULL;
  if(be < 2) { tar_start(&im); tar_add(&im, "x", 0, '0', pat + 600, 300, 1); tar_add(&im, "f", 0, '0', pat, size, 1); tar_add(&im, "y", 0, '0', pat + 600, 300, 1); tar_end(&im, 2); }
  else { RomNode nd[4] = {{.name = ".", .type = RN_DIR, .parent = -1}, {.name = "x", .type = RN_FILE, .data = pat + 600, .size = 300}, {.name = "f", .type = RN_FILE, .data = pat, .size = size}, {.name = "y", .type = RN_FILE, .data = pat + 600, .size = 300}}; rom_build(&im, nd, 4, "v"); }
  if(!(be & 1)) { mem_put(&g_m, "/img", im.d, im.n); MC_CHECK(evfs_open_ex("/img", &f, EVFS_READ, "mem") == EVFS_OK, "open image"); }
  uint8_t *p = be & 1 ? (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n) : NULL;
  switch(be) {
    case 0: st = evfs_register_tar_fs("ro", f, true); break;
    case 1: st = evfs_register_tar_rsrc_fs("ro", p, (size_t)im.n, true); break;
    case 2: st = evfs_register_romfs("ro", f, true); break;
    case 3: st = evfs_register_rsrc_romfs("ro", p, (size_t)im.n, true); break;
  }
  MC_CHECK(st == EVFS_OK, "mounting fails: %s", EN(st));
}
static const char *bn[] = {"tar file", "tar in memory", "ROM image file", "ROM image in memory"};
static const int sizes[] = {0, 1, 5, 512, 513, 700};

static void s_cursor(void) {
  int be = mc_choose(4), size = sizes[mc_choose(6)], wrap = mc_choose(3), depth = mc_tier(3, 4);
  mc_alloc_track(true);
  mount(be, size);
  const char *vfs = "ro";
  if(wrap == 1) { MC_CHECK(evfs_register_trace("w", "ro", rep_null, NULL, false) == EVFS_OK, "trace"); vfs = "w"; }
  if(wrap == 2) { MC_CHECK(evfs_register_jail("w", "ro", "/", false) == EVFS_OK, "jail"); vfs = "w"; }
  EvfsFile *f; mc_op("%s, file of %d bytes, wrapper %d", bn[be], size, wrap);
  MC_CHECK(evfs_open_ex("/f", &f, EVFS_READ, vfs) == EVFS_OK, "open fails");
  long pos = 0;
  for(int d = 0; d < depth; d++) {
    MC_CHECK(evfs_file_tell(f) == pos, "%s: tell gives %ld instead of %ld (size %d)", bn[be], (long)evfs_file_tell(f), pos, size);
    MC_CHECK(evfs_file_eof(f) == (pos >= size), "%s: end-of-file is %d at %ld of %d", bn[be], evfs_file_eof(f), pos, size);
    MC_CHECK(evfs_file_size(f) == size, "%s: size gives %ld instead of %d", bn[be], (long)evfs_file_size(f), size);
    int op = mc_choose(7 + 8 + 9 + 8);
    if(op < 7) {
      int k = (int[]){0, 1, 4, 511, 512, 513, 1000}[op];
      char fill[1000]; memset(fill, 0xEE, sizeof fill);
      char *b = fence_put(&fb, fill, (size_t)k);
      long want = size - pos < k ? size - pos : k;
      mc_op("read %d at %ld", k, pos);
      ptrdiff_t r = evfs_file_read(f, b, (size_t)k);
      MC_CHECK(r == want, "%s: read of %d bytes at %ld of %d gives %ld", bn[be], k, pos, size, (long)r);
      MC_CHECK(!memcmp(b, pat + pos, (size_t)want), "%s: read of %d bytes at %ld of %d gives wrong bytes", bn[be], k, pos, size);
      for(int i = (int)want; i < k; i++) MC_CHECK((unsigned char)b[i] == 0xEE, "%s: read writes past the bytes it returns", bn[be]);
      fence_off(&fb);
      pos += want;
    } else {
      EvfsSeekDir org; evfs_off_t off;
      if(op < 15) { org = EVFS_SEEK_TO; off = (evfs_off_t[]){0, 1, size - 1, size, size + 1, -1, 0x7fffffff, size / 2}[op - 7]; }
      else if(op < 24) { org = EVFS_SEEK_REL; off = (evfs_off_t[]){0, 1, -1, 2, size, -size, 0x7fffffff, -0x7fffffff - 1, size + 3}[op - 15]; }
      else { org = EVFS_SEEK_REV; off = (evfs_off_t[]){0, 1, size, size + 1, -1, 0x7fffffff, -0x7fffffff - 1, size / 3}[op - 24]; }
      long long t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? pos + (long long)off : (long long)size - off;
      mc_op("seek %ld from %s", (long)off, org == EVFS_SEEK_TO ? "start" : org == EVFS_SEEK_REL ? "position" : "end");
      int st = evfs_file_seek(f, off, org);
      if(t >= 0 && t <= size) { MC_CHECK(st == EVFS_OK, "%s: seek to %lld of %d fails: %s", bn[be], t, size, EN(st)); pos = (long)t; }
      else if(st == EVFS_OK) pos = t < 0 ? 0 : size;        /* clamped */
      else MC_CHECK(st < 0, "%s: seek returns %d", bn[be], st);
    }
    mc_state(mc_hash(MC_HASH0 + be * 8 + wrap, &pos, sizeof pos) + (uint64_t)size * 77);
  }
  MC_CHECK(evfs_file_tell(f) == pos, "%s: tell gives %ld instead of %ld", bn[be], (long)evfs_file_tell(f), pos);
  char b[8]; long want = size - pos < 8 ? size - pos : 8;
  MC_CHECK(evfs_file_read(f, b, 8) == want && !memcmp(b, pat + pos, (size_t)want), "%s: last read at %ld of %d wrong", bn[be], pos, size);
  MC_CHECK(evfs_file_close(f) == EVFS_OK, "close fails");
  if(wrap) evfs_unregister(evfs_find_vfs("w"));
  evfs_unregister(evfs_find_vfs("ro"));
  MC_CHECK(mc_alloc_live() == 0 && g_m.open_files == 0, "%s: something is left open", bn[be]);
  fence_off(&fimg);
}
/* the underlying image file fails or reads short at one point */
static void s_fault(void) {
  int be = mc_choose(2) * 2, size = 600, at = 1 + mc_choose(6), kind = mc_choose(3);
  mc_alloc_track(true);
  mount(be, size);
  EvfsFile *f; MC_CHECK(evfs_open_ex("/f", &f, EVFS_READ, "ro") == EVFS_OK, "open fails");
  mem_fault(&g_m, kind == 2 ? MF_BIT(MF_SEEK) : MF_BIT(MF_READ), at, EVFS_ERR_IO, false);
  if(kind == 1) { g_m.short_io = true; g_m.short_len = 3; }
  long pos = 0; int ops = mc_tier(4, 5);
  for(int d = 0; d < ops; d++) {
    int op = mc_choose(4);
    if(op < 2) {
      int k = op ? 7 : 300; char b[300]; long want = size - pos < k ? size - pos : k;
      mc_op("read %d at %ld", k, pos);
      ptrdiff_t r = evfs_file_read(f, b, (size_t)k);
      if(r >= 0) { MC_CHECK(r <= want && (r == want || g_m.fired) && !memcmp(b, pat + pos, (size_t)r), "%s: read of %d at %ld gives %ld or wrong bytes%s", bn[be], k, pos, (long)r, g_m.fired ? " after a fault" : ""); pos += r; }
      else MC_CHECK(g_m.fired, "%s: read fails without a fault", bn[be]);
    } else { long t = op == 2 ? 10 : 590; mc_op("seek %ld", t); if(evfs_file_seek(f, (evfs_off_t)t, EVFS_SEEK_TO) == EVFS_OK) pos = t; }
    MC_CHECK(evfs_file_tell(f) == pos && evfs_file_eof(f) == (pos == size) && evfs_file_size(f) == size, "%s: position %ld instead of %ld%s", bn[be], (long)evfs_file_tell(f), pos, g_m.fired ? " after a fault" : "");
  }
  evfs_file_close(f);
  fence_off(&fimg);
}
void cl(void) { std_cleanup(); mem_free(&g_m); mem_init(&g_m, "mem"); evfs_register(&g_m.vfs, true); fence_off(&fimg); fence_off(&fb); }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P19");
  mc_set_cleanup(cl); evfs_init();
  for(int i = 0; i < (int)sizeof pat; i++) pat[i] = (unsigned char)(i * 37 + i / 251 * 3 + 1);
  mem_init(&g_m, "mem");
  mc_note("every sequence of %d operations (7 read sizes, 25 seeks including overflowing offsets) on files of 6 sizes x tar and ROM image, file and memory x direct, trace, jail; image-file faults and short reads at every point of %d operations", mc_tier(3, 4), mc_tier(4, 5));
  mc_explore_depth("cursor", s_cursor, 4);
  mc_explore("image faults", s_fault);
  return mc_main_finish();
}
