/* P14: systematically damaged tar images, through the iterators and both file systems. */
#include "common.h"
#include "images.h"
#include "evfs/tar_iter.h"
#include "evfs/tar_iter_rsrc.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"

static Mem g_m;
static Img base, im;
static Fence fimg;
static const char *names[] = {"/a", "/d", "/d/b", "/c.txt", "/zz", "/", "/d/", ""};

/* Does the header at this position carry the format's magic and the checksum of its bytes? */
static bool valid_head(long off) {
  if(off < 0 || off + 512 > im.n || memcmp(im.d + off + 257, "ustar  ", 8)) return false;
  unsigned sum = 0; char f[9]; memcpy(f, im.d + off + 148, 8); f[8] = 0;
  for(int i = 0; i < 500; i++) sum += i >= 148 && i < 156 ? ' ' : im.d[off + i];
  unsigned sum12 = sum; for(int i = 500; i < 512; i++) sum12 += im.d[off + i];  /* the twelve bytes of padding may or may not count */
  unsigned want = (unsigned)strtoul(f, NULL, 8);
  return want == sum || want == sum12;
}
/* The bytes served must be those behind some valid archive header, wholly inside the image. */
static bool plausible(const unsigned char *got, int size) {
  for(int off = 0; off + 512 + size <= im.n; off++) if(valid_head(off) && (!size || !memcmp(im.d + off + 512, got, (size_t)size))) return true;
  return false;
}

static void use(int mem, const char *what) {
  static unsigned char buf[1 << 16];
  for(int i = 0; i < 8; i++) {
    EvfsInfo inf; const char *p = names[i];
    mc_tick();
    int st = evfs_stat_ex(p, &inf, "tar");
    if(st == EVFS_OK && !(inf.type & EVFS_FILE_DIR)) MC_CHECK((long)inf.size >= 0 && (long)inf.size <= im.n, "%s: '%s' has size %ld in an image of %d bytes", what, p, (long)inf.size, im.n);
    EvfsFile *f = NULL;
    st = evfs_open_ex(p, &f, EVFS_READ, "tar");
    if(st != EVFS_OK) { MC_CHECK(st < 0, "%s: open returns %d", what, st); continue; }
    long size = evfs_file_size(f);
    MC_CHECK(size >= 0 && size <= im.n - 512, "%s: '%s' opens with size %ld in an image of %d bytes", what, p, size, im.n);
    int pos = 0; ptrdiff_t r;
    for(int n = 0; (r = evfs_file_read(f, buf + pos, 300)) > 0; n++) { pos += (int)r; MC_CHECK(pos <= size, "%s: '%s' yields more than its size", what, p); }
    MC_CHECK(r == 0 && pos == size, "%s: '%s' of size %ld ends after %d (%d)", what, p, size, pos, (int)r);
    MC_CHECK(plausible(buf, pos), "%s: '%s' yields bytes that are not those of a member with a valid header", what, p);
    for(int org = 0; org < 3; org++) for(int k = 0; k < 4; k++) {
      evfs_off_t o = (evfs_off_t[]){0x7fffffff, -0x7fffffff - 1, size, -1}[k];
      evfs_file_seek(f, o, (EvfsSeekDir[]){EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}[org]);
      long t = evfs_file_tell(f);
      MC_CHECK(t >= 0 && t <= size, "%s: seek leaves '%s' at %ld of %ld", what, p, t, size);
      r = evfs_file_read(f, buf, 8);
      MC_CHECK(r >= 0 && r <= size - t, "%s: read at %ld of %ld gives %d", what, t, size, (int)r);
    }
    if(mem) { uint8_t *a; if(evfs_file_ctrl(f, EVFS_CMD_GET_RSRC_ADDR, &a) == EVFS_OK) {
      unsigned char *b0 = (unsigned char *)fimg.arena;
      (void)b0; volatile unsigned char x; if(size) { x = a[0]; x = a[size - 1]; } (void)x; } }
    evfs_file_close(f);
  }
}

static void iterate(int mem, uint8_t *img, const char *what) {
  long last = -1; int n = 0;
  if(mem) {
    TarRsrcIterator it; tar_rsrc_iter_init(&it, img, (size_t)im.n);
    for(bool ok = tar_rsrc_iter_begin(&it); ok; ok = tar_rsrc_iter_next(&it)) {
      mc_tick();
      MC_CHECK((long)it.header_offset > last && (long)it.header_offset + 512 + (long)it.file_size <= im.n && (ptrdiff_t)it.file_size >= 0, "%s: iteration gives header %ld size %ld", what, (long)it.header_offset, (long)it.file_size);
      MC_CHECK(valid_head((long)it.header_offset), "%s: iteration accepts the header at %ld, whose magic or checksum is wrong", what, (long)it.header_offset);
      last = (long)it.header_offset; MC_CHECK(++n <= im.n / 512, "%s: iteration does not end", what);
    }
    for(int o = -1; o <= im.n + 1; o += 37) { tar_rsrc_iter_seek(&it, o); tar_rsrc_iter_next(&it); }
  } else {
    TarFileIterator it; EvfsFile *f; MC_CHECK(evfs_open_ex("/x.tar", &f, EVFS_READ, "mem") == EVFS_OK, "open");
    tar_iter_init(&it, f);
    for(bool ok = tar_iter_begin(&it); ok; ok = tar_iter_next(&it)) {
      mc_tick();
      MC_CHECK(it.header_offset > last && (long)it.header_offset + 512 + (long)it.file_size <= im.n && it.file_size >= 0, "%s: iteration gives header %ld size %ld", what, (long)it.header_offset, (long)it.file_size);
      MC_CHECK(valid_head((long)it.header_offset), "%s: iteration accepts the header at %ld, whose magic or checksum is wrong", what, (long)it.header_offset);
      last = it.header_offset; MC_CHECK(++n <= im.n / 512, "%s: iteration does not end", what);
    }
    evfs_file_close(f);
  }
}

static void try_image(const char *what) {
  for(int mem = 0; mem < 2; mem++) {
    mc_alloc_track(true);
    uint8_t *img = NULL; EvfsFile *f = NULL; int st;
    g_m.ops = 0; g_m.op_limit = 200000;
    if(mem) img = (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n); else mem_put(&g_m, "/x.tar", im.d, im.n);
    iterate(mem, img, what);
    if(mem) st = evfs_register_tar_rsrc_fs("tar", img, (size_t)im.n, true);
    else { MC_CHECK(evfs_open_ex("/x.tar", &f, EVFS_READ, "mem") == EVFS_OK, "open"); st = evfs_register_tar_fs("tar", f, true); }
    mc_tick();
    if(st == EVFS_OK) {
      use(mem, what);
      evfs_unregister(evfs_find_vfs("tar"));
    } else {
      MC_CHECK(st < 0 && !evfs_find_vfs("tar"), "%s: failed registration leaves the file system in the list", what);
      if(!mem) { MC_CHECK(g_m.open_files == 1, "%s: failed registration closes the caller's file", what); evfs_file_close(f); }
    }
    MC_CHECK(g_m.open_files == 0, "%s: archive file left open", what);
    MC_CHECK(mc_alloc_live() == 0, "%s: memory leaked", what);
    fence_off(&fimg);
  }
  mc_state(mc_hash(MC_HASH0, im.d, (size_t)im.n));
}

static unsigned char pat[2048];
static void std_archive(void) {
  tar_start(&base);
  tar_add(&base, "a", 0, '0', pat, 5, 7);
  tar_add(&base, "d/", 0, '5', 0, 0, 7);
  tar_add(&base, "d/b", 0, '0', pat + 9, 513, 7);
  tar_add(&base, "c.txt", 0, '0', pat + 30, 512, 7);
  tar_end(&base, 1);
}
static const int hdrs[] = {0, 1024, 1536, 3072};

static void s_truncate(void) {
  im = base; im.n = mc_choose(base.n + 1);
  mc_op("archive of %d bytes cut to %d", base.n, im.n);
  try_image("truncated archive");
}
static void s_byte(void) {
  static const unsigned char vals[] = {0, 0xff, '0', '7', '9', '-', ' ', 0x80, '/', '.', '1', '2', '5', 'x'};
  im = base;
  int h = mc_choose(4), off = mc_choose(512), v = mc_choose(mc_tier(14, 256)), fix = mc_choose(2);
  unsigned char val = mc_thorough() ? (unsigned char)v : vals[v];
  im.d[hdrs[h] + off] = val;
  if(fix) tar_fix(im.d + hdrs[h]);
  mc_op("header %d byte %d = %02x%s", h, off, val, fix ? ", checksum recomputed" : "");
  try_image("archive with a changed header byte");
}
static const char *sz[] = {"77777777777", "777777777777", "37777777777", "20000000000", "17777777777", "40000000000", "-0000000001", "-7777777777", "00000000000", "00000001000", "00000010000", "00000005000", "00000007000", "           7", "0x1ff", "\200\0\0\0\0\0\0\0\0\0\2\0", "99999999999", "+0000000012", "\n000000001", "00000006777", "00000006776", "00000001001", "1000000000000000000000"};
static void s_size(void) {
  im = base; int h = mc_choose(4), k = mc_choose((int)(sizeof sz / sizeof *sz));
  memset(im.d + hdrs[h] + 124, 0, 12);
  memcpy(im.d + hdrs[h] + 124, sz[k], k == 15 ? 12 : strlen(sz[k]) > 12 ? 12 : strlen(sz[k]));
  int after = mc_choose(3);
  if(after == 1) im.d[hdrs[h] + 136] = '7';                       /* digits run on into the next field */
  if(after == 2) memset(im.d + hdrs[h] + 136, '1', 12);
  tar_fix(im.d + hdrs[h]);
  int cut = mc_choose(6); im.n -= (int[]){0, 1, 512, 1023, 1024, 1025}[cut];
  mc_op("header %d size field '%s'%s, cut %d", h, mc_bytes(sz[k], strlen(sz[k])), after ? " unterminated" : "", cut);
  try_image("archive with a changed size");
}
static void s_name(void) {
  static const char *nm[] = {"", "/", "//", ".", "./", "./.", "..", "../", "/..", "a/", "a", "d", "d//b", "././a", "/./a", "a\\b"};
  im = base; int h = mc_choose(4), k = mc_choose(19), p = mc_choose(5), ty = mc_choose(4);
  unsigned char *x = im.d + hdrs[h];
  memset(x, 0, 100);
  if(k < 16) strcpy((char *)x, nm[k]); else memset(x, k == 16 ? 'q' : k == 17 ? '/' : '.', 100);
  memset(x + 345, 0, 155);
  if(p) memset(x + 345, p == 1 ? '/' : p == 2 ? 'p' : '.', p == 3 ? 2 : p == 4 ? 1 : 155);
  x[156] = (unsigned char)"05\0002"[ty];
  tar_fix(x);
  if(mc_choose(2)) { memset(x + 148, '7', 8); }
  mc_op("header %d name %d prefix %d type %c", h, k, p, x[156] ? x[156] : '-');
  try_image("archive with a strange name");
}
static void block(int k) {
  unsigned char *x = im.d + im.n; int n = im.n;
  switch(k) {
    case 0: memset(x, 0, 512); im.n += 512; break;
    case 1: tar_add(&im, n ? "d/b" : "a", 0, '0', pat, 0, 1); break;
    case 2: tar_add(&im, "a", 0, '0', pat, 0, 1); memcpy(x + 124, "00000001000", 11); tar_fix(x); break;
    case 3: tar_add(&im, "c.txt", 0, '0', pat, 0, 1); memcpy(x + 124, "77777777777", 11); tar_fix(x); break;
    case 4: tar_add(&im, "d/", 0, '5', pat, 0, 1); break;
    case 5: memset(x, 0xa7, 512); im.n += 512; break;
    case 6: tar_add(&im, "d/b", 0, '0', pat, 0, 1); memcpy(x + 124, "-0000001000", 11); tar_fix(x); break;
    case 7: tar_add(&im, "zz", 0, '2', pat, 0, 1); memcpy(x + 124, "00000001001", 11); tar_fix(x); break;
    case 8: tar_add(&im, "a", 0, '0', pat, 0, 1); memset(x + 100, '7', 57); tar_fix(x); break;
    case 9: tar_add(&im, "c.txt", 0, '0', pat, 0, 1); memset(x + 124, '0', 11); x[134] = '1'; x[148]++; break;
  }
}
static void s_blocks(void) {
  int max = mc_tier(4, 5);
  tar_start(&im);
  for(int i = 0; i < max; i++) { int k = mc_choose(11); if(k == 10) break; block(k); }
  int cut = mc_choose(7), c = (int[]){0, 1, 11, 12, 13, 500, 511}[cut];
  if(c > im.n) mc_prune();
  im.n -= c;
  mc_op("%d bytes built from enumerated blocks, cut by %d", im.n, c);
  try_image("archive of arbitrary blocks");
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P14");
  mc_set_cleanup(std_cleanup);
  evfs_init();
  for(int i = 0; i < (int)sizeof pat; i++) pat[i] = (unsigned char)(i * 37 + i / 251 * 3 + 1);
  std_archive();
  mem_init(&g_m, "mem");
  void cl(void); mc_set_cleanup(cl);
  mc_note("a %d byte archive cut at every length; every header byte x %d values x checksum kept or recomputed; %d size fields x members x run-on x cut; %d odd names; every archive of up to %d blocks from 10 kinds x 7 cuts; memory image fenced by the address sanitizer",
          base.n, mc_tier(14, 256), (int)(sizeof sz / sizeof *sz), 19, mc_tier(4, 5));
  mc_explore("cut at every length", s_truncate);
  mc_explore("every header byte", s_byte);
  mc_explore("size fields", s_size);
  mc_explore("names and types", s_name);
  mc_explore("arbitrary blocks", s_blocks);
  return mc_main_finish();
}
void cl(void) { std_cleanup(); mem_free(&g_m); mem_init(&g_m, "mem"); evfs_register(&g_m.vfs, true); fence_off(&fimg); }
