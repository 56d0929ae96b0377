/* P16: systematically damaged ROM images; the in-memory and the file back end must also agree. */
#include "common.h"
#include "images.h"
#include "evfs/romfs_fs.h"

static Mem g_m;
static Img base, im;
static Fence fimg;
#define NL (EVFS_ROMFS_MAX_NAME_LEN - 1)
static RomNode nd[16]; static int nn;
static int hdrs[32], nh;        /* offsets of all file headers of the base image */
static unsigned char pat[2048];
static uint8_t *g_img;
static uint64_t g_log;
static int budget;

static void log_(const void *p, size_t n) { g_log = mc_hash(g_log, p, n); }
static void logi(long v) { log_(&v, sizeof v); }

static uint32_t be(int at) { uint32_t v = 0; for(int i = 0; i < 4; i++) v = v << 8 | (at + i < im.n ? im.d[at + i] : 0u); return v; }
static int head_len(int h) { int n = 0; while(n < NL && h + 16 + n < im.n && im.d[h + 16 + n]) n++; return 16 + ((n + 1 + 15) & ~15); }
/* Is there a file header at h whose words sum to zero? */
static bool valid_head(int h) {
  if(h < 16 || h + 18 > im.n) return false;
  uint32_t s = 0; for(int i = 0; i < head_len(h); i += 4) s += be(h + i);
  return s == 0;
}
static bool valid_super(void) { if(im.n < 16 || memcmp(im.d, "-rom1fs-", 8) || be(8) > (uint32_t)im.n) return false; uint32_t s = 0; for(int i = 0; i < 512 && i < im.n / 4 * 4; i += 4) s += be(i); return s == 0; }
/* The bytes served are the data behind a file header that passes its checksum. */
static bool somewhere(const unsigned char *got, int size) {
  for(int h = 16; h < im.n; h += 16) if(valid_head(h) && (int)be(h + 8) == size) {
    int at = h + head_len(h);
    if(!size || (at + size <= im.n && !memcmp(im.d + at, got, (size_t)size))) return true;
  }
  return false;
}
static bool listed_name(const char *nm) {
  if(!strcmp(nm, ".") || !strcmp(nm, "..")) return true;
  for(int h = 16; h < im.n; h += 16) if(valid_head(h) && !strncmp((char *)im.d + h + 16, nm, NL)) return true;
  return false;
}

static void file(const char *p, int mem, const char *what) {
  static unsigned char buf[1 << 16];
  EvfsFile *f = NULL; int st = evfs_open_ex(p, &f, EVFS_READ, "rom");
  logi(st);
  if(st != EVFS_OK) { MC_CHECK(st < 0, "%s: open returns %d", what, st); return; }
  long size = evfs_file_size(f); logi(size);
  MC_CHECK(size >= 0 && size <= im.n, "%s: '%s' opens with size %ld in an image of %d bytes", what, mc_str(p), size, im.n);
  int pos = 0; ptrdiff_t r;
  while((r = evfs_file_read(f, buf + pos, 200)) > 0) { mc_tick(); pos += (int)r; MC_CHECK(pos <= size, "%s: '%s' yields more than its size", what, mc_str(p)); }
  MC_CHECK(r == 0 && pos == size, "%s: '%s' of size %ld ends after %d (%d)", what, mc_str(p), size, pos, (int)r);
  MC_CHECK(somewhere(buf, pos), "%s: '%s' yields bytes that are not those of a file with a valid header", what, mc_str(p));
  log_(buf, (size_t)pos);
  for(int org = 0; org < 3; org++) for(int k = 0; k < 4; k++) {
    evfs_file_seek(f, (evfs_off_t[]){0x7fffffff, -0x7fffffff - 1, (evfs_off_t)size, -1}[k], (EvfsSeekDir[]){EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}[org]);
    long t = evfs_file_tell(f);
    MC_CHECK(t >= 0 && t <= size, "%s: seek leaves '%s' at %ld of %ld", what, mc_str(p), t, size);
    r = evfs_file_read(f, buf, 8);
    MC_CHECK(r >= 0 && r <= size - t, "%s: read at %ld of %ld gives %d", what, t, size, (int)r);
  }
  if(mem && size) {
    uint8_t *a = NULL;
    if(evfs_file_ctrl(f, EVFS_CMD_GET_RSRC_ADDR, &a) == EVFS_OK)
      MC_CHECK(a >= g_img && a + size <= g_img + im.n, "%s: resource address of '%s' lies outside the image", what, mc_str(p));
  }
  evfs_file_close(f);
}

static void dir(const char *p, int mem, int depth, const char *what) {
  EvfsDir *d = NULL; EvfsInfo inf;
  int st = evfs_open_dir_ex(p, &d, "rom"); logi(st);
  if(st != EVFS_OK) { MC_CHECK(st < 0, "%s: open_dir returns %d", what, st); return; }
  int n = 0; char sub[600];
  while((st = evfs_dir_read(d, &inf)) == EVFS_OK) {
    mc_tick(); 
    MC_CHECK(++n <= im.n / 16, "%s: listing of '%s' does not end", what, mc_str(p));
    size_t l = strnlen(inf.name, NL + 33); MC_CHECK(l <= NL, "%s: listed name of %d characters", what, (int)l);
    MC_CHECK(listed_name(inf.name), "%s: '%s' lists '%s', which no valid header names", what, mc_str(p), mc_str(inf.name));
    log_(inf.name, l); logi(inf.type); logi(inf.size);
    if(depth > 0 && budget > 0 && strcmp(inf.name, ".") && strcmp(inf.name, "..") && strlen(p) + l + 2 < 200) {
      budget--;
      sprintf(sub, "%s%s%s", p, p[1] ? "/" : "", inf.name);
      if(inf.type & EVFS_FILE_DIR) dir(sub, mem, depth - 1, what); else file(sub, mem, what);
    }
  }
  MC_CHECK(st == EVFS_DONE || st < 0, "%s: directory read returns %d", what, st);
  logi(st);
  evfs_dir_rewind(d); logi(evfs_dir_read(d, &inf));
  evfs_dir_close(d);
}

static void try_image(const char *what) {
  static const char *names[] = {"/", "/a", "/d", "/d/b", "/d/e", "/l", "/s", "/d/../a", "/d/b/c", "/nope", "/d/e/e", ""};
  uint64_t logs[2] = {0};
  for(int mem = 0; mem < 2; mem++) {
    mc_alloc_track(true);
    EvfsFile *f = NULL; int st;
    g_m.ops = 0; g_m.op_limit = 3000000; g_log = MC_HASH0; budget = 60;
    mc_tick();
    if(mem) { g_img = (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n); st = evfs_register_rsrc_romfs("rom", g_img, (size_t)im.n, true); }
    else { mem_put(&g_m, "/x.rom", im.d, im.n); MC_CHECK(evfs_open_ex("/x.rom", &f, EVFS_READ, "mem") == EVFS_OK, "open"); st = evfs_register_romfs("rom", f, true); }
    logi(st == EVFS_OK);
    if(st == EVFS_OK) {
      MC_CHECK(valid_super(), "%s: an image is accepted whose superblock is wrong (magic, checksum, or more bytes declared than there are)", what);
      for(int i = 0; i < 12; i++) {
        EvfsInfo inf; int s2 = evfs_stat_ex(names[i], &inf, "rom"); logi(s2);
        if(s2 == EVFS_OK) { logi(inf.type); logi(inf.size); }
        file(names[i], mem, what);
      }
      dir("/", mem, 3, what); dir("/d", mem, 1, what);
      unsigned on = 1; evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &on, "rom"); dir("/", mem, 1, what); dir("/d", mem, 0, what);
      evfs_unregister(evfs_find_vfs("rom"));
    } else {
      MC_CHECK(st < 0 && !evfs_find_vfs("rom"), "%s: failed registration leaves the file system in the list", what);
      if(!mem) { MC_CHECK(g_m.open_files == 1, "%s: failed registration closes the caller's file", what); evfs_file_close(f); }
    }
    MC_CHECK(g_m.open_files == 0, "%s: image left open", what);
    MC_CHECK(mc_alloc_live() == 0, "%s: memory leaked", what);
    logs[mem] = g_log;
    fence_off(&fimg);
  }
  MC_CHECK(logs[0] == logs[1], "%s: the same image gives different results from memory and from a file", what);
  mc_state(mc_hash(MC_HASH0, im.d, (size_t)im.n));
}

static uint32_t get(const unsigned char *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static void put(unsigned char *p, uint32_t v) { p[0] = (unsigned char)(v >> 24); p[1] = (unsigned char)(v >> 16); p[2] = (unsigned char)(v >> 8); p[3] = (unsigned char)v; }
static void node(const char *nm, int par, int type, int size, int tgt) { nd[nn] = (RomNode){.name = nm, .parent = par, .type = type, .size = size, .target = tgt, .data = pat + nn * 50}; nn++; }
static void fix(int h) { if(h + 17 + NL < (int)sizeof im.d) { unsigned char *x = im.d + h; x[16 + NL] = x[16 + NL]; 
    /* the reader looks at no more than 32 name bytes */
    int nl = (int)strnlen((char *)x + 16, NL) + 1, len = 16 + ((nl + 15) & ~15); put(x + 12, 0); uint32_t s = 0; for(int i = 0; i < len; i += 4) s += get(x + i); put(x + 12, (uint32_t)-(int32_t)s); } }
static void super(void) { rom_fix_super(&im); }

static void base_image(void) {
  nn = 1; nd[0] = (RomNode){.name = ".", .type = RN_DIR, .parent = -1};
  node("a", 0, RN_FILE, 5, 0); node("d", 0, RN_DIR, 0, 0); node("b", 2, RN_FILE, 40, 0); node("e", 2, RN_DIR, 0, 0); node("l", 0, RN_LINK, 0, 3); node("s", 0, RN_SYM, 7, 0);
  rom_build(&base, nd, nn, "vol");
  /* header offsets, walking the chains */
  int st[32], sp = 0; st[sp++] = nd[0].hdr;
  while(sp) { int h = st[--sp]; while(h) { hdrs[nh++] = h; uint32_t w = get(base.d + h); if((w & 7) == RN_DIR && (int)get(base.d + h + 4) > h) st[sp++] = (int)get(base.d + h + 4); h = (int)(w & ~15u); } }
}

static void s_truncate(void) { im = base; im.n = mc_choose(base.n + 1); int lie = mc_choose(2); if(lie) { put(im.d + 8, (uint32_t)im.n); super(); } mc_op("image of %d bytes cut to %d", base.n, im.n); try_image("truncated image"); }

static void s_byte(void) {
  static const unsigned char vals[] = {0, 0xff, 1, 2, 0x80, 0x10, '/', '.', 0x7f, 3};
  int used = (int)get(base.d + 8);
  im = base; int off = mc_choose(used), v = mc_choose(mc_tier(10, 256)), fx = mc_choose(2);
  unsigned char val = mc_thorough() ? (unsigned char)v : vals[v];
  im.d[off] = val;
  if(fx) { for(int i = 0; i < nh; i++) if(off >= hdrs[i] && off < hdrs[i] + 32) fix(hdrs[i]); super(); }
  mc_op("byte %d = %02x%s", off, val, fx ? ", checksums recomputed" : "");
  try_image("image with a changed byte");
}
static const uint32_t odd[] = {0, 1, 0x10, 0xfffffff0u, 0x80000000u, 0x7ffffff0u, 0x7fffffffu, 0xffffffffu, 0x80000010u};
static uint32_t value(int k) { /* every 16-aligned offset of the image and its neighbourhood, then odd values */
  int used = (int)get(base.d + 8) / 16 + 3;
  if(k < used) return (uint32_t)k * 16;
  k -= used; if(k < 9) return odd[k];
  k -= 9; return (uint32_t)(base.n + (int[]){-16, 0, 16, -1, 1, -40}[k]);
}
static int nvalues(void) { return (int)get(base.d + 8) / 16 + 3 + 9 + 6; }
static void mutate_field(int h, int fld, uint32_t v) { uint32_t old = get(im.d + h + fld * 4); put(im.d + h + fld * 4, fld == 0 ? (v & ~15u) | (old & 15) : v); fix(h); mc_op("header at %d: %s = 0x%x", h, fld == 0 ? "next" : fld == 1 ? "spec" : "size", v); }
static void s_field(void) {
  im = base; int h = mc_choose(nh), f = mc_choose(3), v = mc_choose(nvalues());
  mutate_field(hdrs[h], f, value(v)); super();
  try_image("image with a changed offset or size");
}
static void s_field2(void) {
  im = base;
  int h1 = mc_choose(nh), f1 = mc_choose(2), h2 = mc_choose(nh), f2 = mc_choose(2);
  if(h2 * 2 + f2 <= h1 * 2 + f1) mc_prune();
  mutate_field(hdrs[h1], f1, (uint32_t)hdrs[mc_choose(nh)]); mutate_field(hdrs[h2], f2, (uint32_t)hdrs[mc_choose(nh)]);
  super();
  try_image("image with two redirected chains");
}
static void s_mode(void) {
  im = base; int h = mc_choose(nh), m = mc_choose(16);
  put(im.d + hdrs[h], (get(im.d + hdrs[h]) & ~15u) | (uint32_t)m); fix(hdrs[h]);
  if(mc_choose(2)) mutate_field(hdrs[h], 1, (uint32_t)hdrs[mc_choose(nh)]);
  if(mc_choose(2)) mutate_field(hdrs[h], 2, odd[mc_choose(9)]);
  super(); mc_op("header at %d: mode %d", hdrs[h], m);
  try_image("image with a changed mode");
}
static void s_name(void) {
  static const char *nm[] = {"", "/", "//", ".", "..", "a/b", "d/b", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "d", "\\", "aaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaa"};
  im = base; int h = mc_choose(nh), k = mc_choose(14);
  strcpy((char *)im.d + hdrs[h] + 16, nm[k]); fix(hdrs[h]);
  int h2 = mc_choose(nh + 1); if(h2 < nh) { strcpy((char *)im.d + hdrs[h2] + 16, nm[k] + (strlen(nm[k]) > 3 ? 1 : 0)); fix(hdrs[h2]); }
  super(); mc_op("name '%s' at %d and %d", nm[k], hdrs[h], h2 < nh ? hdrs[h2] : -1);
  try_image("image with a strange name");
}
static void s_super(void) {
  im = base; int k = mc_choose(9 + 8);
  if(k < 9) put(im.d + 8, odd[k]); else put(im.d + 8, (uint32_t)(base.n + (int[]){-1024, -1, 1, 16, 1024, -16, -600, 100000}[k - 9]));
  int vl = mc_choose(5), nul = mc_choose(2);
  if(vl) { int L = (int[]){0, 15, NL, NL + 1, NL + 30}[vl]; memset(im.d + 16, 'v', (size_t)L); im.d[16 + L] = 0; if(nul) memset(im.d + 16, 'v', NL + 70); }
  if(mc_choose(2)) super();
  mc_op("superblock variant %d volume %d", k, vl);
  try_image("image with a changed superblock");
}
/* directories that share their entries: exponentially many paths, or very deep ones */
static void s_dag(void) {
  int levels = 1 + mc_choose(mc_tier(40, 200)), fan = 1 + mc_choose(3), cyc = mc_choose(3);
  tar_start(&im); memcpy(im.d, "-rom1fs-", 8); strcpy((char *)im.d + 16, "v"); int o = 32;
  int first = o; put(im.d + o, (uint32_t)(o + 32) | 9); put(im.d + o + 4, (uint32_t)o); strcpy((char *)im.d + o + 16, "."); o += 32;
  put(im.d + o, (uint32_t)(o + 32)); put(im.d + o + 4, (uint32_t)first); strcpy((char *)im.d + o + 16, ".."); o += 32;
  for(int l = 0; l < levels; l++) {
    int next_level = o + fan * 32;
    for(int i = 0; i < fan; i++) {
      bool last = i == fan - 1;
      put(im.d + o, (last ? 0 : (uint32_t)(o + 32)) | 9);
      put(im.d + o + 4, (uint32_t)(l == levels - 1 ? (cyc == 0 ? 0 : cyc == 1 ? first : 96) : next_level));
      im.d[o + 16] = (unsigned char)('a' + i); o += 32;
    }
  }
  im.n = o;
  for(int h = 32; h < o; h += 32) fix(h);
  put(im.d + 8, (uint32_t)im.n); rom_fix_super(&im);
  mc_op("%d levels of %d directories, end %d", levels, fan, cyc);
  try_image("image whose directories share entries");
}
void cl(void) { std_cleanup(); mem_free(&g_m); mem_init(&g_m, "mem"); evfs_register(&g_m.vfs, true); fence_off(&fimg); }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P16");
  mc_set_cleanup(cl);
  evfs_init();
  for(int i = 0; i < (int)sizeof pat; i++) pat[i] = (unsigned char)(i * 37 + i / 251 * 3 + 1);
  base_image(); mem_init(&g_m, "mem");
  mc_note("a %d byte image with %d headers: cut at every length; every byte x %d values with and without recomputed checksums; every next/target/size field x every 16-byte offset and odd values; %s; every mode; odd names in pairs; superblock sizes and volume names; directories sharing entries up to %d levels",
          base.n, nh, mc_tier(10, 256), "all pairs of redirected next/target fields to every header", mc_tier(40, 200));
  mc_explore("cut at every length", s_truncate);
  mc_explore("every byte", s_byte);
  mc_explore("offset and size fields", s_field);
  mc_explore_depth("pairs of redirected fields", s_field2, 5);
  mc_explore("modes", s_mode);
  mc_explore("names", s_name);
  mc_explore("superblock", s_super);
  mc_explore("shared entries", s_dag);
  return mc_main_finish();
}
