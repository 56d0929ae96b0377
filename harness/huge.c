/* Offsets and sizes beyond 2 and 4 GiB, in builds with 64-bit file offsets. Nothing this large is really stored:
   the files below are sparse. PROP names the property, PARTS the scenarios. */
#include "sparse.h"
#include "images.h"
#include "backends.h"
#include "evfs/tar_iter.h"
#include "evfs/tar_iter_rsrc.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_rotate.h"
#include <sys/mman.h>
#define G2 ((int64_t)1 << 31)
#define G4 ((int64_t)1 << 32)
#define MAPLEN ((size_t)22 << 30)
enum { K_TAR, K_TARMEM, K_ROM, K_ROMMEM, K_SPARSE, K_HOST, K_FAT };
static const char *kn[] = { "tar file", "tar in memory", "ROM image file", "ROM image in memory", "sparse", "host", "FAT" };
static int kind, model, mask; static EvfsFile *f; static const char *vfs, *prefix = ""; static Fence fb; static unsigned char *map;
static int rep_null(const char *s, void *c) { (void)s; (void)c; return 0; }
static char *pth(const char *p) { static char b[700]; snprintf(b, sizeof b, "%s%s", prefix, p); return b; }
static unsigned char pat(int64_t i) { uint64_t x = (uint64_t)i * 0x9E3779B97F4A7C15ull; x ^= x >> 29; return (unsigned char)(x >> 32 | 1); }
static void mark(int file, int64_t base, int64_t at, int64_t size) { /* 120 bytes around base + at, inside [base, base + size) */
  for(int64_t i = at - 60; i < at + 60; i++) if(i >= 0 && i < size) { unsigned char c = pat(base + i); sp_set(file, base + i, &c, 1); }
}
static void marks(int file, int64_t base, int64_t size) { int64_t a[] = { 0, G2, G4, 70000, size, G2 - base, G4 - base }; for(int i = 0; i < 7; i++) mark(file, base, a[i], size); }
static void wrap(int w, const char *base) {
  vfs = base; prefix = be_root;
  if(w & 1) { MC_CHECK(evfs_register_trace("w", vfs, rep_null, NULL, false) == EVFS_OK, "trace"); vfs = "w"; }
  if(w & 2) { MC_CHECK(evfs_register_jail("j", vfs, be_root[0] ? be_root : "/", false) == EVFS_OK, "jail"); vfs = "j"; prefix = ""; }
}
static void state(int64_t pos, int64_t size) {
  MC_CHECK(evfs_file_tell(f) == pos, "%s: position %lld instead of %lld", kn[kind], (long long)evfs_file_tell(f), (long long)pos);
  MC_CHECK(kind == K_HOST || evfs_file_eof(f) == (pos >= size), "%s: end-of-file at %lld of %lld is %d", kn[kind], (long long)pos, (long long)size, evfs_file_eof(f));
  MC_CHECK(evfs_file_size(f) == size, "%s: size %lld instead of %lld", kn[kind], (long long)evfs_file_size(f), (long long)size);
}
static int64_t do_read(int64_t pos, int64_t size, int file, int64_t base, int64_t k) {
  int64_t want = size - pos < k ? size - pos : k; if(want < 0) want = 0;
  static unsigned char e[80000], m[80000]; char *b = fence_put(&fb, NULL, (size_t)k); mc_op("read %lld at %lld", (long long)k, (long long)pos);
  long r = (long)evfs_file_read(f, b, (size_t)k);
  MC_CHECK(r == want, "%s: reading %lld at %lld of %lld gives %ld", kn[kind], (long long)k, (long long)pos, (long long)size, r);
  sp_get(file, base + pos, e, want); if(mask >= 0) sp_get(mask, base + pos, m, want);
  for(int64_t i = 0; i < want; i++) if((mask < 0 || m[i]) && (unsigned char)b[i] != e[i]) mc_fail("%s: byte %lld of %lld is wrong", kn[kind], (long long)(pos + i), (long long)size);
  return pos + want;
}
enum { NSEEK = 18 };
static int64_t do_seek(int64_t pos, int64_t size, int i) {
  EvfsSeekDir org = i < 9 ? EVFS_SEEK_TO : i < 14 ? EVFS_SEEK_REL : EVFS_SEEK_REV;
  int64_t off = (int64_t[]){0, G2 - 1, G2, G2 + 1, G4 - 1, G4, G4 + 3, size - 30, size, G2, -G2, G4, -G4, -30, 1, G2, G4, size}[i];
  int64_t t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? pos + off : size - off;
  if(t < 0 || t > size) mc_prune();
  int st = evfs_file_seek(f, off, org); mc_op("seek to %lld", (long long)t);
  MC_CHECK(st == EVFS_OK, "%s: seeking to %lld of %lld fails: %s", kn[kind], (long long)t, (long long)size, EN(st)); return t;
}
static void listed(const char *name, int64_t size) {
#ifdef NOPOSIX
  if(kind == K_HOST) return;
#endif
  EvfsInfo inf; int st = evfs_stat_ex(pth(name), &inf, vfs); EvfsDir *d; int seen = 0;
  MC_CHECK(st == EVFS_OK && inf.size == size, "%s: stat of '%s' gives %s and size %lld instead of %lld", kn[kind], name, EN(st), (long long)inf.size, (long long)size);
  if(kind <= K_TARMEM) return;
  MC_CHECK(evfs_open_dir_ex(prefix[0] ? prefix : "/", &d, vfs) == EVFS_OK, "open_dir");
  while((st = evfs_dir_read(d, &inf)) == EVFS_OK) if(!strcmp(inf.name, name + 1)) { seen++; if(kind != K_HOST) MC_CHECK(inf.size == size, "%s: '%s' listed with size %lld instead of %lld", kn[kind], name, (long long)inf.size, (long long)size); }
  MC_CHECK(seen == 1, "%s: '%s' is listed %d times", kn[kind], name, seen); evfs_dir_close(d);
}
static int64_t off[8], dat[8], siz[8], total;
static void tar_image(int img, int n) {
  int64_t at = 0; static Img t;
  for(int i = 0; i < n; i++) {
    tar_start(&t); tar_add(&t, (char *[]){"x", "f", "y"}[i], 0, '0', "", 0, 1); char s[16]; snprintf(s, sizeof s, "%011llo", (unsigned long long)siz[i]); memcpy(t.d + 124, s, 11); tar_fix(t.d);
    off[i] = at; dat[i] = at + 512; sp_set(img, at, t.d, 512); marks(img, dat[i], siz[i]); at = dat[i] + (siz[i] + 511) / 512 * 512;
  }
  total = at + 1024; sp.f[img].size = total;
}
static void wr32(unsigned char *p, uint32_t v) { p[0] = (unsigned char)(v >> 24); p[1] = (unsigned char)(v >> 16); p[2] = (unsigned char)(v >> 8); p[3] = (unsigned char)v; }
static void rom_image(int img, int n) {
  static Img t; RomNode nd[1] = {{.name = ".", .type = RN_DIR, .parent = -1}}; rom_build(&t, nd, 1, "v");
  int64_t at = 32; (void)n; unsigned char h[32];   /* super block, then ".", "..", x, f, y */
  for(int i = 0; i < 5; i++) {
    int64_t next = at + 32; if(i >= 2) { off[i - 2] = at; dat[i - 2] = at + 32; next = dat[i - 2] + (siz[i - 2] + 15) / 16 * 16; marks(img, dat[i - 2], siz[i - 2]); }
    memset(h, 0, 32); wr32(h, (uint32_t)(i == 4 ? 0 : next) | (i == 0 ? 9 : i == 1 ? 0 : 2)); wr32(h + 4, i < 2 ? 32 : 0); wr32(h + 8, (uint32_t)(i < 2 ? 0 : siz[i - 2])); strcpy((char *)h + 16, (char *[]){".", "..", "x", "f", "y"}[i]); rom_fix_header(h);
    sp_set(img, at, h, 32); at = next;
  }
  total = (at + 1023) / 1024 * 1024; memset(t.d, 0, 1024); memcpy(t.d, "-rom1fs-", 8); wr32(t.d + 8, (uint32_t)at); strcpy((char *)t.d + 16, "v");
  sp_get(img, 32, t.d + 32, 480); wr32(t.d + 12, 0); t.n = 1024; rom_fix_super(&t); sp_set(img, 0, t.d, 32); sp.f[img].size = total;
}
static int64_t mapped[SP_SLOTS]; static int nmapped;
static void map_image(int img) {
  if(!map) { map = mmap(NULL, MAPLEN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(map == MAP_FAILED) { printf("harness error: no address space\n"); fflush(stdout); _Exit(3); } }
  for(int h = 0; h < SP_SLOTS; h++) if(sp.s[h].key >> 48 == (uint64_t)img + 1) { int64_t a = (int64_t)(sp.s[h].key & 0xffffffffffffull) * SP_PAGE; memcpy(map + a, sp.s[h].p, SP_PAGE); mapped[nmapped++] = a; }
}
static void unmap(void) { for(int i = 0; i < nmapped; i++) madvise(map + mapped[i], SP_PAGE, MADV_DONTNEED); nmapped = 0; }
static void s_ro(void) {
  int k0 = (PARTS) & 1 ? 0 : 2, k1 = (PARTS) & 2 ? 4 : 2; kind = k0 + mc_choose(k1 - k0); mask = -1; be_root[0] = 0;
  siz[0] = (int64_t[]){300, G2 - 700, G2 + 100, G4 + 513, 5 * G2 / 2}[mc_choose(5)];
  siz[1] = (int64_t[]){100000, G2 - 1, G2, G2 + 5, G4 - 1, G4, G4 + 5, 5 * G2 / 2 + 7, 4 * G2 - 1}[mc_choose(9)]; siz[2] = 300;
  if(kind >= 2 && siz[0] + siz[1] + 2000 > G4) mc_prune();
  int w = WRAPS ? 1 + mc_choose(3) : 0; EvfsFile *g = NULL; int st = EVFS_OK;
  sp_up("base", true); int img = sp_find("/img", true); model = img; if(kind < 2) tar_image(img, 3); else rom_image(img, 3);
  if(kind & 1) map_image(img); else MC_CHECK(evfs_open_ex("/img", &g, EVFS_READ, "base") == EVFS_OK, "open image");
  switch(kind) {
    case 0: st = evfs_register_tar_fs("ro", g, true); break;
    case 1: st = evfs_register_tar_rsrc_fs("ro", map, (size_t)total, true); break;
    case 2: st = evfs_register_romfs("ro", g, true); break;
    case 3: st = evfs_register_rsrc_romfs("ro", map, (size_t)total, true); break;
  }
  MC_CHECK(st == EVFS_OK, "%s: mounting an image of %lld bytes fails: %s", kn[kind], (long long)total, EN(st)); wrap(w, "ro");
  listed("/x", siz[0]); listed("/f", siz[1]); listed("/y", 300);
  MC_CHECK(evfs_open_ex("/f", &f, EVFS_READ, vfs) == EVFS_OK, "%s: open fails", kn[kind]); mc_op("%s: file of %lld bytes behind one of %lld, layers %d", kn[kind], (long long)siz[1], (long long)siz[0], w);
  int64_t pos = 0; state(0, siz[1]);
  for(int i = 0; i < mc_tier(2, 3); i++) {
    int o = mc_choose(2 + NSEEK); if(o < 2) pos = do_read(pos, siz[1], img, dat[1], o ? 70000 : 1); else pos = do_seek(pos, siz[1], o - 2);
    state(pos, siz[1]); mc_state(mc_hash(MC_HASH0 + (unsigned)kind, &pos, sizeof pos) + (uint64_t)siz[1] + (uint64_t)siz[0] * 7);
  }
  pos = do_read(pos, siz[1], img, dat[1], 200); state(pos, siz[1]); evfs_file_close(f);
  for(int k = 0; k < 3; k += 2) { MC_CHECK(evfs_open_ex(k ? "/y" : "/x", &f, EVFS_READ, vfs) == EVFS_OK, "open"); do_read(0, siz[k], img, dat[k], 400); evfs_file_close(f); }
  if(kind < 2 && !w) {
    TarFileIterator it; TarRsrcIterator ir; EvfsFile *h = NULL; int n = 0; bool ok;
    if(kind == K_TAR) { MC_CHECK(evfs_open_ex("/img", &h, EVFS_READ, "base") == EVFS_OK, "open"); tar_iter_init(&it, h); ok = tar_iter_begin(&it); } else { tar_rsrc_iter_init(&ir, map, (size_t)total); ok = tar_rsrc_iter_begin(&ir); }
    for(; ok && n < 4; n++) {
      int64_t o = kind == K_TAR ? (int64_t)tar_iter_file_offset(&it) : (int64_t)tar_rsrc_iter_file_offset(&ir), z = kind == K_TAR ? (int64_t)it.file_size : (int64_t)ir.file_size;
      MC_CHECK(n < 3 && (o == off[n] || o == dat[n]) && z == siz[n], "%s: member %d is reported at %lld with %lld bytes", kn[kind], n, (long long)o, (long long)z);
      ok = kind == K_TAR ? tar_iter_next(&it) : tar_rsrc_iter_next(&ir);
    }
    MC_CHECK(n == 3, "%s: iterating gives %d members", kn[kind], n);
    for(int k = 0; k < 3; k++) { ok = kind == K_TAR ? tar_iter_seek(&it, off[k]) : tar_rsrc_iter_seek(&ir, off[k]); MC_CHECK(ok && (kind == K_TAR ? (int64_t)it.file_size : (int64_t)ir.file_size) == siz[k], "%s: seeking the iterator to member %d", kn[kind], k); }
    if(h) evfs_file_close(h);
  }
  evfs_unregister_all(); MC_CHECK(sp.open == 0, "something is left open"); unmap();
}
/* everything that was written is where it belongs */
static void compare(int64_t size, const char *when) {
  MC_CHECK(evfs_open_ex(pth("/f"), &f, EVFS_READ, vfs) == EVFS_OK, "%s: reopening %s", kn[kind], when); state(0, size); 
  int src = mask >= 0 ? mask : model;
  for(int h = 0; h < SP_SLOTS; h++) if(sp.s[h].key >> 48 == (uint64_t)src + 1) {
    int64_t a = (int64_t)(sp.s[h].key & 0xffffffffffffull) * SP_PAGE; if(a >= size) continue;
    MC_CHECK(evfs_file_seek(f, a, EVFS_SEEK_TO) == EVFS_OK, "seek"); do_read(a, size, model, 0, SP_PAGE);
  }
  int64_t end = do_read(evfs_file_seek(f, size > 200 ? size - 200 : 0, EVFS_SEEK_TO) == EVFS_OK ? (size > 200 ? size - 200 : 0) : -1, size, model, 0, 300); MC_CHECK(end == size, "end"); evfs_file_close(f);
}
static int64_t put(int64_t pos, int64_t *size, int64_t k) {
  static unsigned char b[80000], ones[80000]; memset(ones, 1, sizeof ones); static int64_t serial; for(int64_t i = 0; i < k; i++) b[i] = pat(pos * 3 + i + 1000 * *size); (void)serial;
  long r = (long)evfs_file_write(f, b, (size_t)k); mc_op("write %lld at %lld", (long long)k, (long long)pos);
  MC_CHECK(r == k, "%s: writing %lld at %lld of %lld gives %ld", kn[kind], (long long)k, (long long)pos, (long long)*size, r);
  sp_set(model, pos, b, k); if(mask >= 0) sp_set(mask, pos, ones, k); if(pos + k > *size) *size = pos + k; return pos + k;
}
static void ops(int depth, int64_t size, int64_t pos, int64_t limit) {
  for(int i = 0; i < depth; i++) {
    int o = mc_choose(4 + NSEEK + 7 + 1);
    if(o < 2) { int64_t k = o ? 70000 : 1; if(pos + k > limit) mc_prune(); pos = put(pos, &size, k); }
    else if(o < 4) pos = do_read(pos, size, model, 0, o == 2 ? 1 : 70000);
    else if(o < 4 + NSEEK) pos = do_seek(pos, size, o - 4);
    else if(o < 4 + NSEEK + 7) {
#ifdef NOPOSIX
      mc_prune();
#endif
      int64_t t = (int64_t[]){0, 5, G2 - 1, G2, G2 + 5, G4, G4 + 5}[o - 4 - NSEEK]; if(t > size) mc_prune(); int st = evfs_file_truncate(f, t); mc_op("truncate to %lld", (long long)t);
      MC_CHECK(st == EVFS_OK, "%s: truncating %lld to %lld fails: %s", kn[kind], (long long)size, (long long)t, EN(st)); size = t; sp_cut(model, t); if(mask >= 0) sp_cut(mask, t);
      if(pos > t) { pos = t; MC_CHECK(evfs_file_seek(f, t, EVFS_SEEK_TO) == EVFS_OK, "seek"); }
    } else { /* past the largest size a 32-bit field holds */
      if(kind != K_FAT) mc_prune();
      int64_t t = G4 + 5; int st = evfs_file_seek(f, t, EVFS_SEEK_TO); mc_op("seek to %lld -> %s", (long long)t, EN(st)); int64_t at = evfs_file_tell(f);
      MC_CHECK(st != EVFS_OK || at == t || at >= size, "%s: seeking to %lld of %lld ends at %lld", kn[kind], (long long)t, (long long)size, (long long)at);
      MC_CHECK(evfs_file_seek(f, pos, EVFS_SEEK_TO) == EVFS_OK, "seek"); size = evfs_file_size(f); MC_CHECK(size <= limit, "size");
    }
    state(pos, size); mc_state(mc_hash(MC_HASH0 + (unsigned)kind, &pos, sizeof pos) + (uint64_t)size * 31);
  }
  MC_CHECK(evfs_file_close(f) == EVFS_OK, "close fails"); compare(size, "afterwards"); listed("/f", size);
}
static void s_rw(void) {
  kind = (PARTS) & 8 ? K_HOST : K_SPARSE; int w = WRAPS ? 1 + mc_choose(3) : 0; mask = -1;
  if(kind == K_HOST) { be_up(BE_STDIO, false); sp_reset(); wrap(w, "stdio"); } else { be_root[0] = 0; sp_up("base", true); wrap(w, "base"); }
  model = sp_find("model!", true);
  int64_t size = (int64_t[]){0, G2 - 1, G2 + 100, G4 - 1, G4 + 100}[mc_choose(5)], pos = 0;
  MC_CHECK(evfs_open_ex(pth("/f"), &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, vfs) == EVFS_OK, "create"); mc_op("%s: file of %lld bytes, layers %d", kn[kind], (long long)size, w);
  if(size) { int64_t s2 = 0; MC_CHECK(evfs_file_seek(f, size - 1, EVFS_SEEK_TO) == EVFS_OK, "%s: seeking behind the end", kn[kind]); pos = put(size - 1, &s2, 1); }
  state(pos, size); ops(mc_tier(2, 3), size, pos, 4 * G4);
  if(kind == K_SPARSE) { evfs_unregister_all(); MC_CHECK(sp.open == 0, "something is left open"); }
}
/* a FAT volume of 6 GiB: a filler first, so that the file under test lies where sector numbers need 33-bit offsets */
#ifdef WITH_FAT
static Sp *tmpl[4]; static unsigned char *tpool[4]; static int tused[4]; static int64_t tfill[4];
static void s_fat(void) {
  kind = K_FAT; int fi = mc_choose(4); int64_t fill = 0; be_root[0] = 0; mask = -1; vfs = "be"; prefix = "";
  sp_up("base", true);
  if(!tmpl[fi]) {
    int st = fatfs_make_image("/img0", 0, 3 * G2); MC_CHECK(st == EVFS_OK, "making a volume of 6 GiB: %s", EN(st));
    st = fatfs_mount_image("/img0", 0); MC_CHECK(st == EVFS_OK, "mounting: %s", EN(st)); fat_up[0] = true; st = evfs_register_fatfs("be", 0, false); MC_CHECK(st == EVFS_OK, "register");
    unsigned char bpb[512]; int64_t part = 0; sp_get(sp_find("/img0", false), 0, bpb, 512); if(memcmp(bpb + 82, "FAT32", 5)) { part = bpb[454] | bpb[455] << 8 | bpb[456] << 16; sp_get(sp_find("/img0", false), part * 512, bpb, 512); }   /* the file under test begins just before, or behind, a place whose low 32 bits are those of the boot sector or of the FAT */
    int64_t ds = 512 * (part + (int64_t)(bpb[14] | bpb[15] << 8) + (int64_t)bpb[16] * (bpb[36] | bpb[37] << 8 | bpb[38] << 16)); fill = fi ? (int64_t[]){0, G2 - ds - 20000, G4 - ds - 20000, G4 - ds + 100000}[fi] : 0;
    if(fill) { MC_CHECK(evfs_open_ex("/fill", &f, EVFS_WRITE | EVFS_OVERWRITE, "be") == EVFS_OK && evfs_file_write(f, "head", 4) == 4 && evfs_file_seek(f, fill - 4, EVFS_SEEK_TO) == EVFS_OK && evfs_file_write(f, "tail", 4) == 4 && evfs_file_close(f) == EVFS_OK, "filler"); }
    evfs_unregister(evfs_find_vfs("be")); fatfs_unmount_image(0); fat_up[0] = false;
    tfill[fi] = fill; tmpl[fi] = mc_real_malloc(sizeof sp); *tmpl[fi] = sp; tused[fi] = sp_used; tpool[fi] = mc_real_malloc((size_t)SP_PAGE * (size_t)sp_used + 1); memcpy(tpool[fi], sp_pool, (size_t)SP_PAGE * (size_t)sp_used);
  } else { Evfs v = sp.vfs; fill = tfill[fi]; sp = *tmpl[fi]; sp.vfs = v; sp_used = tused[fi]; memcpy(sp_pool, tpool[fi], (size_t)SP_PAGE * (size_t)sp_used); }
  MC_CHECK(sp_find("/img0", false) >= 0 && sp.f[sp_find("/img0", false)].size == 3 * G2, "the image has %lld bytes", (long long)sp.f[sp_find("/img0", false)].size);
  model = sp_find("model!", true); mask = sp_find("mask!", true);
  int st = fatfs_mount_image("/img0", 0); MC_CHECK(st == EVFS_OK, "mounting: %s", EN(st)); fat_up[0] = true; MC_CHECK(evfs_register_fatfs("be", 0, false) == EVFS_OK, "register");
  MC_CHECK(evfs_open_ex("/f", &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, vfs) == EVFS_OK, "create");
  int64_t size = (int64_t[]){0, 10000000, G2 - 1, G2 + 100, G4 - 100}[mc_choose(5)], pos = 0, s2 = 0; if(fill + size > 5 * G2 / 2) mc_prune(); mc_op("file of %lld bytes behind %lld", (long long)size, (long long)fill);
  if(size) { pos = put(0, &s2, 70000); MC_CHECK(evfs_file_seek(f, size - 1, EVFS_SEEK_TO) == EVFS_OK, "extending to %lld", (long long)size); pos = put(size - 1, &s2, 1); }
  state(pos, size); ops(mc_tier(2, 2), size, pos, G4 - 1);
  for(int r = 0; r < 2; r++) {
    if(fill) { char b[8] = ""; listed("/fill", fill); MC_CHECK(evfs_open_ex("/fill", &f, EVFS_READ, vfs) == EVFS_OK && evfs_file_read(f, b, 4) == 4 && !memcmp(b, "head", 4) && evfs_file_seek(f, fill - 4, EVFS_SEEK_TO) == EVFS_OK && evfs_file_read(f, b, 5) == 4 && !memcmp(b, "tail", 4), "%s: the other file is damaged", r ? "mounted again" : "at once"); evfs_file_close(f); }
    if(r) break;
    evfs_unregister(evfs_find_vfs("be")); fatfs_unmount_image(0); fat_up[0] = false; st = fatfs_mount_image("/img0", 0); MC_CHECK(st == EVFS_OK, "mounting again: %s", EN(st)); fat_up[0] = true; MC_CHECK(evfs_register_fatfs("be", 0, false) == EVFS_OK, "register");
    EvfsInfo inf; MC_CHECK(evfs_stat_ex("/f", &inf, vfs) == EVFS_OK, "the file is gone"); compare(inf.size, "mounted again");
  }
  evfs_unregister(evfs_find_vfs("be")); fatfs_unmount_image(0); fat_up[0] = false; MC_CHECK(sp.open == 0, "something is left open");
}
#endif
static void s_cp(void) {
  int64_t size = (int64_t[]){G2 + 5, G4 + 5, 5 * G2 / 2}[mc_choose(3)], rest = (int64_t[]){0, 1, 65536, 200003, G2 + 1, G4 + 1}[mc_choose(6)]; if(rest > size || (rest > G2 && !mc_thorough() && size != G4 + 5)) mc_prune();
  int own = mc_choose(2), w = mc_choose(2); int64_t bs = rest > 300000 ? 4 << 20 : own ? 70000 : 0; if(rest > 300000 && (own || w)) mc_prune(); mask = -1; kind = K_SPARSE; be_root[0] = 0; prefix = "";
  sp_up("base", true); int src = sp_find("/f", true); sp.f[src].size = size; marks(src, 0, size); mark(src, 0, size - rest, size); wrap(w, "base");
  MC_CHECK(evfs_open_ex("/f", &f, EVFS_READ, vfs) == EVFS_OK && evfs_file_seek(f, size - rest, EVFS_SEEK_TO) == EVFS_OK, "open");
  char *b = bs > 1000000 ? mc_real_malloc((size_t)bs) : own ? fence_put(&fb, NULL, (size_t)bs) : NULL;
  int st = evfs_copy_to_file_ex("/d", f, b, (size_t)bs, "base"); mc_op("copy the last %lld of %lld bytes -> %s", (long long)rest, (long long)size, EN(st)); if(bs > 1000000) mc_real_free(b);
  MC_CHECK(st == EVFS_OK, "copying the last %lld of %lld bytes fails: %s", (long long)rest, (long long)size, EN(st));
  int d = sp_find("/d", false); MC_CHECK(d >= 0 && sp.f[d].size == rest, "the copy has %lld bytes instead of %lld", d < 0 ? -1 : (long long)sp.f[d].size, (long long)rest);
  static unsigned char x[SP_PAGE], y[SP_PAGE]; for(int64_t p = 0; p < rest; p += SP_PAGE) { int64_t k = rest - p < SP_PAGE ? rest - p : SP_PAGE; if(rest > 300000 && p > 200 && p + SP_PAGE < rest && !sp_page(src, (size - rest + p) / SP_PAGE, false) && !sp_page(d, p / SP_PAGE, false)) continue; sp_get(src, size - rest + p, x, k); sp_get(d, p, y, k); MC_CHECK(!memcmp(x, y, (size_t)k), "the copy differs near %lld", (long long)p); }
  mc_state(mc_hash(MC_HASH0 + (unsigned)own, &size, sizeof size) + (uint64_t)rest); evfs_file_close(f);
}
/* rotating logs with more than 2 and 4 GiB: 8 byte marks at the start of every block appended */
typedef struct { int64_t C, T, dropped; int M; int64_t at[16]; int n; } Log;
static Log lg; static struct { Sp sp; unsigned char *pool; int used; Log l; bool ok; } lt[4]; static unsigned char *zeros;
static int64_t lsize(void) { return lg.T - lg.dropped; }
static void append(int64_t k) {
  if(!zeros) { zeros = mmap(NULL, (size_t)G4 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(zeros == MAP_FAILED) { printf("harness error: no address space\n"); fflush(stdout); _Exit(3); } }
  uint64_t m = 0x1122334455667700ull + (unsigned)lg.n; memcpy(zeros, &m, 8); mc_op("append %lld", (long long)k);
  int64_t r = (int64_t)evfs_file_write(f, zeros, (size_t)k); MC_CHECK(r == k, "appending %lld to a log of %lld gives %lld", (long long)k, (long long)lsize(), (long long)r);
  lg.at[lg.n++] = lg.T; lg.T += k; while(lg.T - lg.dropped > lg.C * lg.M) lg.dropped += lg.C;
}
static void log_check(const char *when) {
  int64_t s = (int64_t)evfs_file_size(f); MC_CHECK(s == lsize(), "%s: the log has %lld bytes instead of %lld", when, (long long)s, (long long)lsize());
  for(int i = 0; i < lg.n; i++) if(lg.at[i] >= lg.dropped && lg.at[i] + 8 <= lg.T) {
    uint64_t m = 0; int st = evfs_file_seek(f, lg.at[i] - lg.dropped, EVFS_SEEK_TO); MC_CHECK(st == EVFS_OK && evfs_file_tell(f) == lg.at[i] - lg.dropped, "%s: seeking to %lld", when, (long long)(lg.at[i] - lg.dropped));
    int r = (int)evfs_file_read(f, &m, 8); MC_CHECK(r == 8 && m == 0x1122334455667700ull + (unsigned)i, "%s: block %d is not at %lld of %lld", when, i, (long long)(lg.at[i] - lg.dropped), (long long)s);
  }
  EvfsInfo inf; MC_CHECK(evfs_stat_ex("/log", &inf, "rot") == EVFS_OK, "stat");
}
static void s_log(void) {
  int ci = mc_choose(4); static const struct { uint32_t C; int M; } cf[] = {{1u << 29, 12}, {(1u << 31) - 7, 3}, {3u << 30, 3}, {0xfffffff0u, 2}};
  be_root[0] = 0; mask = -1; sp_up("base", true); RotateConfig cfg = {.chunk_size = cf[ci].C, .max_chunks = (uint32_t)cf[ci].M};
  MC_CHECK(evfs_register_rotate("rot", "base", &cfg, true) == EVFS_OK, "register");
  if(!lt[ci].ok) {
    memset(&lg, 0, sizeof lg); lg.C = cf[ci].C; lg.M = cf[ci].M;
    MC_CHECK(evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_APPEND | EVFS_OPEN_OR_NEW, "rot") == EVFS_OK, "create");
    int64_t b[] = {G2 / 2 + 3, 20, G2 + 9, G2 - 100, G2 / 2, 9, G2}; for(int i = 0; i < 7; i++) { append(b[i]); log_check("while it grows"); }
    MC_CHECK(evfs_file_close(f) == EVFS_OK, "close"); lt[ci].sp = sp; lt[ci].used = sp_used; lt[ci].pool = mc_real_malloc((size_t)SP_PAGE * (size_t)sp_used + 1); memcpy(lt[ci].pool, sp_pool, (size_t)SP_PAGE * (size_t)sp_used); lt[ci].l = lg; lt[ci].ok = true;
  } else { Evfs v = sp.vfs; sp = lt[ci].sp; sp.vfs = v; sp_used = lt[ci].used; memcpy(sp_pool, lt[ci].pool, (size_t)SP_PAGE * (size_t)sp_used); lg = lt[ci].l; }
  MC_CHECK(evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, "rot") == EVFS_OK, "reopen"); log_check("opened again"); mc_op("chunks of %lld, %d", (long long)lg.C, lg.M);
  for(int i = 0; i < 2; i++) {
    int o = mc_choose(9); int64_t s = lsize(), t;
    if(o < 4) { t = (int64_t[]){5, G2 + 1, G4 + 3, s - 1}[o]; if(t > s) mc_prune(); int st = evfs_file_truncate(f, t); mc_op("truncate %lld to %lld", (long long)s, (long long)t); MC_CHECK(st == EVFS_OK, "truncating %lld to %lld: %s", (long long)s, (long long)t, EN(st)); lg.T = lg.dropped + t; while(lg.n && lg.at[lg.n - 1] + 8 > lg.T) lg.n--; }
    else if(o < 7) { t = (int64_t[]){G2, G4 + 1, s - 1}[o - 4]; if(t > s || t < 0) mc_prune(); evfs_off_t v = t; int64_t st = (int64_t)evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &v), k = t / lg.C * lg.C; mc_op("trim %lld", (long long)t); if(k > s) k = s; MC_CHECK(st >= 0 || k > INT32_MAX, "trimming %lld of %lld gives %lld", (long long)t, (long long)s, (long long)st); lg.dropped += k; }
    else { MC_CHECK(evfs_file_seek(f, s, EVFS_SEEK_TO) == EVFS_OK, "seek"); append(o == 7 ? 8 : G2 / 2 + 1); }
    log_check("after an operation"); mc_state(mc_hash(MC_HASH0 + (unsigned)ci, &lg.T, 16));
  }
  MC_CHECK(evfs_file_close(f) == EVFS_OK, "close"); MC_CHECK(evfs_open_ex("/log", &f, EVFS_READ, "rot") == EVFS_OK, "reopen"); log_check("opened again"); evfs_file_close(f);
  evfs_unregister_all(); MC_CHECK(sp.open == 0, "something is left open");
}
static void cl(void) { be_clean(); mem_init(&be_mem, "mem"); fence_off(&fb); unmap(); evfs_unregister_all(); }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, PROP); mc_set_cleanup(cl); evfs_init(); (void)s_rw; (void)s_cp; (void)s_ro; (void)s_log;
  if(sizeof(evfs_off_t) != 8) { mc_note("needs 64-bit file offsets"); return 3; }
  mc_note("64-bit file offsets: sizes and positions around 2 GiB and 4 GiB, up to 20 GiB, in sparse files");
  if((PARTS) & 3) { mc_note("every sequence of %d of 20 reads and seeks on files of 9 sizes up to 8 GiB behind others of 5 sizes", mc_tier(2, 3)); mc_explore("huge read-only files", s_ro); }
  if((PARTS) & 12) { mc_note("every sequence of %d of 29 writes, reads, seeks and truncations on files of 5 sizes", mc_tier(2, 3)); mc_explore("huge files", s_rw); }
#ifdef WITH_FAT
  if((PARTS) & 16) { mc_note("a FAT volume of 6 GiB, the file under test at its start, behind 2 and behind 4 GiB"); mc_explore("huge volume", s_fat); }
#endif
  if((PARTS) & 32) { mc_note("copying the last 0 bytes to 4 GiB of files of 2 to 5 GiB"); mc_explore("huge copies", s_cp); }
  if((PARTS) & 64) { mc_note("rotating logs of up to 9 GiB: 4 geometries, every sequence of 2 of 9 truncations, trims and appends"); mc_explore("huge logs", s_log); }
  return mc_main_finish();
}
