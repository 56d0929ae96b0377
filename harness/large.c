/* Files whose sizes and offsets need more than 16 (and 24) bits, on every back end and through the shims.
   PROP names the property, PARTS the scenarios: 1 read-only, 2 writable, 4 copying; KINDS limits the back ends. */
#include "common.h"
#include "images.h"
#include "backends.h"
#include "evfs/tar_iter.h"
#include "evfs/tar_iter_rsrc.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
static Img im; static Fence fimg, fb;
enum { K_TAR, K_TARMEM, K_ROM, K_ROMMEM, K_MEM, K_HOST, K_FAT, K_FAT1 };
static const char *kn[] = { "tar file", "tar in memory", "ROM image file", "ROM image in memory", "memory", "host", "FAT", "FAT volume 1" };
#define BIGCAP (20 << 20)
static unsigned char *big, *model, *rbuf;
static int rep_null(const char *s, void *c) { (void)s; (void)c; return 0; }
static EvfsFile *f; static const char *vfs; static int kind; static const char *prefix = "";
static int pick(unsigned set, int n) { int k[16], c = 0; for(int i = 0; i < n; i++) if(set >> i & 1) k[c++] = i; return k[mc_choose(c)]; }
static char *pth(const char *p) { static char b[700]; snprintf(b, sizeof b, "%s%s", prefix, p); return b; }
static void wrap(int w, const char *base) {
  vfs = base; prefix = be_root;
  if(w & 1) { MC_CHECK(evfs_register_trace("w", vfs, rep_null, NULL, false) == EVFS_OK, "trace"); vfs = "w"; }
  if(w & 2) { MC_CHECK(evfs_register_jail("j", vfs, be_root[0] ? be_root : "/", false) == EVFS_OK, "jail"); vfs = "j"; prefix = ""; }
}
static void same(const unsigned char *a, const unsigned char *b, long n, const char *what) { if(n > 0 && memcmp(a, b, (size_t)n)) { long i = 0; while(a[i] == b[i]) i++; mc_fail("%s: %s: byte %ld of %ld is wrong", kn[kind], what, i, n); } }
static void state(long pos, long size) {
  MC_CHECK(evfs_file_tell(f) == pos, "%s: position %ld instead of %ld", kn[kind], (long)evfs_file_tell(f), pos);
  MC_CHECK(kind == K_HOST || evfs_file_eof(f) == (pos >= size), "%s: end-of-file at %ld of %ld is %d", kn[kind], pos, size, evfs_file_eof(f));
  MC_CHECK(evfs_file_size(f) == size, "%s: size %ld instead of %ld", kn[kind], (long)evfs_file_size(f), size);
}
static long do_read(long pos, long size, const unsigned char *d, long k) {
  long want = size - pos < k ? size - pos : k;
  char *b = fence_put(&fb, NULL, (size_t)k); mc_op("read %ld at %ld", k, pos);
  long r = (long)evfs_file_read(f, b, (size_t)k);
  MC_CHECK(r == want, "%s: reading %ld at %ld of %ld gives %ld", kn[kind], k, pos, size, r);
  same((unsigned char *)b, d + pos, want, "reading"); return pos + want;
}
static long do_seek(long pos, long size, int i) {
  EvfsSeekDir org = i < 10 ? EVFS_SEEK_TO : i < 14 ? EVFS_SEEK_REL : EVFS_SEEK_REV;
  long off = (long[]){255, 256, 32767, 32768, 65535, 65536, 65537, size - 1, size, 0, 65536, -65536, 1, -1, 1, 65536, size}[i];
  long t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? pos + off : size - off;
  if(t < 0 || t > size) mc_prune();
  int st = evfs_file_seek(f, (evfs_off_t)off, org); mc_op("seek to %ld", t);
  MC_CHECK(st == EVFS_OK, "%s: seeking to %ld of %ld fails: %s", kn[kind], t, size, EN(st)); return t;
}
static void listing(const char *name, long size) {
  EvfsInfo inf; int st = evfs_stat_ex(pth(name), &inf, vfs);
  MC_CHECK(st == EVFS_OK && inf.size == size, "%s: stat gives %s and size %ld instead of %ld", kn[kind], EN(st), (long)inf.size, size);
  EvfsDir *d; if(kind <= K_TARMEM) return;
  MC_CHECK(evfs_open_dir_ex(prefix[0] ? prefix : "/", &d, vfs) == EVFS_OK, "open_dir"); int seen = 0;
  while((st = evfs_dir_read(d, &inf)) == EVFS_OK) if(!strcmp(inf.name, name + 1)) { seen++; if(inf.size && kind != K_HOST) MC_CHECK(inf.size == size, "%s: listed with size %ld instead of %ld", kn[kind], (long)inf.size, size); }
  MC_CHECK(seen == 1 && st == EVFS_DONE, "%s: listed %d times", kn[kind], seen); evfs_dir_close(d);
}
static void s_ro(void) {
  kind = pick(KINDS & 15, 4);
  long before = (long[]){300, 65536, 200001}[mc_choose(3)];
  int si = mc_choose(6); long size = (long[]){65535, 65536, 65537, 131075, 200003, (1 << 24) + 7}[si];
  int w = WRAPS ? 1 + mc_choose(3) : 0; EvfsFile *g = NULL; int st = EVFS_OK;
  if(kind < 2) { tar_start(&im); tar_add(&im, "x", 0, '0', big + 600, (int)before, 1); tar_add(&im, "f", 0, '0', big, (int)size, 1); tar_add(&im, "y", 0, '0', big + 600, 300, 1); tar_end(&im, 2); }
  else { RomNode nd[4] = {{.name = ".", .type = RN_DIR, .parent = -1}, {.name = "x", .type = RN_FILE, .data = big + 600, .size = (int)before}, {.name = "f", .type = RN_FILE, .data = big, .size = (int)size}, {.name = "y", .type = RN_FILE, .data = big + 600, .size = 300}}; rom_build(&im, nd, 4, "v"); }
  mem_init(&be_mem, "mem"); be_mem.op_limit = 200000000; evfs_register(&be_mem.vfs, true); be_root[0] = 0;
  if(!(kind & 1)) { mem_put(&be_mem, "/img", im.d, im.n); MC_CHECK(evfs_open_ex("/img", &g, EVFS_READ, "mem") == EVFS_OK, "open image"); }
  uint8_t *p = kind & 1 ? (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n) : NULL;
  switch(kind) {
    case 0: st = evfs_register_tar_fs("ro", g, true); break;
    case 1: st = evfs_register_tar_rsrc_fs("ro", p, (size_t)im.n, true); break;
    case 2: st = evfs_register_romfs("ro", g, true); break;
    case 3: st = evfs_register_rsrc_romfs("ro", p, (size_t)im.n, true); break;
  }
  MC_CHECK(st == EVFS_OK, "%s: mounting an image of %d bytes fails: %s", kn[kind], im.n, EN(st));
  wrap(w, "ro");
  MC_CHECK(evfs_open_ex("/f", &f, EVFS_READ, vfs) == EVFS_OK, "%s: open fails", kn[kind]); mc_op("%s: file of %ld bytes behind one of %ld, layers %d", kn[kind], size, before, w);
  long pos = 0; int depth = si == 5 ? 1 : mc_tier(2, 3);
  for(int i = 0; i < depth; i++) {
    int o = mc_choose(6 + 17);
    if(o < 6) pos = do_read(pos, size, big, (long[]){1, 65535, 65536, 65537, 100000, size + 10}[o]); else pos = do_seek(pos, size, o - 6);
    state(pos, size); mc_state(mc_hash(MC_HASH0 + (unsigned)kind, &pos, sizeof pos) + (uint64_t)size);
  }
  pos = do_read(pos, size, big, 9); state(pos, size);
  if(si < 5 || pos < 20) do_read(pos, size, big, size);
  MC_CHECK(evfs_file_close(f) == EVFS_OK, "close");
  listing("/f", size); listing("/x", before); listing("/y", 300);
  MC_CHECK(evfs_open_ex("/y", &f, EVFS_READ, vfs) == EVFS_OK, "%s: open fails", kn[kind]); do_read(0, 300, big + 600, 400); evfs_file_close(f);
  if(kind < 2 && w == 0) {   /* iterate over the members */
    long off[4], sz[4]; int n = 0; bool ok; TarFileIterator it; TarRsrcIterator ir; EvfsFile *h = NULL;
    if(kind == K_TAR) { MC_CHECK(evfs_open_ex("/img", &h, EVFS_READ, "mem") == EVFS_OK, "open"); tar_iter_init(&it, h); ok = tar_iter_begin(&it); }
    else { tar_rsrc_iter_init(&ir, p, (size_t)im.n); ok = tar_rsrc_iter_begin(&ir); }
    for(; ok && n < 4; n++) {
      off[n] = kind == K_TAR ? (long)tar_iter_file_offset(&it) : (long)tar_rsrc_iter_file_offset(&ir);
      sz[n] = kind == K_TAR ? (long)it.file_size : (long)ir.file_size;
      ok = kind == K_TAR ? tar_iter_next(&it) : tar_rsrc_iter_next(&ir);
    }
    long o2 = 512 + (before + 511) / 512 * 512, o3 = o2 + 512 + (size + 511) / 512 * 512;
    MC_CHECK(!ok && n == 3, "%s: iterating gives %d members", kn[kind], n);
    MC_CHECK(sz[0] == before && sz[1] == size && sz[2] == 300, "%s: wrong member sizes %ld %ld %ld", kn[kind], sz[0], sz[1], sz[2]);
    MC_CHECK(off[1] - off[0] == o2 && off[2] - off[0] == o3, "%s: wrong member offsets %ld %ld %ld", kn[kind], off[0], off[1], off[2]);
    if(h) evfs_file_close(h);
  }
  evfs_unregister_all(); MC_CHECK(be_mem.open_files == 0, "something is left open");
}
/* archives with very many members */
#define MAXN 3200
static void s_members(void) {
  static RomNode nd[MAXN + 40]; static char nm[MAXN + 40][200]; static int par[MAXN];
  kind = pick(KINDS & 15, 4); int cnt = (int[]){60, 127, 255, 256, 257, 511, 1000, 1025, 3000}[mc_choose(9)], lay = mc_choose(3), nn = 1, ndir = lay == 0 ? 0 : lay == 1 ? 20 : 12;
  if(kind >= 2) {
    nd[0] = (RomNode){.name = ".", .type = RN_DIR, .parent = -1};
    for(int i = 0; i < ndir; i++) { sprintf(nm[nn], "dir%d", i); nd[nn] = (RomNode){.name = nm[nn], .type = RN_DIR, .parent = lay == 2 ? nn - 1 : 0}; nn++; }
    for(int i = 0; i < cnt; i++) { par[i] = ndir ? i % ndir + 1 : 0; sprintf(nm[nn], "file%d", i * 7919); nd[nn] = (RomNode){.name = nm[nn], .type = RN_FILE, .parent = par[i], .data = big + i, .size = i % 40}; nn++; }
    rom_build(&im, nd, nn, "vol");
  } else {
    tar_start(&im);
    for(int i = 0; i < cnt; i++) {
      char p[300] = ""; par[i] = ndir ? i % ndir : -1;
      if(lay == 1) sprintf(p, "dir%d/", par[i]); else if(lay == 2) for(int k = 0; k <= par[i]; k++) sprintf(p + strlen(p), "dir%d/", k);
      sprintf(p + strlen(p), "file%d", i * 7919); tar_add(&im, p, 0, '0', big + i, i % 40, 7);
    }
    tar_end(&im, 2);
  }
  mem_init(&be_mem, "mem"); be_mem.op_limit = 200000000; evfs_register(&be_mem.vfs, true); be_root[0] = 0; EvfsFile *g = NULL; int st = EVFS_OK;
  if(!(kind & 1)) { mem_put(&be_mem, "/img", im.d, im.n); MC_CHECK(evfs_open_ex("/img", &g, EVFS_READ, "mem") == EVFS_OK, "open image"); }
  uint8_t *p = kind & 1 ? (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n) : NULL;
  switch(kind) {
    case 0: st = evfs_register_tar_fs("ro", g, true); break;
    case 1: st = evfs_register_tar_rsrc_fs("ro", p, (size_t)im.n, true); break;
    case 2: st = evfs_register_romfs("ro", g, true); break;
    case 3: st = evfs_register_rsrc_romfs("ro", p, (size_t)im.n, true); break;
  }
  MC_CHECK(st == EVFS_OK, "%s: mounting %d members fails: %s", kn[kind], cnt, EN(st)); wrap(0, "ro"); mc_op("%s: %d members, layout %d", kn[kind], cnt, lay);
  for(int i = 0; i < cnt; i++) {
    char q[300] = "/"; int d = kind >= 2 ? par[i] - 1 : par[i]; EvfsInfo inf; mc_tick();
    if(lay == 1) sprintf(q + 1, "dir%d/", d); else if(lay == 2) for(int k = 0; k <= d; k++) sprintf(q + strlen(q), "dir%d/", k);
    sprintf(q + strlen(q), "file%d", i * 7919);
    st = evfs_open_ex(q, &f, EVFS_READ, "ro"); MC_CHECK(st == EVFS_OK, "%s: of %d members '%s' cannot be opened: %s", kn[kind], cnt, q, EN(st));
    do_read(0, i % 40, big + i, 50); evfs_file_close(f); f = NULL;
    MC_CHECK(evfs_stat_ex(q, &inf, "ro") == EVFS_OK && inf.size == i % 40, "%s: stat of '%s'", kn[kind], q);
    strcat(q, "x"); MC_CHECK(evfs_open_ex(q, &f, EVFS_READ, "ro") < 0 && !evfs_existing_file(q), "%s: '%s' can be opened", kn[kind], q);
  }
  if(kind >= 2) for(int d = 0; d <= ndir; d++) {
    if(lay && d == 0 && lay == 1) continue;
    char q[300] = "/"; if(lay == 1) sprintf(q + 1, "dir%d", d - 1); else for(int k = 0; k < d; k++) sprintf(q + strlen(q), "dir%d/", k);
    static unsigned char seen[MAXN]; memset(seen, 0, sizeof seen); int n = 0, sub = 0; EvfsDir *dh; EvfsInfo inf;
    MC_CHECK(evfs_open_dir_ex(q, &dh, "ro") == EVFS_OK, "open_dir '%s'", q);
    while((st = evfs_dir_read(dh, &inf)) == EVFS_OK) { mc_tick(); int i; if(inf.name[0] == '.') continue; if(inf.type & EVFS_FILE_DIR) { sub++; continue; } i = atoi(inf.name + 4) / 7919; MC_CHECK(i >= 0 && i < cnt && par[i] == d && !seen[i], "%s: '%s' is listed in '%s'", kn[kind], inf.name, q); seen[i] = 1; n++; }
    int want = 0; for(int i = 0; i < cnt; i++) want += par[i] == d;
    MC_CHECK(st == EVFS_DONE && n == want && sub == (lay == 2 && d < ndir), "%s: '%s' lists %d files and %d directories instead of %d", kn[kind], q, n, sub, want); evfs_dir_close(dh);
  }
  mc_state(mc_hash(MC_HASH0 + (unsigned)kind, &cnt, sizeof cnt) + (uint64_t)lay);
  evfs_unregister_all(); MC_CHECK(be_mem.open_files == 0, "something is left open");
}
/* writing, seeking, truncating and reading large files */
static void s_rw(void) {
  kind = pick(KINDS >> 4 & (mc_thorough() ? 15 : 7), 4) + 4; int w = WRAPS ? 1 + mc_choose(3) : 0;
  be_up((int[]){BE_MEM, BE_STDIO, BE_FAT, BE_FAT1}[kind - 4], kind == K_MEM); wrap(w, be_vfs(kind == K_HOST ? BE_STDIO : BE_MEM));
  be_mem.op_limit = 0;
  MC_CHECK(evfs_open_ex(pth("/g"), &f, EVFS_WRITE | EVFS_OVERWRITE, vfs) == EVFS_OK && evfs_file_write(f, "neighbour", 9) == 9 && evfs_file_close(f) == EVFS_OK, "another file");
  long size = (long[]){0, 65535, 131075, 400000}[mc_choose(4)], pos = 0, wr = size; memcpy(model, big, (size_t)size);
  MC_CHECK(evfs_open_ex(pth("/f"), &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, vfs) == EVFS_OK, "create");
  if(size) MC_CHECK(evfs_file_write(f, big, (size_t)size) == size, "%s: writing %ld bytes fails", kn[kind], size);
  pos = size; mc_op("%s: file of %ld bytes, layers %d", kn[kind], size, w); state(pos, size);
  for(int i = 0; i < mc_tier(2, 3); i++) {
    int o = mc_choose(5 + 17 + 6 + 3);
    if(o < 5) { long k = (long[]){1, 65535, 65536, 65537, 200000}[o]; long r = (long)evfs_file_write(f, big + wr, (size_t)k); mc_op("write %ld at %ld", k, pos);
      MC_CHECK(r == k, "%s: writing %ld at %ld of %ld gives %ld", kn[kind], k, pos, size, r); memcpy(model + pos, big + wr, (size_t)k); wr += k; pos += k; if(pos > size) size = pos; }
    else if(o < 22) pos = do_seek(pos, size, o - 5);
    else if(o < 28) { long t = (long[]){0, 1, 65535, 65536, 65537, 131072}[o - 22]; if(t > size) mc_prune(); int st = evfs_file_truncate(f, (evfs_off_t)t); mc_op("truncate to %ld", t);
      MC_CHECK(st == EVFS_OK, "%s: truncating %ld to %ld fails: %s", kn[kind], size, t, EN(st)); size = t; if(pos > t) { pos = t; MC_CHECK(evfs_file_seek(f, (evfs_off_t)t, EVFS_SEEK_TO) == EVFS_OK, "seek"); } }
    else pos = do_read(pos, size, model, (long[]){65537, 1, size + 3}[o - 28]);
    state(pos, size); mc_state(mc_hash(MC_HASH0 + (unsigned)kind, &pos, sizeof pos) + (uint64_t)size * 31);
  }
  MC_CHECK(evfs_file_close(f) == EVFS_OK, "close fails");
  for(int round = 0; round < 2; round++) {
    listing("/f", size); listing("/g", 9);
    MC_CHECK(evfs_open_ex(pth("/f"), &f, EVFS_READ, vfs) == EVFS_OK, "reopen"); do_read(0, size, model, size + 5); state(size, size); evfs_file_close(f);
    MC_CHECK(evfs_open_ex(pth("/g"), &f, EVFS_READ, vfs) == EVFS_OK, "reopen"); do_read(0, 9, (unsigned char *)"neighbour", 12); evfs_file_close(f);
#ifdef WITH_FAT
    if(kind < K_FAT || round) break;
    for(int v = 0; v < 2; v++) if(fat_up[v]) { fat_down(v); int st = fat_mount(v); MC_CHECK(st == EVFS_OK, "mounting again fails: %s", EN(st)); }
#endif
  }
}
static void s_cp(void) {
  long size = (long[]){65535, 65536, 65537, 131075, 400001}[mc_choose(5)], start = (long[]){0, 1, 65535, 65536}[mc_choose(4)];
  int bk = mc_choose(10); long bs = (long[]){0, 70000, 4096, 4097, 65535, 65536, 65537, 131072, 300000, 500000}[bk]; if(start > size) mc_prune();
  int w = mc_choose(4), dw = mc_choose(2); kind = K_MEM; static Mem dst;
  be_up(BE_MEM, true); wrap(w, "be"); mem_put(&be_mem, "/f", big, (int)size); mem_init(&dst, "dst"); evfs_register(&dst.vfs, false); be_mem.op_limit = dst.op_limit = 0;
  if(dw) MC_CHECK(evfs_register_trace("dw", "dst", rep_null, NULL, false) == EVFS_OK, "trace");
  MC_CHECK(evfs_open_ex("/f", &f, EVFS_READ, vfs) == EVFS_OK && evfs_file_seek(f, (evfs_off_t)start, EVFS_SEEK_TO) == EVFS_OK, "open");
  char *b = bk >= 2 ? fence_put(&fb, NULL, (size_t)bs) : NULL;
  int st = evfs_copy_to_file_ex("/d", f, b, (size_t)bs, dw ? "dw" : "dst"); mc_op("copy %ld from %ld by %ld %s, layers %d -> %s", size, start, bs, b ? "of the caller" : "internal", w, EN(st));
  MC_CHECK(st == EVFS_OK, "copying %ld bytes from %ld fails: %s", size, start, EN(st));
  MemNode *d = mem_find(&dst, "/d"); MC_CHECK(d && d->size == size - start, "the copy has %d bytes instead of %ld", d ? d->size : -1, size - start); same(d->data, big + start, size - start, "the copy");
  mc_state(mc_hash(MC_HASH0 + (unsigned)bk, &size, sizeof size) + (uint64_t)start);
  evfs_file_close(f); evfs_unregister_all(); mem_free(&dst);
}
static void cl(void) { be_clean(); mem_init(&be_mem, "mem"); fence_off(&fimg); fence_off(&fb); }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, PROP); mc_set_cleanup(cl); evfs_init();
  big = mc_real_malloc(BIGCAP); model = mc_real_malloc(4 << 20); for(uint32_t i = 0; i < BIGCAP; i++) { uint32_t x = i * 2654435761u; x ^= x >> 15; x *= 2246822519u; big[i] = (unsigned char)(x >> 13 ^ x >> 24); }
  mc_note("large files: sizes and offsets around 64 KiB, up to 400000 bytes%s", (PARTS) & 1 ? ", and 16 MiB" : "");
  if((PARTS) & 1) { mc_note("every sequence of %d of 23 reads and seeks on files of 6 sizes (65535..16 MiB+7) behind others of 3 sizes", mc_tier(2, 3)); mc_explore("large read-only files", s_ro); }
  if((PARTS) & 8) { mc_note("archives of 60 to 3000 members, flat, in 20 directories and in a chain of 12"); mc_explore("many members", s_members); }
  if((PARTS) & 2) { mc_note("every sequence of %d of 31 writes, seeks, truncations and reads on files of 4 sizes up to 400000 bytes", mc_tier(2, 3)); mc_explore("large files", s_rw); }
  if((PARTS) & 4) { mc_note("copies of 5 sizes from 4 positions with 10 buffer sizes through 8 layerings"); mc_explore("large copies", s_cp); }
  return mc_main_finish();
}
