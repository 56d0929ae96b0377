/* P21: copying and formatted output: complete or reported, for every fault position. */
#include "common.h"
#include "images.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"

static Mem g_s, g_d;
static Img im;
static Fence fb, fimg;
static unsigned char pat[2048];
static int rep_null(const char *s, void *c) { (void)s; (void)c; return 0; }

/* memory, tar in memory, trace on memory, jail on memory */
static const char *srcname[] = { "memory", "tar", "trace", "jail", "same file system" };
static const char *mount_src(int k, int size) {
  mem_init(&g_s, "src"); mem_init(&g_d, "dst");
  evfs_register(&g_s.vfs, false); evfs_register(&g_d.vfs, true);
  mem_mkdir(&g_s, "/j"); mem_put(&g_s, "/j/f", pat, size); mem_put(&g_d, "/f", pat, size);
  MC_CHECK(evfs_register_trace("tr", "src", rep_null, NULL, false) == EVFS_OK && evfs_register_jail("jl", "src", "/j", false) == EVFS_OK, "setup");
  if(k == 1) { tar_start(&im); tar_add(&im, "j/f", 0, '0', pat, size, 1); tar_end(&im, 2); MC_CHECK(evfs_register_tar_rsrc_fs("tar", (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n), (size_t)im.n, false) == EVFS_OK, "tar"); }
  return k == 0 ? "src" : k == 1 ? "tar" : k == 2 ? "tr" : k == 3 ? "jl" : "dst";
}
static const char *src_path(int k) { return k == 3 || k == 4 ? "/f" : "/j/f"; }
static void clean(void) { std_cleanup(); mem_free(&g_s); mem_free(&g_d); fence_off(&fimg); fence_off(&fb); }

static const int sizes[] = { 0, 1, 63, 64, 65, 130, 1000 };
enum { F_NONE, F_SRC, F_DST, F_SRC_SHORT, F_DST_SHORT, F_ALLOC, F_SRC_STAY, F_DST_STAY, NF };
static const char *fn[] = { "none", "source error", "destination error", "short read", "short write", "no memory", "source error from then on", "destination error from then on" };

static void s_copy(void) {
  int k = mc_choose(5), size = sizes[mc_choose(7)];
  int start = mc_choose(4); start = start == 0 ? 0 : start == 1 ? 1 : start == 2 ? size / 2 : size;
  if(start > size) mc_prune();
  int bufk = mc_choose(9);   /* 0..2 caller NULL with a size, others a caller buffer */
  static const int bs[] = { 0, 1, 100, 1, 3, 64, 65, 1000, 2000 };
  int dest = mc_choose(4);   /* absent, existing file, directory, missing parent */
  int fault = dest == 0 ? mc_choose(NF) : 0, at = fault ? 1 + mc_choose(mc_tier(9, 14)) : 0;
  int slen = fault == F_SRC_SHORT || fault == F_DST_SHORT ? mc_choose(2) : 0;
  mc_alloc_track(true);
  const char *sv = mount_src(k, size);
  const char *dp = dest == 3 ? "/no/d" : "/d";
  if(dest == 1) mem_put(&g_d, dp, "KEEP", 4);
  if(dest == 2) mem_mkdir(&g_d, dp);
  EvfsFile *f;
  MC_CHECK(evfs_open_ex(src_path(k), &f, EVFS_READ, sv) == EVFS_OK, "open source");
  MC_CHECK(evfs_file_seek(f, start, EVFS_SEEK_TO) == EVFS_OK, "seek source");
  mc_op("copy from %s: %d bytes from %d, %s buffer of %d, destination %s, fault: %s at %d", srcname[k], size, start, bufk < 3 ? "internal" : "caller's", bs[bufk], dest == 0 ? "absent" : dest == 1 ? "a file" : dest == 2 ? "a directory" : "without parent", fn[fault], at);
  char *buf = NULL;
  if(bufk >= 3) buf = fence_put(&fb, NULL, (size_t)bs[bufk]);
  uint64_t sh = mem_hash(&g_s), dh = mem_hash(&g_d);
  int live = mc_alloc_live(), of = g_s.open_files + g_d.open_files;
  unsigned mask = MF_FAILABLE | MF_BIT(MF_SIZE) | MF_BIT(MF_TELL) | MF_BIT(MF_CLOSE);
  Mem *fm = NULL;
  switch(fault) {
    case F_SRC: case F_SRC_STAY: fm = &g_s; mem_fault(fm, mask, at, EVFS_ERR_IO, fault == F_SRC_STAY); break;
    case F_DST: case F_DST_STAY: fm = &g_d; mem_fault(fm, mask, at, EVFS_ERR_FS_FULL, fault == F_DST_STAY); break;
    case F_SRC_SHORT: fm = &g_s; mem_fault(fm, MF_BIT(MF_READ), at, EVFS_ERR_IO, false); fm->short_io = true; fm->short_len = slen; break;
    case F_DST_SHORT: fm = &g_d; mem_fault(fm, MF_BIT(MF_WRITE), at, EVFS_ERR_IO, false); fm->short_io = true; fm->short_len = slen; break;
    case F_ALLOC: mc_alloc_fail_at(at); break;
  }
  int allocs = mc_alloc_count();
  bool dflt = mc_choose(2);
  int st = dflt ? evfs_copy_to_file(dp, f, buf, (size_t)bs[bufk]) : evfs_copy_to_file_ex(dp, f, buf, (size_t)bs[bufk], "dst");
  allocs = mc_alloc_count() - allocs;
  bool hit = fault == F_ALLOC ? mc_alloc_failed() : fm ? fm->fired : false;
  int fired = fm ? fm->fired_op : 0;
  mc_alloc_fail_at(0); mem_clear_fault(&g_s); mem_clear_fault(&g_d);
  mc_op("  -> %s%s%s", EN(st), hit ? ", fault hit " : "", hit && fired ? mem_op_name(fired) : "");
  if(fault && !hit) { MC_CHECK(st == EVFS_OK, "copy without any fault reports %s", EN(st)); }
  MemNode *d = mem_find(&g_d, dp);
  MC_CHECK(st <= 0, "copy returns %d", st);
  MC_CHECK(mem_hash(&g_s) == sh, "copying changes the source");
  if(dest) { MC_CHECK(st < 0, "copy to %s reports success", dest == 1 ? "an existing file" : dest == 2 ? "a directory" : "a missing directory"); MC_CHECK(mem_hash(&g_d) == dh, "a refused copy changes the destination"); }
  else {
    if(!hit) MC_CHECK(st == EVFS_OK, "copy of %d bytes from %d with a %s buffer of %d fails: %s", size, start, buf ? "caller's" : "internal", bs[bufk], EN(st));
    /* sync and a close of the source are not needed for the result */
    if(st == EVFS_OK) {
      MC_CHECK(d && d->size == size - start, "copy reports success but the destination has %d bytes instead of %d", d ? d->size : -1, size - start);
      MC_CHECK(size == start || !memcmp(d->data, pat + start, (size_t)(size - start)), "copy reports success but the contents differ");
      MC_CHECK(!(hit && fired == MF_CLOSE && fm == &g_d), "copy reports success although closing the destination failed");
    }
  }
  MC_CHECK(g_s.open_files + g_d.open_files == of, "copy leaves a file open");
  MC_CHECK(mc_alloc_live() == live, "copy leaks memory");
  
  if(buf && !dest && !hit && st == EVFS_OK && k != 2) { /* the tracing layer allocates its report texts */
    /* the same copy must need no more memory than opening the destination */
    int a0 = mc_alloc_count(); EvfsFile *t; MC_CHECK(evfs_open_ex("/e", &t, EVFS_WRITE | EVFS_OVERWRITE, "dst") == EVFS_OK, "open"); a0 = mc_alloc_count() - a0; evfs_file_close(t);
    MC_CHECK(allocs <= a0, "the caller's buffer is not used");
  }
  MC_CHECK(evfs_file_close(f) == EVFS_OK, "close source");
  if(!fault && size > 60) mc_sample("copy %d bytes from %d of %s with a %s buffer of %d", size, start, srcname[k], buf ? "caller's" : "internal", bs[bufk]);
  mc_state(mc_hash(MC_HASH0, &g_d.ops, sizeof g_d.ops) + (uint64_t)(size * 64 + bufk));
  clean();
}
/* between every pair of back ends, one long file, contents checked on the other side */
static void s_long(void) {
  int k = mc_choose(5), n = 900 + mc_choose(300), b = 60 + mc_choose(12);
  const char *sv = mount_src(k, n);
  EvfsFile *f; MC_CHECK(evfs_open_ex(src_path(k), &f, EVFS_READ, sv) == EVFS_OK, "open source");
  char *buf = fence_put(&fb, NULL, (size_t)b);
  mc_op("copy %d bytes by %d from %s", n, b, srcname[k]);
  MC_CHECK(evfs_copy_to_file("/d", f, buf, (size_t)b) == EVFS_OK, "copy fails");
  MemNode *d = mem_find(&g_d, "/d");
  MC_CHECK(d && d->size == n && !memcmp(d->data, pat, (size_t)n), "wrong copy");
  MC_CHECK(evfs_copy_to_file("/d2", f, NULL, 0) == EVFS_OK && mem_find(&g_d, "/d2")->size == 0, "copying from the end gives something");
  evfs_file_close(f);
  clean();
}

/* ---- formatted output ---- */
static void s_printf(void) {
  int where = mc_choose(3);      /* at start, after text, append mode */
  int fmt = mc_choose(14), len = mc_choose(6);
  static const int lens[] = { 0, 1, 2, 63, 300, 700 };
  int fault = mc_choose(4), slen = fault == 3 ? mc_choose(3) : 0;
  char arg[1024]; for(int i = 0; i < lens[len]; i++) arg[i] = (char)('a' + i % 26); arg[lens[len]] = 0;
  mc_alloc_track(true);
  mem_init(&g_d, "dst"); evfs_register(&g_d.vfs, true);
  mem_put(&g_d, "/f", "0123456789", 10);
  EvfsFile *f;
  MC_CHECK(evfs_open("/f", &f, where == 2 ? EVFS_WRITE | EVFS_APPEND : EVFS_WRITE | EVFS_OPEN_OR_NEW) == EVFS_OK, "open");
  if(where == 1) evfs_file_write(f, "xyz", 3);
  MemNode *nd = mem_find(&g_d, "/f");
  char before[64]; int bn = nd->size; memcpy(before, nd->data, (size_t)bn);
  int pos = where == 2 ? bn : where == 1 ? 3 : 0;
  char want[2048]; int wn = 0;
  int live = mc_alloc_live();
  if(fault == 1) mem_fault(&g_d, MF_BIT(MF_WRITE), 1, EVFS_ERR_FS_FULL, false);
  if(fault == 2) mc_alloc_fail_at(1);
  if(fault == 3) { mem_fault(&g_d, MF_BIT(MF_WRITE), 1, EVFS_ERR_IO, false); g_d.short_io = true; g_d.short_len = slen; }
  int v = 0; const char *what = "";
#define P(...) do { what = #__VA_ARGS__; wn = snprintf(want, sizeof want, __VA_ARGS__); v = evfs_file_printf(f, __VA_ARGS__); } while(0)
  switch(fmt) {
    case 0: P("%s", arg); break;
    case 1: P("[%d|%s|%d]", -5, arg, 7); break;
    case 2: P("%c", 0); break;
    case 3: P("a%cb%c%s", 0, 0, arg); break;
    case 4: P("%5d%-5d|%05x", 42, 42, 0xbeef); break;
    case 5: P("%%"); break;
    case 6: P("%s", ""); break;
    case 7: P("%.3s|%8s", arg, arg); break;
    case 8: P("%ld %lu %lld", -1L, 1UL, 1LL << 40); break;
    case 9: P("%*d %c", 100, 1, 255); break;
    case 10: P("\n%s\n", arg); break;
    case 11: P("%g %f", 1.5, 2.25); break;
    default: strcpy(want, arg); wn = (int)strlen(arg); what = "puts"; v = evfs_file_puts(f, arg); break;
  }
  bool hit = fault == 2 ? mc_alloc_failed() : g_d.fired;
  mc_alloc_fail_at(0); mem_clear_fault(&g_d);
  mc_op("printf(%s) with %d characters, fault %d -> %d", what, lens[len], fault, v);
  MC_CHECK(mc_alloc_live() == live, "printf leaks memory");
  int got = v > 0 ? v : 0;
  if(!hit) MC_CHECK(v == wn, "printf(%s) returns %d instead of %d", what, v, wn);
  else if(fault == 3) MC_CHECK(v < 0 || v <= wn, "printf returns %d", v);
  else MC_CHECK(v < 0, "a failed printf returns %d", v);
  if(v < 0) got = hit && fault == 3 ? nd->size - pos : 0;
  int wantsize = pos + got > bn ? pos + got : bn;
  if(where != 2 && pos < bn && hit) wantsize = nd->size;
  MC_CHECK(nd->size == wantsize, "printf(%s) leaves %d bytes in the file instead of %d", what, nd->size, wantsize);
  MC_CHECK(!memcmp(nd->data, before, (size_t)pos) && (hit || !memcmp(nd->data + pos, want, (size_t)wn)), "printf(%s) writes the wrong bytes", what);
  if(!hit && pos + wn < bn) MC_CHECK(!memcmp(nd->data + pos + wn, before + pos + wn, (size_t)(bn - pos - wn)), "printf(%s) changes bytes after its text", what);
  evfs_file_close(f);
  mc_sample("printf(%s)", what);
  mc_state(mc_hash(MC_HASH0 + (unsigned)where, want, (size_t)wn));
  clean();
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P21");
  for(int i = 0; i < 2048; i++) pat[i] = (unsigned char)(i * 7 + i / 256 + 1);
  evfs_init();
  mc_set_cleanup(clean);
  mc_note("Copies from 5 kinds of source, 7 sizes, 4 start positions, 9 buffers, 4 destination states, every single fault (error, lasting error, short transfer, no memory) at each of the first %d operations of either side", mc_tier(9, 14));
  mc_note("A short transfer by the base during formatted output is reported by the returned count, as for a plain write; a failed copy may leave a partial destination");
  mc_explore("copy", s_copy);
  mc_explore("long", s_long);
  mc_explore("printf", s_printf);
  return mc_main_finish();
}
