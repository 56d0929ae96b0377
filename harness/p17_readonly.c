/* P17: nothing modifies a read-only file system, whatever is called on it. */
#include <ctype.h>
#include "fsmodel.h"
#include "images.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_rotate.h"

enum { K_STDIO, K_FAT, K_TAR, K_TARR, K_ROM, K_ROMR, K_N };
static const char *kn[] = { "host", "FAT", "tar file", "tar in memory", "ROM image file", "ROM image in memory" };
enum { L_NONE, L_JAIL, L_TRACE, L_ROT, L_JAILTRACE, L_N };
static const char *lname[] = { "", " through a jail", " through tracing", " through the rotate shim", " through a traced jail" };
static Img im; static Fence fimg; static uint64_t img_hash; static uint8_t *img_p;
static int rep_null(const char *s, void *c) { (void)s; (void)c; return 0; }
static int K, L; static const char *top; static bool jailed;
static const char *under(void) { return K == K_STDIO ? "stdio" : K == K_FAT ? "be" : "ro"; }
static char *P(const char *p) { static char b[4][600]; static int i; i = (i + 1) & 3; snprintf(b[i], 600, "%s%s", jailed || K != K_STDIO ? "" : be_root, p); return b[i]; }
/* the jail is the directory /zqj, so the same names mean something below it only */
static void setup(void) {
  jailed = L == L_JAIL || L == L_JAILTRACE;
  if(K <= K_FAT) {
    fm_up(K == K_STDIO ? BE_STDIO : BE_FAT);
    if(jailed) fm_dir("/zqj");
    const char *b = jailed ? "/zqj" : ""; char p[64];
    snprintf(p, 64, "%s/zqf", b); fm_file(p, "hello", 5);
    snprintf(p, 64, "%s/zqd", b); fm_dir(p);
    snprintf(p, 64, "%s/zqd/g", b); fm_file(p, "G", 1);
    snprintf(p, 64, "%s/zqe", b); fm_dir(p);
  } else {
    be_up(BE_MEM, true); fm_be = BE_MEM;
    const char *b = jailed ? "zqj/" : ""; char n[64];
    if(K <= K_TARR) {
      tar_start(&im);
      if(jailed) tar_add(&im, "zqj/", 0, '5', NULL, 0, 1);
      snprintf(n, 64, "%szqf", b); tar_add(&im, n, 0, '0', "hello", 5, 1);
      snprintf(n, 64, "%szqd/", b); tar_add(&im, n, 0, '5', NULL, 0, 1);
      snprintf(n, 64, "%szqd/g", b); tar_add(&im, n, 0, '0', "G", 1, 1);
      snprintf(n, 64, "%szqe/", b); tar_add(&im, n, 0, '5', NULL, 0, 1);
      tar_end(&im, 2);
    } else {
      RomNode nd[8] = {{.name = ".", .type = RN_DIR, .parent = -1}}; int c = 1, root = 0;
      if(jailed) { nd[c] = (RomNode){.name = "zqj", .type = RN_DIR, .parent = 0}; root = c++; }
      nd[c++] = (RomNode){.name = "zqf", .type = RN_FILE, .parent = root, .data = "hello", .size = 5};
      nd[c++] = (RomNode){.name = "zqd", .type = RN_DIR, .parent = root};
      nd[c++] = (RomNode){.name = "g", .type = RN_FILE, .parent = c - 1, .data = "G", .size = 1}; nd[c - 1].parent = c - 2;
      nd[c++] = (RomNode){.name = "zqe", .type = RN_DIR, .parent = root};
      rom_build(&im, nd, c, "v");
    }
    EvfsFile *f = NULL; int st;
    if(K == K_TAR || K == K_ROM) { mem_put(&be_mem, "/img", im.d, im.n); MC_CHECK(evfs_open_ex("/img", &f, EVFS_RDWR, "be") == EVFS_OK, "image"); }
    else { img_p = (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n); img_hash = mc_hash(MC_HASH0, img_p, (size_t)im.n); }
    switch(K) { case K_TAR: st = evfs_register_tar_fs("ro", f, false); break; case K_TARR: st = evfs_register_tar_rsrc_fs("ro", img_p, (size_t)im.n, false); break;
      case K_ROM: st = evfs_register_romfs("ro", f, false); break; default: st = evfs_register_rsrc_romfs("ro", img_p, (size_t)im.n, false); }
    MC_CHECK(st == EVFS_OK, "mounting fails");
  }
  top = under();
  if(jailed) { MC_CHECK(evfs_register_jail("zqjail", top, K == K_STDIO ? be_path("/zqj") : "/zqj", false) == EVFS_OK, "jail"); top = "zqjail"; }
  if(L == L_TRACE || L == L_JAILTRACE) { MC_CHECK(evfs_register_trace("zqtrace", top, rep_null, NULL, false) == EVFS_OK, "trace"); top = "zqtrace"; }
  if(L == L_ROT) { RotateConfig rc = { .chunk_size = 32, .max_chunks = 3 }; MC_CHECK(evfs_register_rotate("zqrot", top, &rc, false) == EVFS_OK, "registering rotate fails"); top = "zqrot"; }
  if(K == K_TAR || K == K_ROM) { img_hash = mem_hash(&be_mem); be_mem.mutations = 0; }
}
static void unchanged(const char *what) {
  if(K <= K_FAT) { char w[200]; snprintf(w, sizeof w, "%s%s: %s on a read-only file system", kn[K], lname[L], what); fm_verify(&fm_t, w); }
  else if(K == K_TAR || K == K_ROM) MC_CHECK(be_mem.mutations == 0 && mem_hash(&be_mem) == img_hash, "%s%s: %s modifies the image", kn[K], lname[L], what);
  else MC_CHECK(mc_hash(MC_HASH0, img_p, (size_t)im.n) == img_hash, "%s%s: %s modifies the image", kn[K], lname[L], what);
}
static void refused(int st, const char *what) { MC_CHECK(st < 0, "%s%s: %s on a read-only file system reports success", kn[K], lname[L], what); }
static void readable(void) {
  EvfsFile *f; char b[16]; EvfsInfo inf;
  int st = evfs_open_ex(P("/zqf"), &f, EVFS_READ, top);
  MC_CHECK(st == EVFS_OK, "%s%s: reading fails: %s", kn[K], lname[L], EN(st));
  MC_CHECK(evfs_file_read(f, b, 16) == 5 && !memcmp(b, "hello", 5), "%s%s: reading gives wrong data", kn[K], lname[L]);
  MC_CHECK(evfs_file_close(f) == EVFS_OK, "close");
  MC_CHECK(evfs_stat_ex(P("/zqd/g"), &inf, top) == EVFS_OK && inf.size == 1, "%s%s: stat fails", kn[K], lname[L]);
}
static void ro_switch(unsigned on, const char *via) { MC_CHECK(evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &on, via) == EVFS_OK, "%s%s: the read-only switch fails", kn[K], lname[L]); mc_op("read-only %s via %s", on ? "on" : "off", via); }
static const char *paths[] = { "/zqf", "/zqnew", "/zqd/g", "/zqd/new", "/zqe", "/zqd" };
/* one operation that tries to modify; p must not exist on the host outside the scratch directory */
static void attempt(int which) {
  int a = mc_choose(6); const char *p = paths[a]; int st = 0; EvfsFile *f; static char txt[128];
  bool exists = a != 1 && a != 3, isdir = a >= 4;
  switch(which) {
    case 0: {   /* open with every flag combination, then write and truncate */
      int fl = mc_choose(64);
      st = evfs_open_ex(P(p), &f, fl, top); mc_op("open '%s' (%s) -> %s", p, flag_str(fl), EN(st));
      snprintf(txt, sizeof txt, "open (%s)", flag_str(fl));
      if(st != EVFS_OK) { MC_CHECK(f == NULL, "a failed open leaves a handle"); break; }
      if(isdir) { evfs_file_close(f); break; }
      MC_CHECK(exists, "%s%s: open (%s) of a missing file succeeds on a read-only file system", kn[K], lname[L], flag_str(fl));
      MC_CHECK(!(fl & (EVFS_WRITE | EVFS_OVERWRITE | EVFS_APPEND | EVFS_OPEN_OR_NEW)), "%s%s: open (%s) succeeds on a read-only file system", kn[K], lname[L], flag_str(fl));
      int v = (int)evfs_file_write(f, "XY", 2); mc_op("write -> %d", v);
      if(v == 2) v = evfs_file_sync(f) == EVFS_OK ? v : -1;
      MC_CHECK(v <= 0, "%s%s: a write reports success on a read-only file system", kn[K], lname[L]); refused(v, "a write");
      st = evfs_file_truncate(f, 1); mc_op("truncate -> %s", EN(st)); refused(st, "truncate");
      st = evfs_file_seek(f, 100, EVFS_SEEK_TO); if(st == EVFS_OK) evfs_file_write(f, "Z", 1);
      evfs_file_puts(f, "puts"); evfs_file_printf(f, "%d", 5);
      evfs_file_sync(f); evfs_file_close(f); break;
    }
    case 1: st = evfs_delete_ex(P(p), top); mc_op("delete '%s' -> %s", p, EN(st)); refused(st, "delete"); strcpy(txt, "delete"); break;
    case 2: { int b = mc_choose(6); st = evfs_rename_ex(P(p), P(paths[b]), top); mc_op("rename '%s' '%s' -> %s", p, paths[b], EN(st)); if(a != b) refused(st, "rename"); strcpy(txt, "rename"); break; }
    case 3: st = evfs_make_dir_ex(P(p), top); mc_op("make_dir '%s' -> %s", p, EN(st)); refused(st, "make_dir"); strcpy(txt, "make_dir"); break;
    case 4: st = evfs_make_path_ex(P(p), top); mc_op("make_path '%s' -> %s", p, EN(st)); if(!isdir) refused(st, "make_path"); strcpy(txt, "make_path"); break;
    case 5: {   /* copy onto it */
      EvfsFile *src; static char cb[64];
      MC_CHECK(evfs_open_ex("/s", &src, EVFS_READ, "zqsrc") == EVFS_OK, "source");
      st = evfs_copy_to_file_ex(P(p), src, cb, sizeof cb, top); mc_op("copy to '%s' -> %s", p, EN(st)); refused(st, "copy");
      evfs_file_close(src); strcpy(txt, "copy"); break;
    }
    case 6: {   /* append to and read from an existing log */
      if(L != L_ROT || K > K_FAT) return;
      static const int fls[] = { EVFS_READ, EVFS_WRITE | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_RDWR, EVFS_WRITE | EVFS_OVERWRITE };
      int fl = fls[a]; char b[64];
      st = evfs_open_ex(P("/zqr"), &f, fl, top); mc_op("open log (%s) -> %s", flag_str(fl), EN(st));
      if(fl == EVFS_READ) MC_CHECK(st == EVFS_OK, "%s: a log can not be read on a read-only file system: %s", kn[K], EN(st));
      if(st == EVFS_OK) {
        if(fl & EVFS_READ) { if(!(fl & EVFS_APPEND)) evfs_file_seek(f, 0, EVFS_SEEK_TO); else evfs_file_seek(f, 0, EVFS_SEEK_TO);
          int v = (int)evfs_file_read(f, b, 64); MC_CHECK((v < 0 && fl != EVFS_READ) || (v == 14 && !memcmp(b, "log line one!!", 14)), "%s: reading a log on a read-only file system gives %d bytes", kn[K], v); }
        if(fl != EVFS_READ) { int v = (int)evfs_file_write(f, "more than a chunk", 17); mc_op("write -> %d", v); if(v == 17) v = evfs_file_sync(f) == EVFS_OK ? v : -1; MC_CHECK(v < 0, "%s: appending to a log on a read-only file system gives %d", kn[K], v); }
        evfs_file_close(f);
      }
      unchanged("using a log");
      unsigned sz = 4; st = 0; (void)sz; break;
    }
  }
  if(txt[0]) unchanged(txt);
  txt[0] = 0;
}
static Mem srcm;
static const char *vias(int i) { return i ? top : under(); }
static void start(void) {
  mc_alloc_track(true);
  setup();
  mem_init(&srcm, "zqsrc"); mem_put(&srcm, "/s", "source data", 11); evfs_register(&srcm.vfs, false);
  if(K <= K_FAT) {
    if(L == L_ROT) { EvfsFile *f; MC_CHECK(evfs_open_ex(P("/zqr"), &f, EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_APPEND, top) == EVFS_OK && evfs_file_write(f, "log line one!!", 14) == 14 && evfs_file_close(f) == EVFS_OK, "preparing a log fails"); }
    fm_snapshot("/");
    if(fm_fat()) { fm_remount(); }
  }
  mc_op("%s%s", kn[K], lname[L]);
}
static void s_one(void) {
  K = mc_choose(K_N); L = mc_choose(L_N);
  int which = mc_choose(L == L_ROT && K <= K_FAT ? 7 : 6), via = K <= K_FAT ? mc_choose(2) : 0;
  start();
  if(K <= K_FAT) ro_switch(1, vias(via));
  int live = mc_alloc_live();
  readable();
  attempt(which);
  readable();
  MC_CHECK(mc_alloc_live() == live, "a refused operation leaks");
  mc_state(mc_hash(MC_HASH0 + (unsigned)(K * 8 + L), &which, sizeof which));
  if(K <= K_FAT) {   /* switching back restores writing */
    ro_switch(0, vias(1 - via)); EvfsFile *f;
    int st = evfs_open_ex(P("/zqnew2"), &f, EVFS_WRITE | EVFS_NO_EXIST, under());
    if(!jailed || K != K_STDIO) { MC_CHECK(st == EVFS_OK && evfs_file_write(f, "w", 1) == 1 && evfs_file_close(f) == EVFS_OK, "%s%s: writing fails after the switch is off: %s", kn[K], lname[L], EN(st)); }
    else if(st == EVFS_OK) evfs_file_close(f);
  }
}
/* operations between switches; handles opened on either side of them */
static void s_toggle(void) {
  K = mc_choose(2); L = mc_choose(mc_tier(3, L_N));
  int k = mc_tier(5, 6); bool ro = false; EvfsFile *h = NULL; char file[64] = "hello"; int n = 5, pos = 0; bool hw = false;
  start();
  for(int s = 0; s < k; s++) {
    int op = mc_choose(9); if(op == 0) break; int st; char b[64];
    if((op == 1 || op == 2) == (h != NULL) && (op <= 2)) continue;
    if(op >= 3 && op <= 6 && !h) continue;
    switch(op) {
      case 1: st = evfs_open_ex(P("/zqf"), &h, EVFS_RDWR, top); mc_op("open for reading and writing -> %s", EN(st));
        if(!ro) MC_CHECK(st == EVFS_OK, "open fails: %s", EN(st)); hw = true; if(st != EVFS_OK) h = NULL; pos = 0; break;
      case 2: st = evfs_open_ex(P("/zqf"), &h, EVFS_READ, top); mc_op("open for reading -> %s", EN(st)); MC_CHECK(st == EVFS_OK, "open for reading fails: %s", EN(st)); hw = false; pos = 0; break;
      case 3: { char d[2] = { (char)('A' + s), 0 }; int v = (int)evfs_file_write(h, d, 1); mc_op("write -> %d", v);
        if(ro || !hw) { MC_CHECK(v < 0, "%s%s: writing %s gives %d", kn[K], lname[L], ro ? "to a read-only file system" : "to a file opened for reading", v); break; }
        MC_CHECK(v == 1, "writing gives %d", v); file[pos++] = d[0]; if(pos > n) n = pos; MC_CHECK(evfs_file_sync(h) == EVFS_OK, "sync"); break; }
      case 4: st = evfs_file_truncate(h, 2); mc_op("truncate -> %s", EN(st));
        if(ro || !hw) { MC_CHECK(st != EVFS_OK || (!hw && !ro && n <= 2), "%s%s: truncating %s succeeds", kn[K], lname[L], ro ? "on a read-only file system" : "a file opened for reading"); break; }
        MC_CHECK(st == EVFS_OK, "truncating fails: %s", EN(st)); if(n > 2) n = 2; pos = (int)evfs_file_tell(h); if(pos > n) { MC_CHECK(evfs_file_seek(h, 0, EVFS_SEEK_TO) == EVFS_OK, "seek"); pos = 0; } MC_CHECK(evfs_file_sync(h) == EVFS_OK, "sync"); break;
      case 5: { MC_CHECK(evfs_file_seek(h, 0, EVFS_SEEK_TO) == EVFS_OK, "seek fails"); int v = (int)evfs_file_read(h, b, 64); mc_op("read -> %d", v); MC_CHECK(v == n && !memcmp(b, file, (size_t)n), "%s%s: reading gives %d of %d bytes", kn[K], lname[L], v, n); pos = n; break; }
      case 6: st = evfs_file_close(h); mc_op("close -> %s", EN(st)); MC_CHECK(st == EVFS_OK, "close fails"); h = NULL; break;
      case 7: ro = !ro; ro_switch(ro, vias(s & 1)); break;
      case 8: st = evfs_make_dir_ex(P("/zqnd"), top); mc_op("make_dir -> %s", EN(st));
        if(ro) { refused(st, "make_dir"); break; }
        if(st == EVFS_OK) MC_CHECK(evfs_delete_ex(P("/zqnd"), top) == EVFS_OK, "delete fails"); else MC_CHECK(0, "make_dir fails: %s", EN(st)); break;
    }
    char fp[64]; snprintf(fp, 64, "%s/zqf", jailed ? "/zqj" : ""); TNode *x = tr_get(&fm_t, fp); x->n = 0; tr_set(x, 0, file, n);
    if((op == 3 || op == 4 || op == 8) && (!fm_fat() || !h)) fm_verify(&fm_t, ro ? "while read-only" : "while writable");
    mc_state(mc_hash(mc_hash(MC_HASH0 + (unsigned)(K * 8 + L) * 4 + ro * 2 + (h != NULL), file, (size_t)n), &pos, sizeof pos));
  }
  if(h) evfs_file_close(h);
  fm_verify(&fm_t, "at the end");
  if(fm_fat()) { fm_remount(); fm_verify(&fm_t, "after remounting"); }
}
static void clean(void) { fm_clean(); mem_free(&srcm); fence_off(&fimg); }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P17");
  evfs_init();
  mc_set_cleanup(clean);
  fm_nbe = 1;
  mc_note("Every open-flag combination x 6 targets (files, directories, missing ones), delete, rename of every pair, make_dir, make_path, copy and rotating-log use, on 6 read-only file systems x {direct, jail, trace, rotate, traced jail}; after each the storage is compared with its state before (host files and FAT contents by name and bytes, images by bytes)");
  mc_note("Every sequence of %d steps of open, write, truncate, read, close, make_dir and the read-only switch, also with handles opened before the switch; data written before the switch is synced before it", mc_tier(5, 6));
  mc_explore("one", s_one);
  mc_explore("toggle", s_toggle);
  return mc_main_finish();
}
