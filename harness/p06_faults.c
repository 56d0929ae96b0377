/* P06: every single allocation and every single underlying operation failing, for every operation of the API. */
#include <ctype.h>
#include <stdarg.h>
#define _GNU_SOURCE
#include "backends.h"
#include "images.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_rotate.h"
#include "evfs/util/dhash.h"

/* ---- host calls that can be made to fail ---- */
static long hc_seen, hc_at, hc_second; static bool hc_forever, hc_fired;
static const char *hc_name;
static bool hfail(const char *name) {
  if(!hc_at) return false;
  hc_seen++;
  if(hc_seen == hc_at || (hc_second && hc_seen == hc_at + hc_second) || (hc_forever && hc_seen > hc_at)) { if(!hc_fired) hc_name = name; hc_fired = true; return true; }
  return false;
}
static int h_files, h_dirs;
/* ---- locks: initialisation can fail, and no call may keep one ---- */
static int lk_inits, lk_held, lk_at, lk_seen; static bool lk_fired, lk_forever;
#ifdef WITH_LOCKS
#include <pthread.h>
static pthread_mutex_t *lk_m[64]; static int lk_n;
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  if(lk_at) { lk_seen++; if(lk_seen == lk_at || (lk_forever && lk_seen > lk_at)) { lk_fired = true; return EAGAIN; } }
  int r = __real_pthread_mutex_init(m, a); if(r == 0) lk_inits++; return r;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { for(int i = 0; i < lk_n; i++) MC_CHECK(lk_m[i] != m, "a locked lock is destroyed"); lk_inits--; return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { for(int i = 0; i < lk_n; i++) MC_CHECK(lk_m[i] != m, "deadlock: a lock is taken while the call already holds it"); if(lk_n < 64) lk_m[lk_n++] = m; lk_held = lk_n; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { for(int i = 0; i < lk_n; i++) if(lk_m[i] == m) { lk_m[i] = lk_m[--lk_n]; lk_held = lk_n; return 0; } mc_fail("a lock is released that is not held"); return 0; }
#endif
static void lk_reset(void) {
#ifdef WITH_LOCKS
  lk_n = 0;
#endif
  lk_held = 0;
}
#ifdef WITH_HOST
#define FAIL(bad, ...) do { if(hfail(__func__ + 7)) { errno = EIO; return bad; } } while(0)
FILE *__real_fopen(const char *, const char *); FILE *__wrap_fopen(const char *p, const char *m) { FAIL(NULL); FILE *f = __real_fopen(p, m); if(f) h_files++; return f; }
int __real_fclose(FILE *); int __wrap_fclose(FILE *f) { bool x = hfail("fclose"); h_files--; int r = __real_fclose(f); if(x) { errno = EIO; return EOF; } return r; }
size_t __real_fread(void *, size_t, size_t, FILE *); size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f);
size_t __real_fwrite(const void *, size_t, size_t, FILE *); size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f);
int __real_ferror(FILE *);
static FILE *err_on;     /* stream whose error indicator is set by an injected failure */
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { if(hfail("fread")) { errno = EIO; err_on = f; return 0; } return __real_fread(b, s, n, f); }
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { if(hfail("fwrite")) { errno = EIO; err_on = f; return 0; } return __real_fwrite(b, s, n, f); }
int __wrap_ferror(FILE *f) { return err_on == f ? 1 : __real_ferror(f); }
void __real_clearerr(FILE *); void __wrap_clearerr(FILE *f) { if(err_on == f) err_on = NULL; __real_clearerr(f); }
int __real_fflush(FILE *); int __wrap_fflush(FILE *f) { FAIL(EOF); return __real_fflush(f); }
int __real_ftruncate(int, off_t); int __wrap_ftruncate(int d, off_t n) { FAIL(-1); return __real_ftruncate(d, n); }
int __real_fstat(int, struct stat *); int __wrap_fstat(int d, struct stat *s) { FAIL(-1); return __real_fstat(d, s); }
int __real_stat(const char *, struct stat *); int __wrap_stat(const char *p, struct stat *s) { FAIL(-1); return __real_stat(p, s); }
int __real_fseek(FILE *, long, int); int __wrap_fseek(FILE *f, long o, int w) { FAIL(-1); return __real_fseek(f, o, w); }
long __real_ftell(FILE *); long __wrap_ftell(FILE *f) { FAIL(-1); return __real_ftell(f); }
DIR *__real_opendir(const char *); DIR *__wrap_opendir(const char *p) { FAIL(NULL); DIR *d = __real_opendir(p); if(d) h_dirs++; return d; }
int __real_closedir(DIR *); int __wrap_closedir(DIR *d) { h_dirs--; return __real_closedir(d); }
struct dirent *__real_readdir(DIR *); struct dirent *__wrap_readdir(DIR *d) { FAIL(NULL); return __real_readdir(d); }
int __real_remove(const char *); int __wrap_remove(const char *p) { FAIL(-1); return __real_remove(p); }
int __real_rename(const char *, const char *); int __wrap_rename(const char *a, const char *b) { FAIL(-1); return __real_rename(a, b); }
int __real_mkdir(const char *, mode_t); int __wrap_mkdir(const char *p, mode_t m) { FAIL(-1); return __real_mkdir(p, m); }
int __real_chdir(const char *); int __wrap_chdir(const char *p) { FAIL(-1); return __real_chdir(p); }
char *__real_getcwd(char *, size_t); char *__wrap_getcwd(char *b, size_t n) { FAIL(NULL); return __real_getcwd(b, n); }
#endif

enum { C_MEM, C_JAIL, C_TRACE, C_ROT, C_RJ, C_TR, C_JT, C_TAR, C_TARR, C_ROM, C_ROMR,
#ifdef WITH_HOST
  C_HOST, C_JHOST,
#endif
#ifdef WITH_FAT
  C_FAT, C_JFAT,
#endif
  C_N };
static const char *cname[] = { "memory", "jail", "trace", "rotate", "rotate over jail", "trace over rotate", "jail over trace", "tar file", "tar in memory", "ROM file", "ROM in memory",
#ifdef WITH_HOST
  "host", "jail on host",
#endif
#ifdef WITH_FAT
  "FAT", "jail on FAT",
#endif
};
static int C;
static bool ro(void) { return C >= C_TAR && C <= C_ROMR; }
static bool rot(void) { return C == C_ROT || C == C_RJ || C == C_TR; }
static bool mem_base(void) {
#ifdef WITH_HOST
  if(C == C_HOST || C == C_JHOST) return false;
#endif
#ifdef WITH_FAT
  if(C == C_FAT || C == C_JFAT) return false;
#endif
  return true;
}
static const char *X;                  /* name of the file system under test */
static char pre[600];                  /* prefix of every path on it */
static char *P(const char *p) { static char b[8][700]; static int i; i = (i + 1) & 7; snprintf(b[i], 700, "%s%s", p[0] == '/' ? pre : "", p); return b[i]; }
static int rep_null(const char *s, void *c) { (void)s; (void)c; return 0; }
static Img im; static Fence fimg; static unsigned char *img_p;
static unsigned char txt[400];
static EvfsFile *img_fh;
static RotateConfig rcfg = { 32, 3 };

static void ok(int st, const char *what) { if(st < 0) mc_fail("harness: preparing %s (%s) fails: %s", cname[C], what, EN(st)); }
static void putf(const char *p, const void *d, int n) { EvfsFile *f; ok(evfs_open_ex(P(p), &f, EVFS_WRITE | EVFS_OVERWRITE, X), p); ok(n == (int)evfs_file_write(f, d, (size_t)n) ? 0 : -1, "write"); ok(evfs_file_close(f), "close"); }
static void image(void) {
  if(C <= C_TARR) { tar_start(&im); tar_add(&im, "f", 0, '0', txt, 40, 1); tar_add(&im, "d/", 0, '5', NULL, 0, 1); tar_add(&im, "d/g", 0, '0', "gg", 2, 1); tar_add(&im, "d/e/", 0, '5', NULL, 0, 1); tar_end(&im, 2); }
  else { RomNode nd[] = {{.name = ".", .type = RN_DIR, .parent = -1}, {.name = "f", .type = RN_FILE, .parent = 0, .data = txt, .size = 40}, {.name = "d", .type = RN_DIR, .parent = 0}, {.name = "g", .type = RN_FILE, .parent = 2, .data = "gg", .size = 2}, {.name = "e", .type = RN_DIR, .parent = 2}}; rom_build(&im, nd, 5, "v"); }
}
static int reg_ro(void) {
  switch(C) {
    case C_TAR: return evfs_register_tar_fs("x", img_fh, false); case C_TARR: return evfs_register_tar_rsrc_fs("x", img_p, (size_t)im.n, false);
    case C_ROM: return evfs_register_romfs("x", img_fh, false); default: return evfs_register_rsrc_romfs("x", img_p, (size_t)im.n, false);
  }
}
static int reg_layer(int part) { /* the layers of a shimmed configuration, bottom first; 1: the top one */
  if(!part && C != C_RJ && C != C_TR && C != C_JT) return EVFS_OK;
  switch(C) {
    case C_JAIL: return evfs_register_jail("x", "be", "/j", false);
    case C_TRACE: return evfs_register_trace("x", "be", rep_null, NULL, false);
    case C_ROT: return evfs_register_rotate("x", "be", &rcfg, false);
    case C_RJ: return part ? evfs_register_rotate("x", "y", &rcfg, false) : evfs_register_jail("y", "be", "/j", false);
    case C_TR: return part ? evfs_register_trace("x", "y", rep_null, NULL, false) : evfs_register_rotate("y", "be", &rcfg, false);
    case C_JT: return part ? evfs_register_jail("x", "y", "/j", false) : evfs_register_trace("y", "be", rep_null, NULL, false);
#ifdef WITH_HOST
    case C_JHOST: return evfs_register_jail("x", "stdio", be_path("/j"), false);
#endif
#ifdef WITH_FAT
    case C_JFAT: return evfs_register_jail("x", "be", "/j", false);
#endif
  }
  return EVFS_OK;
}
static void setup(bool top) { /* top: register the file system under test as well */
  for(int i = 0; i < 400; i++) txt[i] = (unsigned char)('a' + (i * 7 + i / 26) % 26);
  int be = BE_MEM;
#ifdef WITH_HOST
  if(C == C_HOST || C == C_JHOST) be = BE_STDIO;
#endif
#ifdef WITH_FAT
  if(C == C_FAT || C == C_JFAT) be = BE_FAT;
#endif
  be_clean(); mc_alloc_track(true);
  be_up(be, true); h_files = h_dirs = 0; be_mem.op_limit = 0; be_mem.refuse_open_delete = true;
  snprintf(pre, sizeof pre, "%s", be_root); X = be_vfs(be);
  img_fh = NULL;
  if(ro()) {
    image(); mem_put(&be_mem, "/img", im.d, im.n); img_p = (unsigned char *)fence_put(&fimg, im.d, (size_t)im.n); pre[0] = 0;
    if(C == C_TAR || C == C_ROM) ok(evfs_open_ex("/img", &img_fh, EVFS_READ, "be"), "image");
    X = "x"; if(top) ok(reg_ro(), "mount");
    return;
  }
  bool jail = C == C_JAIL || C == C_RJ || C == C_JT || !strncmp(cname[C], "jail", 4);
  if(jail) { ok(evfs_make_dir_ex(P("/j"), X), "jail"); strcat(pre, "/j"); }
  putf("/f", txt, 40); putf("/f2", "old", 3); ok(evfs_make_dir_ex(P("/d"), X), "d"); putf("/d/g", "gg", 2); ok(evfs_make_dir_ex(P("/d/e"), X), "e");
  if(jail) pre[0] = 0;
  ok(reg_layer(0), "lower layer");
  if(!top) return;
  if(C != C_MEM && strcmp(cname[C], "host") && strcmp(cname[C], "FAT")) { ok(reg_layer(1), "layer"); X = "x"; }
  if(rot()) { EvfsFile *f; ok(evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, X), "log"); ok(evfs_file_write(f, txt, 70) == 70 ? 0 : -1, "log"); ok(evfs_file_close(f), "log"); }
}
/* ---- what a caller sees ---- */
static char out[16384]; static int outn;
static void say(const char *fmt, ...) { va_list ap; va_start(ap, fmt); outn += vsnprintf(out + outn, sizeof out - (size_t)outn, fmt, ap); va_end(ap); if(outn > (int)sizeof out - 1) outn = sizeof out - 1; }
static void say_file(const char *p) {
  EvfsFile *f; EvfsInfo inf; unsigned char b[600]; int st = evfs_stat_ex(p, &inf, X);
  if(st != EVFS_OK) { say("%s: stat %d\n", p, st); return; }
  say("%s: %d bytes type %d ", p, (int)inf.size, (int)inf.type);
  st = evfs_open_ex(p, &f, EVFS_READ, X); if(st != EVFS_OK) { say("open %d\n", st); return; }
  int n = (int)evfs_file_read(f, b, sizeof b); say("read %d size %d tell %d eof %d: %s\n", n, (int)evfs_file_size(f), (int)evfs_file_tell(f), evfs_file_eof(f), n > 0 ? mc_bytes(b, (size_t)n) : ""); evfs_file_close(f);
}
static int cmpn(const void *a, const void *b) { return strcmp(a, b); }
static void say_tree(const char *p) {
  EvfsDir *d; EvfsInfo inf; char nm[20][64]; int n = 0, st = evfs_open_dir_ex(p, &d, X);
  if(st != EVFS_OK) { say("list %s: %d\n", p, st); return; }
  while((st = evfs_dir_read(d, &inf)) == EVFS_OK && n < 20) { if(!strcmp(inf.name, ".") || !strcmp(inf.name, "..")) continue; snprintf(nm[n++], 64, "%.50s%s", inf.name, inf.type & EVFS_FILE_DIR ? "/" : ""); }
  evfs_dir_close(d);
  if(st != EVFS_DONE) say("list %s ends with %d\n", p, st);
  qsort(nm, (size_t)n, 64, cmpn);
  for(int i = 0; i < n; i++) { char q[900]; size_t l = strlen(nm[i]); bool dir = nm[i][l - 1] == '/'; if(dir) nm[i][l - 1] = 0; snprintf(q, sizeof q, "%s%s%s", p, p[strlen(p) - 1] == '/' ? "" : "/", nm[i]); if(dir) { say("%s/\n", q); say_tree(q); } else say_file(q); }
}
static void say_world(void) {
  char c[EVFS_MAX_PATH]; StringRange r = RANGE_FROM_ARRAY(c);
  int st = evfs_get_cur_dir_ex(&r, X); say("cwd %d %s\n", st, st == EVFS_OK ? c : "");
  if(ro()) { say_file("/f"); say_file("/d/g"); say_file("/none"); say_file("/d"); if(C >= C_ROM) say_tree("/"); }
  else { char root[700]; snprintf(root, sizeof root, "%s", pre[0] ? pre : "/"); say_tree(root); }
}
/* ---- operations: prepare, call, observe ---- */
static EvfsFile *fh, *fh2; static EvfsDir *dh;
static char pbuf[EVFS_MAX_PATH]; static StringRange pr;
static Evfs *extra; static dhash dh_t; static bool dh_up; static Mem other;
static uint32_t dh_h(dhKey k) { return (uint32_t)(uintptr_t)k.data * 7u; }
static void dh_nop(dhKey k, void *v, void *c) { (void)k; (void)v; (void)c; }
static bool dh_eq(dhKey a, dhKey b, void *c) { (void)c; return a.data == b.data; }
enum { Q_REG, Q_OPEN_R, Q_OPEN_NEW, Q_OPEN_OVER, Q_OPEN_APPEND, Q_OPEN_NOEX, Q_OPEN_MISSING, Q_OPEN_REL, Q_READ, Q_READALL, Q_WRITE, Q_WRITEBIG, Q_SEEK, Q_TRUNC, Q_SYNC, Q_SIZE, Q_CLOSE, Q_CTRL,
  Q_STAT, Q_DELETE, Q_RENAME, Q_RENAMEOVER, Q_MKDIR, Q_OPENDIR, Q_DREAD, Q_DREADALL, Q_DFIND, Q_DREWIND, Q_DCLOSE, Q_GETCWD, Q_SETCWD, Q_SETCWDREL, Q_ABS, Q_NORM, Q_JOIN, Q_MKPATH, Q_MKPATHR, Q_COPY, Q_COPYBUF, Q_COPYOVER, Q_COPYREL, Q_PRINTF, Q_PRINTFBIG, Q_PUTS,
  Q_EXFILE, Q_EXDIR, Q_CFG, Q_REGJAIL, Q_REGTRACE, Q_REGROT, Q_UNREG, Q_UNREGALL, Q_LOGSTAT, Q_LOGDELETE, Q_LOGRENAME, Q_LOGOVER, Q_LOGAPPEND, Q_LOGNEW, Q_READBACK, Q_DHINIT, Q_DHINSERT, Q_DHRESERVE, Q_STATREL, Q_LONGNORM, Q_ABSLONG, Q_LONGROOT, Q_REGROTBAD, Q_TOOLONG, Q_N };
static const char *oname[] = { "register", "open", "open new", "open overwrite", "open append", "open no-exist", "open missing", "open relative", "read", "read all", "write", "write big", "seek", "truncate", "sync", "size", "close", "file_ctrl",
  "stat", "delete", "rename", "rename over", "make_dir", "open_dir", "dir_read", "dir_read to the end", "dir_find", "dir_rewind", "dir_close", "get_cur_dir", "set_cur_dir", "set_cur_dir relative", "path_absolute", "path_normalize", "path_join", "make_path", "make_path_range", "copy", "copy with buffer", "copy over", "copy relative", "printf", "printf long", "puts",
  "existing_file", "existing_dir", "configure", "register jail", "register trace", "register rotate", "unregister", "unregister all", "stat log", "delete log", "rename log", "overwrite log", "append log", "new log", "read back", "dh_init", "dh_insert", "dh_reserve_capacity", "stat relative", "path_normalize long", "path_absolute long", "path_absolute with a long root", "register rotate with a bad geometry", "stat of a long path" };
static const char *data_file(void) { return rot() ? "/log" : "/f"; }
static bool applies(int o) {
  bool wr = !ro(), tar = C == C_TAR || C == C_TARR;
  switch(o) {
    case Q_REG: return C != C_MEM && strcmp(cname[C], "host") && strcmp(cname[C], "FAT") ? true : !strcmp(cname[C], "FAT");
    case Q_LOGSTAT: case Q_LOGDELETE: case Q_LOGRENAME: case Q_LOGOVER: case Q_LOGAPPEND: case Q_LOGNEW: return rot();
    case Q_OPEN_NEW: case Q_OPEN_OVER: case Q_OPEN_APPEND: case Q_OPEN_NOEX: case Q_WRITE: case Q_WRITEBIG: case Q_TRUNC: case Q_DELETE: case Q_RENAME: case Q_RENAMEOVER: case Q_MKDIR: case Q_MKPATH: case Q_MKPATHR:
    case Q_COPYOVER: case Q_COPYREL: case Q_PRINTF: case Q_PRINTFBIG: case Q_PUTS: case Q_SYNC: case Q_CLOSE: case Q_REGJAIL: case Q_REGROT: case Q_REGROTBAD: return wr;
    case Q_OPENDIR: case Q_DREAD: case Q_DREADALL: case Q_DFIND: case Q_DREWIND: case Q_DCLOSE: return !tar;
    case Q_UNREG: case Q_UNREGALL: return C != C_MEM && strcmp(cname[C], "host");
    case Q_DHINIT: case Q_DHINSERT: case Q_DHRESERVE: return C == C_MEM;
  }
  return true;
}
static void prep(int o) {
  fh = fh2 = NULL; dh = NULL; extra = NULL; dh_up = false; memset(pbuf, 0, sizeof pbuf);
  setup(o != Q_REG || !strcmp(cname[C], "FAT"));
  switch(o) {
    case Q_REG: if(!strcmp(cname[C], "FAT")) ok(evfs_unregister(evfs_find_vfs("be")), "unregister"); break;
    case Q_READ: case Q_READALL: case Q_SEEK: case Q_SIZE: case Q_COPY: case Q_COPYBUF: case Q_COPYOVER: case Q_COPYREL: case Q_READBACK: ok(evfs_open_ex(P(data_file()), &fh, EVFS_READ, X), "open"); if(o == Q_COPYREL) ok(evfs_set_cur_dir_ex(P("/d"), X), "cd"); break;
    case Q_CTRL: ok(evfs_open_ex(P(data_file()), &fh, ro() ? EVFS_READ : EVFS_RDWR, X), "open"); break;
    case Q_WRITE: case Q_WRITEBIG: case Q_TRUNC: case Q_PRINTF: case Q_PRINTFBIG: case Q_PUTS: ok(evfs_open_ex(P(data_file()), &fh, EVFS_RDWR, X), "open"); break;
    case Q_SYNC: case Q_CLOSE: ok(evfs_open_ex(P(data_file()), &fh, EVFS_RDWR, X), "open"); ok(evfs_file_write(fh, "ABCDE", 5) == 5 ? 0 : -1, "write"); break;
    case Q_LOGAPPEND: ok(evfs_open_ex("/log", &fh, EVFS_RDWR | EVFS_APPEND, X), "open"); break;
    case Q_DREAD: case Q_DREADALL: case Q_DFIND: case Q_DREWIND: case Q_DCLOSE: { EvfsInfo i; ok(evfs_open_dir_ex(P("/d"), &dh, X), "open_dir"); if(o == Q_DREWIND) evfs_dir_read(dh, &i); break; }
    case Q_OPEN_REL: case Q_ABS: case Q_STATREL: ok(evfs_set_cur_dir_ex(P("/d"), X), "cd"); break;
    case Q_SETCWDREL: ok(evfs_set_cur_dir_ex(P("/d/e"), X), "cd"); break;
    case Q_DHINSERT: case Q_DHRESERVE: { dhConfig c = { .init_buckets = 2, .value_size = sizeof(int), .destroy_item = dh_nop, .gen_hash = dh_h, .is_equal = dh_eq }; if(!dh_init(&dh_t, &c, NULL)) mc_fail("harness: dh_init"); dh_up = true; for(int i = 1; i < 3; i++) { int v = i; dh_insert(&dh_t, (dhKey){ .data = (void *)(uintptr_t)i }, &v); } break; }
    case Q_UNREG: extra = evfs_find_vfs(X); break;
  }
}
static long call(int o) {
  EvfsInfo inf; memset(&inf, 0, sizeof inf); int st; unsigned char b[600]; StringRange in;
  outn = 0; out[0] = 0;
#define OPEN(path, fl) do { st = evfs_open_ex(P(path), &fh, fl, X); if(st == EVFS_OK) { if(!fh) mc_fail("open succeeds without a handle"); } else if(fh) mc_fail("a failed open leaves a handle"); return st; } while(0)
#define INFO() do { if(st == EVFS_OK) say("%s size %d type %d", inf.name ? inf.name : "-", (int)inf.size, (int)inf.type); return st; } while(0)
#define RANGE(e) do { range_init(&pr, pbuf, sizeof pbuf); st = (e); if(st == EVFS_OK) say("'%s'", pbuf); return st; } while(0)
  switch(o) {
    case Q_REG: if(ro()) return reg_ro();
#ifdef WITH_FAT
      if(C == C_FAT) return evfs_register_fatfs("be", 0, false);
#endif
      st = reg_layer(1); if(st == EVFS_OK) X = "x"; return st;
    case Q_OPEN_R: OPEN(data_file(), EVFS_READ);
    case Q_OPEN_NEW: OPEN("/new", EVFS_RDWR | EVFS_OPEN_OR_NEW);
    case Q_OPEN_OVER: OPEN("/f", EVFS_RDWR | EVFS_OVERWRITE);
    case Q_OPEN_APPEND: OPEN("/f", EVFS_RDWR | EVFS_APPEND);
    case Q_OPEN_NOEX: OPEN("/new", EVFS_WRITE | EVFS_NO_EXIST);
    case Q_OPEN_MISSING: OPEN("/d/none", EVFS_READ);
    case Q_OPEN_REL: OPEN("e/../g", EVFS_READ);
    case Q_READ: if((st = evfs_file_seek(fh, 3, EVFS_SEEK_TO)) < 0) return st; st = (int)evfs_file_read(fh, b, 10); if(st > 0) say("%s", mc_bytes(b, (size_t)st)); return st;
    case Q_READALL: case Q_READBACK: if((st = evfs_file_seek(fh, 0, EVFS_SEEK_TO)) < 0) return st; st = (int)evfs_file_read(fh, b, sizeof b); if(st > 0) say("%s", mc_bytes(b, (size_t)st)); return st;
    case Q_WRITE: if((st = evfs_file_seek(fh, 3, EVFS_SEEK_TO)) < 0) return st; return evfs_file_write(fh, "NEWDATA", 7);
    case Q_WRITEBIG: if((st = evfs_file_seek(fh, 20, EVFS_SEEK_TO)) < 0) return st; return evfs_file_write(fh, txt + 100, rot() ? 70 : 300);
    case Q_SEEK: return evfs_file_seek(fh, 5, EVFS_SEEK_TO);
    case Q_TRUNC: return evfs_file_truncate(fh, 7);
    case Q_SYNC: return evfs_file_sync(fh);
    case Q_SIZE: return evfs_file_size(fh);
    case Q_CLOSE: { EvfsFile *f = fh; fh = NULL; return evfs_file_close(f); }
    case Q_CTRL: { evfs_off_t t = 40; uint8_t *a = NULL; st = rot() ? evfs_file_ctrl(fh, EVFS_CMD_SET_ROTATE_TRIM, &t) : evfs_file_ctrl(fh, EVFS_CMD_GET_RSRC_ADDR, &a); return st; }
    case Q_STAT: st = evfs_stat_ex(P("/d/g"), &inf, X); INFO();
    case Q_STATREL: st = evfs_stat_ex("../f", &inf, X); INFO();
    case Q_LOGSTAT: st = evfs_stat_ex("/log", &inf, X); INFO();
    case Q_DELETE: return evfs_delete_ex(P("/f"), X);
    case Q_LOGDELETE: return evfs_delete_ex("/log", X);
    case Q_RENAME: return evfs_rename_ex(P("/f"), P("/d/n"), X);
    case Q_RENAMEOVER: return evfs_rename_ex(P("/f"), P("/f2"), X);
    case Q_LOGRENAME: return evfs_rename_ex("/log", "/d/log2", X);
    case Q_MKDIR: return evfs_make_dir_ex(P("/nd"), X);
    case Q_OPENDIR: st = evfs_open_dir_ex(P("/d"), &dh, X); if((st == EVFS_OK) != !!dh) mc_fail("open_dir: handle and status disagree"); return st;
    case Q_DREAD: st = evfs_dir_read(dh, &inf); INFO();
    case Q_DREADALL: { if((st = evfs_dir_rewind(dh)) < 0) return st; int n = 0; while((st = evfs_dir_read(dh, &inf)) == EVFS_OK && n++ < 20) say("%s ", inf.name); return st; }
    case Q_DFIND: st = evfs_dir_find(dh, "[g]*", &inf); INFO();
    case Q_DREWIND: return evfs_dir_rewind(dh);
    case Q_DCLOSE: { EvfsDir *d = dh; dh = NULL; return evfs_dir_close(d); }
    case Q_GETCWD: RANGE(evfs_get_cur_dir_ex(&pr, X));
    case Q_SETCWD: return evfs_set_cur_dir_ex(P("/d"), X);
    case Q_SETCWDREL: return evfs_set_cur_dir_ex("..", X);
    case Q_ABS: RANGE(evfs_path_absolute_ex("e/./../x", &pr, X));
    case Q_NORM: RANGE(evfs_path_normalize_ex("/a/../b/./c//d", &pr, X));
    case Q_ABSLONG: { char lp[260]; memset(lp, 0, sizeof lp); for(int i = 0; i < 12; i++) strcat(lp, "verylongname/../"); strcat(lp, "tail"); char small[210]; range_init(&pr, small, sizeof small); st = evfs_path_absolute_ex(lp, &pr, X); if(st == EVFS_OK) say("'%s'", small); return st; }
    case Q_LONGROOT: { char lp[80]; memset(lp, '/', 40); strcpy(lp + 40, "a/../b"); RANGE(evfs_path_absolute_ex(lp, &pr, X)); }
    case Q_REGROTBAD: { RotateConfig bad = { 0, 3 }; st = evfs_register_rotate("extra", X, &bad, false); extra = evfs_find_vfs("extra"); if((st == EVFS_OK) != !!extra) mc_fail("registering a rotating log: registry and status disagree"); return st; }
    case Q_TOOLONG: { char lp[600]; memset(lp, 'l', sizeof lp); lp[sizeof lp - 1] = 0; return evfs_stat_ex(lp, &inf, X); }
    case Q_LONGNORM: RANGE(evfs_path_normalize_ex("a/a/a/a/a/a/a/a/a/a/a/a/a/a/../a/a/a/a/a/a/a/a/a/a/a/a/a/a/a/a/a/a/a/a/a/../a/a/a/a/a/a/a/a", &pr, X));
    case Q_JOIN: RANGE(evfs_path_join_str_ex("/a/b", "c/d", &pr, X));
    case Q_MKPATH: return evfs_make_path_ex(P("/p/q/r"), X);
    case Q_MKPATHR: { char *p = P("/p/q/r"); range_init(&in, p, strlen(p) - 2); return evfs_make_path_range_ex(&in, X); }
    case Q_COPY: if((st = evfs_file_seek(fh, 0, EVFS_SEEK_TO)) < 0) return st; return evfs_copy_to_file_ex(P(ro() ? "/copy" : "/copy"), fh, NULL, 64, ro() ? "be" : X);
    case Q_COPYBUF: if((st = evfs_file_seek(fh, 0, EVFS_SEEK_TO)) < 0) return st; { char cb[16]; return evfs_copy_to_file_ex(P("/copy"), fh, cb, sizeof cb, ro() ? "be" : X); }
    case Q_COPYOVER: if((st = evfs_file_seek(fh, 0, EVFS_SEEK_TO)) < 0) return st; return evfs_copy_to_file_ex(P("/f2"), fh, NULL, 0, X);
    case Q_COPYREL: if((st = evfs_file_seek(fh, 0, EVFS_SEEK_TO)) < 0) return st; return evfs_copy_to_file_ex("copy", fh, NULL, 0, X);
    case Q_PRINTF: if((st = evfs_file_seek(fh, 3, EVFS_SEEK_TO)) < 0) return st; return evfs_file_printf(fh, "<%d %s>", 42, "x");
    case Q_PRINTFBIG: if((st = evfs_file_seek(fh, 3, EVFS_SEEK_TO)) < 0) return st; return evfs_file_printf(fh, "%060d%-40s|", 7, "yy");
    case Q_PUTS: if((st = evfs_file_seek(fh, 3, EVFS_SEEK_TO)) < 0) return st; return evfs_file_puts(fh, "puts");
    case Q_EXFILE: return evfs_existing_file_ex(P("/f"), X) ? 1 : -1;
    case Q_EXDIR: return evfs_existing_dir_ex(P("/d"), X) ? 1 : -1;
    case Q_CFG: { unsigned v = 0; RotateConfig c = { 40, 4 }; st = rot() ? evfs_vfs_ctrl_ex(EVFS_CMD_SET_ROTATE_CFG, &c, X) : evfs_vfs_ctrl_ex(EVFS_CMD_GET_STAT_FIELDS, &v, X); return st; }
    case Q_REGJAIL: st = evfs_register_jail("extra", X, P("/d"), false); extra = evfs_find_vfs("extra"); if((st == EVFS_OK) != !!extra) mc_fail("registering a jail: registry and status disagree"); return st;
    case Q_REGTRACE: st = evfs_register_trace("extra", X, rep_null, NULL, false); extra = evfs_find_vfs("extra"); if((st == EVFS_OK) != !!extra) mc_fail("registering a trace: registry and status disagree"); return st;
    case Q_REGROT: st = evfs_register_rotate("extra", X, &rcfg, false); extra = evfs_find_vfs("extra"); if((st == EVFS_OK) != !!extra) mc_fail("registering a rotating log: registry and status disagree"); return st;
    case Q_UNREG: { Evfs *e = extra; extra = NULL; return evfs_unregister(e); }
    case Q_UNREGALL: evfs_unregister_all(); return 0;
    case Q_LOGOVER: OPEN("/log", EVFS_RDWR | EVFS_OVERWRITE);
    case Q_LOGNEW: OPEN("/newlog", EVFS_RDWR | EVFS_NO_EXIST);
    case Q_LOGAPPEND: return evfs_file_write(fh, txt + 100, 60);
    case Q_DHINIT: { dhConfig c = { .init_buckets = 16, .value_size = sizeof(int), .destroy_item = dh_nop, .gen_hash = dh_h, .is_equal = dh_eq }; dh_up = dh_init(&dh_t, &c, NULL); return dh_up ? 1 : -1; }
    case Q_DHINSERT: { int fails = 0; for(int i = 3; i < 12; i++) { int v = i; if(!dh_insert(&dh_t, (dhKey){ .data = (void *)(uintptr_t)i }, &v)) { fails = 1; break; } } return fails ? -1 : 1; }
    case Q_DHRESERVE: return dh_reserve_capacity(&dh_t, 40) ? 1 : -1;
  }
  return 0;
}
/* handles still open are usable; then everything is released */
static void observe(int o) {
  unsigned char b[600];
  if(fh) { int n; say(" tell %d", (int)evfs_file_tell(fh)); evfs_file_seek(fh, 0, EVFS_SEEK_TO); n = (int)evfs_file_read(fh, b, sizeof b); say(" size %d contents %d %s", (int)evfs_file_size(fh), n, n > 0 ? mc_bytes(b, (size_t)n) : ""); int st = evfs_file_close(fh); fh = NULL;
    if(rot() && st == EVFS_ERR_IO && (be_mem.fired_set & MF_BIT(MF_CLOSE))) st = EVFS_OK; /* a log reports a chunk that failed to close when it is closed itself */
    say(" close %d", st); }
  if(dh) { EvfsInfo i; int st = evfs_dir_read(dh, &i); say(" next %d %s", st, st == EVFS_OK ? i.name : ""); say(" close %d", evfs_dir_close(dh)); dh = NULL; }
  if(dh_up) { for(int i = 1; i < 12; i++) { int v = -1; bool f = dh_lookup(&dh_t, (dhKey){ .data = (void *)(uintptr_t)i }, &v); say(" %d:%d", i, f ? v : -1); } dh_free(&dh_t); dh_up = false; }
  if(extra) { say(" unregister %d", evfs_unregister(extra)); extra = NULL; }
  if(o != Q_UNREG && o != Q_UNREGALL) { say("\n"); say_world(); }
}

static int lk_base;
#define MODES 3
typedef struct { bool have; long rc; char *call, *all; int live, files, dirs; } Want;
static Want want[C_N][Q_N];
static int files(void) { return be_mem.open_files + h_files; }
static int dirs(void) { return be_mem.open_dirs + h_dirs; }
static int second;
static void arm(int kind, int n, bool forever) {
  if(kind == 2) { lk_at = n; lk_seen = 0; lk_fired = false; lk_forever = forever; return; }
  if(kind == 0) { mc_alloc_fail_at(n); mc_alloc_fail_more(forever); mc_alloc_fail_second(second); return; }
  if(mem_base()) { mem_fault(&be_mem, MF_FAILABLE | MF_BIT(MF_CLOSE), n, EVFS_ERR_IO, forever); be_mem.fail_second = second; return; }
  hc_second = second; hc_at = n; hc_seen = 0; hc_forever = forever; hc_fired = false;
}
static bool disarm(int kind) {
  bool f = kind == 2 ? lk_fired : kind == 0 ? mc_alloc_failed() : mem_base() ? be_mem.fired : hc_fired;
  mc_alloc_fail_at(0); mc_alloc_fail_more(false); mc_alloc_fail_second(0); lk_at = 0; be_mem.fail_second = 0; hc_second = 0; be_mem.fail_at = 0; be_mem.fail_mask = 0; be_mem.fail_forever = false; hc_at = 0;
#ifdef WITH_HOST
  err_on = NULL;
#endif
  return f;
}
static void finish(const char *when) {
  MC_CHECK(!lk_held, "%s: %d locks are held", when, lk_held);
#ifdef WITH_FAT
  fat_down(0);
#endif
  if(ro() && img_fh && !evfs_find_vfs("x") && files()) evfs_file_close(img_fh);
  evfs_unregister_all();
  MC_CHECK(lk_inits == lk_base, "%s: %d locks stay initialised", when, lk_inits - lk_base);
  MC_CHECK(files() == 0 && dirs() == 0, "%s: %d files and %d directories stay open after everything is closed", when, files(), dirs());
  MC_CHECK(mc_alloc_live() == 0, "%s: %d blocks stay allocated after everything is closed (%s)", when, mc_alloc_live(), mc_alloc_sites());
}

static bool data_op(int o) { return o == Q_READ || o == Q_READALL || o == Q_READBACK || o == Q_WRITE || o == Q_WRITEBIG || o == Q_PRINTF || o == Q_PRINTFBIG || o == Q_PUTS || o == Q_LOGAPPEND; }
static bool write_op(int o) { return o == Q_WRITE || o == Q_WRITEBIG || o == Q_PRINTF || o == Q_PRINTFBIG || o == Q_PUTS || o == Q_LOGAPPEND; }
static bool consumes(int o) { return o == Q_CLOSE || o == Q_DCLOSE || o == Q_UNREG || o == Q_UNREGALL; }
/* a rotating log after a failed append: what was there, without its oldest part, and the beginning of what was appended */
static void check_log(const unsigned char *add, int n) {
  static unsigned char all[400]; unsigned char b[600]; memcpy(all, txt, 70); memcpy(all + 70, add, (size_t)n);
  EvfsFile *f; MC_CHECK(evfs_open_ex("/log", &f, EVFS_READ, X) == EVFS_OK, "the log can not be opened after a failed append");
  int k = (int)evfs_file_read(f, b, sizeof b), sz = (int)evfs_file_size(f); evfs_file_close(f);
  MC_CHECK(k == sz && k >= 0, "after a failed append the log has %d bytes but %d can be read", sz, k);
  for(int e = 70; e <= 70 + n; e++) if(k <= e && k <= 96 && (k >= 70 || k % 32 == e % 32 || k > 32) && !memcmp(all + e - k, b, (size_t)k)) return;
  mc_fail("after a failed append the log's %d bytes are not the end of what was appended", k);
}
static void s_fault(void) {
  C = mc_choose(C_N); int o = mc_choose(Q_N);
  if(!applies(o)) mc_prune();
  #ifdef WITH_LOCKS
  int kind = mc_choose(3);
#else
  int kind = mc_choose(2);
#endif
  if(kind == 1 && !mem_base()) {
#ifdef WITH_HOST
    ;
#else
    mc_prune();
#endif
  }
  int mode = mc_choose(MODES); bool forever = mode == 1; second = 0;
  Want *w = &want[C][o];
  if(!w->have) { mc_op("%s on %s without a fault", oname[o], cname[C]);
    prep(o); int l = mc_alloc_live(), f = files(), d = dirs(); w->rc = call(o); w->live = mc_alloc_live() - l; w->files = files() - f; w->dirs = dirs() - d;
    w->call = strdup(out); observe(o); w->all = strdup(out); finish("without a fault"); w->have = true;
    mc_op("%s on %s: %ld %s", oname[o], cname[C], w->rc, w->all);
    /* the reference itself is repeatable */
    prep(o); MC_CHECK(call(o) == w->rc && !strcmp(out, w->call), "harness: %s on %s is not repeatable", oname[o], cname[C]); observe(o); MC_CHECK(!strcmp(out, w->all), "harness: %s on %s is not repeatable:\n%s\n--\n%s", oname[o], cname[C], out, w->all); finish("without a fault");
  }
  int n = 1 + mc_choose(mc_tier(60, 200));
  mc_op("%s on %s: %s %d fails%s", oname[o], cname[C], kind == 2 ? "lock initialisation" : kind == 0 ? "allocation" : mem_base() ? "base operation" : "host call", n, forever ? ", as do all later ones" : "");
  if(mode == 2) second = 1 + mc_choose(mc_tier(6, 30));
  prep(o); int l = mc_alloc_live(), f = files(), d = dirs(), li = lk_inits; EvfsFile *fh0 = fh; EvfsDir *dh0 = dh; bool dh0_up = dh_up;
  arm(kind, n, forever); long rc = call(o); bool fired = disarm(kind);
  MC_CHECK(!lk_held, "%s on %s returns with %d locks held", oname[o], cname[C], lk_held);
  if(mode == 2) mc_op("(and the %dth after it)", second);
  mc_op("-> %ld %s%s", rc, rc < 0 ? EN((int)rc) : "", fired ? kind != 1 ? "" : mem_base() ? mem_op_name(be_mem.fired_op) : hc_name : " (no fault)");
  if(!fired) { MC_CHECK(rc == w->rc && !strcmp(out, w->call), "harness: differs without a fault"); observe(o); be_clean(); mc_skip_rest(); }
  const char *fw = kind == 2 ? "a lock initialisation" : kind == 0 ? "an allocation" : mem_base() ? mem_op_name(be_mem.fired_op) : hc_name;
  int nl = mc_alloc_live() - l, nf = files() - f, nd = dirs() - d;
  bool failed = rc < 0, part = data_op(o) && rc > 0 && rc < w->rc;
  mc_state(mc_hash(MC_HASH0 + (uint64_t)(C * 100 + o), out, strlen(out)) + (uint64_t)rc * 77u + (uint64_t)kind);
  if(!failed && !part) {
    MC_CHECK(rc == w->rc, "%s on %s returns %ld instead of %ld when %s fails", oname[o], cname[C], rc, w->rc, fw);
    MC_CHECK(!strcmp(out, w->call), "%s on %s succeeds with a different result when %s fails: %s instead of %s", oname[o], cname[C], fw, out, w->call);
    MC_CHECK(nl == w->live && nf == w->files && nd == w->dirs, "%s on %s leaves %d blocks, %d files, %d directories instead of %d, %d, %d although it succeeds when %s fails", oname[o], cname[C], nl, nf, nd, w->live, w->files, w->dirs, fw);
    observe(o);
    MC_CHECK(!strcmp(out, w->all), "%s on %s reports success when %s fails, but its effect differs:\n%s-- instead of\n%s", oname[o], cname[C], fw, out, w->all);
    finish("after a fault without consequences"); return;
  }
  MC_CHECK(rc >= 0 || consumes(o) || lk_inits == li, "%s on %s fails and leaves %d locks", oname[o], cname[C], lk_inits - li);
  if(consumes(o)) {
    MC_CHECK(nl == w->live && nf == w->files && nd == w->dirs, "%s on %s leaves %d blocks, %d files, %d directories open when %s fails", oname[o], cname[C], nl - w->live, nf - w->files, nd - w->dirs, fw);
    finish("after a failed close"); return;
  }
  MC_CHECK(fh == fh0 && dh == dh0 && dh_up == dh0_up, "%s on %s fails but leaves a handle", oname[o], cname[C]);
  MC_CHECK(o == Q_DHINSERT || (rot() && fh0) /* the open log may hold its chunk */ || (nl == 0 && nf == 0 && nd == 0), "%s on %s leaves %d blocks, %d files and %d directories behind when %s fails", oname[o], cname[C], nl, nf, nd, fw);
  if(rot() && (write_op(o) || o == Q_CTRL)) {
    /* an interrupted write to a log can not be taken back */
    if(o == Q_LOGAPPEND) { check_log(txt + 100, 60); rc = call(o); MC_CHECK(rc == 60, "appending after a failed append returns %ld", rc); EvfsFile *g; unsigned char b[600]; ok(evfs_open_ex("/log", &g, EVFS_READ, X), "log"); int k = (int)evfs_file_read(g, b, 600); evfs_file_close(g); MC_CHECK(k >= 60 && k <= 96 && !memcmp(b + k - 60, txt + 100, 60), "an append after a failed append is lost"); }
    if(fh) { evfs_file_close(fh); fh = NULL; }
    finish("after a failed write to a log"); return;
  }
  if(o == Q_COPY || o == Q_COPYBUF || o == Q_COPYREL) { /* a failed copy may leave a partial destination, which blocks another one */
    EvfsInfo i; const char *dst = o == Q_COPYREL ? P("/d/copy") : P("/copy"), *v = ro() ? "be" : X;
    if(evfs_stat_ex(dst, &i, v) == EVFS_OK) MC_CHECK(evfs_delete_ex(dst, v) == EVFS_OK, "the partial destination of a failed copy can not be removed");
  }
  if(rot() && mode && (o == Q_OPEN_NEW || o == Q_OPEN_NOEX || o == Q_LOGNEW || o == Q_COPY || o == Q_COPYBUF || o == Q_COPYREL || o == Q_MKPATH || o == Q_MKPATHR)) { /* nothing can be cleaned up when everything fails from then on */
    if(fh) { evfs_file_close(fh); fh = NULL; }
    finish("after a log could not be created"); return;
  }
  rc = call(o); mc_op("again -> %ld", rc);
  MC_CHECK(rc == w->rc && !strcmp(out, w->call), "%s on %s returns %ld %s instead of %ld %s when repeated after %s failed", oname[o], cname[C], rc, out, w->rc, w->call, fw);
  observe(o);
  MC_CHECK(!strcmp(out, w->all), "%s on %s, repeated after %s failed, has a different effect:\n%s-- instead of\n%s", oname[o], cname[C], fw, out, w->all);
  finish("after a repeated call");
}
static void clean6(void) { lk_reset(); lk_inits = lk_base; disarm(0); disarm(1); h_files = h_dirs = 0; be_clean(); }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P06");
  evfs_init(); lk_base = lk_inits;
  mc_set_cleanup(clean6);
  mc_note("%d operations on %d file systems and stacks x {n-th allocation, n-th underlying operation} failing for every n that occurs (up to %d), once or from then on", Q_N, C_N, mc_tier(60, 200));
  mc_note("Oracle: the same call without a fault on an identical file system; after a failed call the same call is repeated. An interrupted write to a rotating log may have written a part: there the log has to stay the end of what was appended, and later appends have to work");
  mc_explore_depth("faults", s_fault, 3);
  return mc_main_finish();
}
