/* P31: metadata. The fields a file system announces are the fields it fills in. */
#include "backends.h"
#include "images.h"
#include <time.h>
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_rotate.h"
static Img im; static Fence fimg;
static int rep_null(const char *s, void *c) { (void)s; (void)c; return 0; }
static void clean(void) { be_clean(); fence_off(&fimg); }
/* the clock and what readdir() knows about types */
static time_t now_is = 0; time_t __real_time(time_t *); struct dirent *__real_readdir(DIR *);
time_t __wrap_time(time_t *t) { time_t n = now_is ? now_is : __real_time(NULL); if(t) *t = n; return n; }
static bool no_types;
struct dirent *__wrap_readdir(DIR *d) { struct dirent *e = __real_readdir(d); if(e && no_types) e->d_type = DT_UNKNOWN; return e; }

enum { K_MEM, K_STDIO, K_STDIO_UNTYPED, K_FAT, K_FAT1, K_TAR, K_TARR, K_ROM, K_ROMR, NK };
static const char *kn[] = { "memory", "host", "host without entry types", "FAT", "FAT volume 1", "tar file", "tar in memory", "ROM image file", "ROM image in memory" };
typedef struct { const char *path, *name; bool dir; int size; } Node;
static const Node nodes[] = { {"/t", "t", true, 0}, {"/t/f0", "f0", false, 0}, {"/t/f3", "f3", false, 3}, {"/t/big.bin", "big.bin", false, 700}, {"/t/sub", "sub", true, 0}, {"/t/sub/x", "x", false, 1}, {"/t/sub/y.z", "y.z", true, 0} };
#define NN 7
static unsigned char pat[700];
static const long stamps[] = { 0, 1, 1000000000L, 2147483647L, 2147483653L, 1709164800L, 951782399L };
static const char *build(int k) {
  for(int i = 0; i < 700; i++) pat[i] = (unsigned char)(i * 13 + 1);
  int be = k == K_MEM ? BE_MEM : k <= K_STDIO_UNTYPED ? BE_STDIO : k == K_FAT ? BE_FAT : k == K_FAT1 ? BE_FAT1 : BE_MEM;
  be_up(be, true);
  if(k <= K_FAT1) {
    for(int i = 0; i < NN; i++) if(nodes[i].dir) be_mkdir(be, nodes[i].path); else be_put(be, nodes[i].path, pat, nodes[i].size);
    if(be == BE_STDIO) for(int i = NN - 1; i >= 0; i--) { struct timespec t[2] = {{stamps[i], 0}, {stamps[i], 0}}; if(utimensat(AT_FDCWD, be_path(nodes[i].path), t, 0)) mc_fail("harness: utimensat"); }
    no_types = k == K_STDIO_UNTYPED;
    return be_vfs(be);
  }
  if(k <= K_TARR) {
    tar_start(&im);
    for(int i = 0; i < NN; i++) { char b[40]; sprintf(b, nodes[i].dir ? "%s/" : "%s", nodes[i].path + 1); tar_add(&im, b, 0, nodes[i].dir ? '5' : '0', pat, nodes[i].size, (unsigned)(1000 + i)); }
    tar_end(&im, 2);
  } else {
    RomNode nd[NN + 1] = {{.name = ".", .type = RN_DIR, .parent = -1}};
    static const int par[NN] = { 0, 1, 1, 1, 1, 5, 5 };
    for(int i = 0; i < NN; i++) nd[i + 1] = (RomNode){.name = nodes[i].name, .type = nodes[i].dir ? RN_DIR : RN_FILE, .parent = par[i], .data = pat, .size = nodes[i].size};
    rom_build(&im, nd, NN + 1, "v");
  }
  EvfsFile *f = NULL; uint8_t *p = NULL; int st;
  if(k == K_TAR || k == K_ROM) { mem_put(&be_mem, "/img", im.d, im.n); MC_CHECK(evfs_open_ex("/img", &f, EVFS_READ, "be") == EVFS_OK, "image"); }
  else p = (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n);
  switch(k) { case K_TAR: st = evfs_register_tar_fs("ro", f, false); break; case K_TARR: st = evfs_register_tar_rsrc_fs("ro", p, (size_t)im.n, false); break;
    case K_ROM: st = evfs_register_romfs("ro", f, false); break; default: st = evfs_register_rsrc_romfs("ro", p, (size_t)im.n, false); }
  MC_CHECK(st == EVFS_OK, "mounting %s fails: %s", kn[k], EN(st));
  return "ro";
}
static void fields(const char *what, const Node *n, unsigned bits, const EvfsInfo *i, bool name_set, long mtime, bool have_mtime) {
  if(bits & EVFS_INFO_NAME) MC_CHECK(i->name && !strcmp(i->name, n->name), "%s: the name of %s is announced but '%s' is reported", what, n->path, i->name ? i->name : "(null)");
  else MC_CHECK(!i->name || name_set, "%s: a name is reported for %s that is not announced", what, n->path);
  if(bits & EVFS_INFO_SIZE) { if(!n->dir) MC_CHECK(i->size == n->size, "%s: the size of %s is reported as %d instead of %d", what, n->path, (int)i->size, n->size); }
  else MC_CHECK(i->size == 0, "%s: a size is reported for %s that is not announced", what, n->path);
  if(bits & EVFS_INFO_MTIME) { if(have_mtime) MC_CHECK((long)i->mtime == mtime, "%s: the time of %s is reported as %ld instead of %ld", what, n->path, (long)i->mtime, mtime); }
  else MC_CHECK(i->mtime == 0, "%s: a time is reported for %s that is not announced", what, n->path);
  if(bits & EVFS_INFO_TYPE) MC_CHECK(!!(i->type & EVFS_FILE_DIR) == n->dir && !(i->type & EVFS_FILE_SYM_LINK), "%s: %s is reported as type %d", what, n->path, i->type);
  else MC_CHECK(i->type == 0, "%s: a type is reported for %s that is not announced", what, n->path);
}
static void s_fields(void) {
  int k = mc_choose(NK), depth = mc_choose(mc_tier(4, 5)); const char *v = build(k); char desc[80]; strcpy(desc, kn[k]);
  bool host = k == K_STDIO || k == K_STDIO_UNTYPED, jailed = false;
  for(int d = 0; d < depth; d++) {
    static const char *nm[] = { "s0", "s1", "s2", "s3" }; int sh = mc_choose(3), st; RotateConfig cfg = { 32, 4 };
    if(sh == 0) { st = evfs_register_jail(nm[d], v, host && !jailed ? be_root : "/", false); jailed = true; strcat(desc, " <- jail"); }
    else if(sh == 1) { st = evfs_register_trace(nm[d], v, rep_null, NULL, false); strcat(desc, " <- trace"); }
    else { st = evfs_register_rotate(nm[d], v, &cfg, false); strcat(desc, " <- rotate"); }
    MC_CHECK(st == EVFS_OK, "registering a shim: %s", EN(st)); v = nm[d];
  }
  mc_op("%s", desc);
  unsigned sf = 0xdeadu, df = 0xdeadu;
  int s1 = evfs_vfs_ctrl_ex(EVFS_CMD_GET_STAT_FIELDS, &sf, v), s2 = evfs_vfs_ctrl_ex(EVFS_CMD_GET_DIR_FIELDS, &df, v);
  MC_CHECK(s1 == EVFS_OK && s2 == EVFS_OK, "the fields can not be queried: %s %s", EN(s1), EN(s2));
  MC_CHECK(!((sf | df) & ~15u), "unknown field bits: %x %x", sf, df);
  mc_op("announced: stat %x, directories %x", sf, df);
  const char *pre = host && !jailed ? be_root : ""; char p[700];
  int rel = mc_choose(3);
  if(rel) { snprintf(p, sizeof p, "%s/t", pre); int st = evfs_set_cur_dir_ex(p, v); MC_CHECK(st == EVFS_OK, "entering /t: %s", EN(st)); }
  for(int i = 0; i < NN; i++) {
    const Node *n = &nodes[i]; EvfsInfo inf; memset(&inf, 0xA5, sizeof inf);
    if(rel && i == 0) continue;
    if(rel) snprintf(p, sizeof p, "%s%s", rel == 2 ? "./" : "", n->path + 3); else snprintf(p, sizeof p, "%s%s", pre, n->path);
    int st = evfs_stat_ex(p, &inf, v); MC_CHECK(st == EVFS_OK, "stat of %s: %s", p, EN(st));
    MemNode *mn = k == K_MEM ? mem_find(&be_mem, n->path) : NULL;
    fields("stat", n, sf, &inf, false, host ? stamps[i] : mn ? (long)mn->mtime : 0, host || mn);
    mc_state(mc_hash(MC_HASH0 + (unsigned)(k * 16 + i), desc, strlen(desc)));
  }
  for(int i = 0; i < NN; i++) if(nodes[i].dir) {
    EvfsDir *d; snprintf(p, sizeof p, "%s%s", pre, nodes[i].path);
    int st = evfs_open_dir_ex(p, &d, v); if(st == EVFS_ERR_NO_SUPPORT && !df) continue;
    MC_CHECK(st == EVFS_OK, "opening directory %s: %s", p, EN(st));
    int seen = 0; EvfsInfo inf;
    for(;;) {
      memset(&inf, 0xA5, sizeof inf); st = evfs_dir_read(d, &inf); if(st != EVFS_OK) break;
      MC_CHECK(df & EVFS_INFO_NAME, "entries are listed although names are not announced"); MC_CHECK(inf.name, "an entry without a name");
      if(!strcmp(inf.name, ".") || !strcmp(inf.name, "..")) { if(df & EVFS_INFO_TYPE) MC_CHECK(inf.type & EVFS_FILE_DIR, "'%s' is not reported as a directory", inf.name); continue; }
      int j; size_t l = strlen(nodes[i].path);
      for(j = 0; j < NN; j++) if(!strncmp(nodes[j].path, nodes[i].path, l) && nodes[j].path[l] == '/' && !strcmp(nodes[j].path + l + 1, inf.name)) break;
      MC_CHECK(j < NN, "unknown entry '%s' in %s", inf.name, nodes[i].path);
      MemNode *mn = k == K_MEM ? mem_find(&be_mem, nodes[j].path) : NULL;
      fields("directory entry", &nodes[j], df, &inf, false, mn ? (long)mn->mtime : 0, mn); seen |= 1 << j;
    }
    MC_CHECK(st == EVFS_DONE, "listing ends with %s", EN(st));
    MC_CHECK(!inf.name && !inf.size && !inf.type && !inf.mtime, "fields are left over at the end of a listing");
    for(int j = 0; j < NN; j++) { size_t l = strlen(nodes[i].path); if(!strncmp(nodes[j].path, nodes[i].path, l) && nodes[j].path[l] == '/' && !strchr(nodes[j].path + l + 1, '/')) MC_CHECK(seen >> j & 1, "'%s' is not listed", nodes[j].path); }
    evfs_dir_close(d);
  }
  no_types = false;
}
/* the time of a FAT entry is the time of its last change */
static const char *zones[] = { "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<-03>3", "AEST-10AEDT,M10.1.0,M4.1.0/3" };
static time_t fat_time(const char *name) {
  EvfsDir *d; EvfsInfo i; MC_CHECK(evfs_open_dir_ex("/", &d, "be") == EVFS_OK, "open_dir"); time_t r = -1;
  while(evfs_dir_read(d, &i) == EVFS_OK) if(!strcmp(i.name, name)) r = i.mtime;
  evfs_dir_close(d); return r;
}
static void check_time(const char *name, time_t t, const char *what) {
  time_t got = fat_time(name), want = t & ~(time_t)1; struct tm a; localtime_r(&t, &a);
  long off = (long)got - (long)want;
  if(off == 3600 || off == -3600) { /* only a local time that occurs twice can be read as the other one */
    struct tm b; localtime_r(&got, &b); if(a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_min == b.tm_min) off = 0; }
  MC_CHECK(off == 0, "%s at %ld (%04d-%02d-%02d %02d:%02d:%02d local) is listed with a time that is %ld seconds off", what, (long)t, a.tm_year + 1900, a.tm_mon + 1, a.tm_mday, a.tm_hour, a.tm_min, a.tm_sec, off);
}
static void s_time(void) {
  int z = mc_choose(6), y = 1980 + mc_choose(128); setenv("TZ", zones[z], 1); tzset();
  be_up(BE_FAT, true); be_mem.op_limit = 0; mc_op("zone %s, year %d", zones[z], y);
  be_put(BE_FAT, "/m", "1", 1); EvfsFile *f = NULL;
  for(int day = 0; day < 366; day++) {
    static const int hms[][3] = { {0, 0, 0}, {23, 59, 59}, {2, 30, 1}, {12, 31, 58}, {8, 7, 6} };
    for(int h = 0; h < mc_tier(5, 29); h++) {
      int hh = h < 5 ? hms[h][0] : h - 5, mi = h < 5 ? hms[h][1] : h * 2 + 1, se = h < 5 ? hms[h][2] : 60 - 2 * h + day % 2;
      struct tm tm = { .tm_year = y - 1900, .tm_mday = 1 + day, .tm_hour = hh, .tm_min = mi, .tm_sec = se, .tm_isdst = -1 };
      time_t t = mktime(&tm); if(tm.tm_year != y - 1900) continue;
      now_is = t;
      MC_CHECK(evfs_open_ex("/m", &f, EVFS_RDWR, "be") == EVFS_OK && evfs_file_write(f, "2", 1) == 1 && evfs_file_close(f) == EVFS_OK, "writing");
      check_time("m", t, "a file written");
      if(day % 30 == 0 && h == 0) { /* reading and renaming keep it; new entries get their own */
        now_is = t + 7200; char b[4];
        MC_CHECK(evfs_open_ex("/m", &f, EVFS_READ, "be") == EVFS_OK && evfs_file_read(f, b, 1) == 1 && evfs_file_close(f) == EVFS_OK, "reading"); check_time("m", t, "a file written and then read");
        MC_CHECK(evfs_rename_ex("/m", "/n", "be") == EVFS_OK, "renaming"); check_time("n", t, "a file written and then renamed"); MC_CHECK(evfs_rename_ex("/n", "/m", "be") == EVFS_OK, "renaming");
        MC_CHECK(evfs_make_dir_ex("/d", "be") == EVFS_OK, "make_dir"); check_time("d", now_is, "a directory made"); MC_CHECK(evfs_delete_ex("/d", "be") == EVFS_OK, "delete");
      }
      mc_tick();
    }
  }
  now_is = 0; mc_state((uint64_t)(z * 1000 + y));
}
static void clean31(void) { now_is = 0; no_types = false; clean(); }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P31"); evfs_init(); mc_set_cleanup(clean31);
  mc_note("every file system (memory, host, host whose readdir gives no types, two FAT volumes, tar and ROM images as files and in memory) x every stack of up to %d shims (jail, trace, rotate) x 7 nodes x absolute and two relative spellings: fields announced by GET_STAT_FIELDS and GET_DIR_FIELDS hold the right values, all others are zero", mc_tier(3, 4));
  mc_note("FAT entry times: every day of the years 1980 to 2107 x %d times of day x 6 time zones, with and without daylight saving time; reading and renaming keep the time", mc_tier(5, 29));
  mc_explore("fields", s_fields); mc_explore("times", s_time);
  return mc_main_finish();
}
