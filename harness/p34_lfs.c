/* P34: littlefs volumes (glue and image I/O) over the modelled littlefs API. */
#include <ctype.h>
#include "fsmodel.h"
static const unsigned masks[] = { MF_BIT(MF_READ), MF_BIT(MF_WRITE), MF_BIT(MF_SEEK), MF_BIT(MF_SYNC), MF_BIT(MF_READ) | MF_BIT(MF_WRITE) };
static const char *mname[] = { "read", "write", "seek", "sync", "short transfer" };
static int fk, fn; static bool fforever, before;
static void arm(void) { be_mem.short_io = fk == 4; be_mem.short_len = 10; mem_fault(&be_mem, masks[fk], fn, EVFS_ERR_IO, fforever); }
static void pre(void) { before = be_mem.fired; }
/* the call the fault happens in has to say so */
static bool bad(const char *what, long st) {
  mc_op("%s -> %ld%s", what, st, be_mem.fired && !before ? " (fault)" : "");
  if(be_mem.fired && !before) MC_CHECK(st < 0, "%s reports success although a %s of the image failed", what, mname[fk]);
  return st < 0;
}
#define CALL(what, expr) (pre(), bad(what, (long)(expr)))
static unsigned char big[2000], rb[2000];
static EvfsFile *fh; static EvfsDir *dh;
enum { LO_MKDIR, LO_CREATE, LO_NEW, LO_APPEND, LO_READ, LO_RENAME, LO_DELETE, LO_LIST, LO_TRUNC, LO_STAT, LO_CHDIR, LO_N };
static void op(int o) {
  EvfsInfo inf; int st;
  switch(o) {
    case LO_MKDIR: CALL("make_dir", evfs_make_dir_ex("/newdir", "be")); break;
    case LO_STAT: CALL("stat", evfs_stat_ex("/old/deep/file", &inf, "be")); break;
    case LO_CHDIR: CALL("set_cur_dir", evfs_set_cur_dir_ex("/old/deep", "be")); CALL("relative stat", evfs_stat_ex("file", &inf, "be")); break;
    case LO_RENAME: CALL("rename", evfs_rename_ex("/mv", "/old/moved", "be")); break;
    case LO_DELETE: CALL("delete", evfs_delete_ex("/del", "be")); break;
    case LO_LIST: if(CALL("open_dir", evfs_open_dir_ex("/old", &dh, "be"))) { MC_CHECK(!dh, "a failed open_dir leaves a handle"); break; }
      for(int i = 0; i < 6; i++) { pre(); st = evfs_dir_read(dh, &inf); if(bad("dir_read", st == EVFS_DONE ? 0 : st) || st != EVFS_OK) break; }
      CALL("dir_rewind", evfs_dir_rewind(dh)); pre(); st = evfs_dir_read(dh, &inf); bad("dir_read", st == EVFS_DONE ? 0 : st);
      evfs_dir_close(dh); dh = NULL; break;
    default: {
      const char *p = o == LO_CREATE || o == LO_NEW ? "/new" : o == LO_READ ? "/keep" : "/app";
      int fl = o == LO_CREATE ? EVFS_WRITE | EVFS_OVERWRITE : o == LO_NEW ? EVFS_RDWR | EVFS_NO_EXIST : o == LO_APPEND ? EVFS_WRITE | EVFS_APPEND : o == LO_READ ? EVFS_READ : EVFS_RDWR;
      if(CALL("open", evfs_open_ex(p, &fh, fl, "be"))) { MC_CHECK(!fh, "a failed open leaves a handle"); break; }
      if(o == LO_READ) {
        pre(); int n = (int)evfs_file_read(fh, rb, 700); bool f = bad("read", n);
        if(n >= 0) MC_CHECK(n == 700 && !memcmp(rb, big, 700), "reading gives %d bytes or wrong data", n);
        if(!f) { CALL("seek", evfs_file_seek(fh, 1500, EVFS_SEEK_TO)); pre(); n = (int)evfs_file_read(fh, rb, 100); bad("read", n); if(n >= 0) MC_CHECK(n == 100 && !memcmp(rb, big + 1500, 100), "reading after a seek gives %d bytes or wrong data", n); }
      } else if(o == LO_TRUNC) CALL("truncate", evfs_file_truncate(fh, 300));
      else {
        bool f = CALL("write", evfs_file_write(fh, big, 1300));
        if(!f && o != LO_NEW) { f = CALL("sync", evfs_file_sync(fh));
          /* what is synced is in the volume before the file is closed */
          if(!f && !be_mem.fired) { EvfsInfo i2; int want = (int)evfs_file_size(fh); st = evfs_stat_ex(p, &i2, "be"); if(!be_mem.fired) MC_CHECK(st == EVFS_OK && i2.size == want, "a synced file of %d bytes has %d in the volume", want, (int)i2.size); else MC_CHECK(st < 0, "stat reports success although a %s of the image failed", mname[fk]); } }
        if(!f) CALL("write", evfs_file_write(fh, big, 10));
      }
      pre(); st = evfs_file_close(fh); fh = NULL; bad("close", st);
    }
  }
}
static void prepare(void) {
  for(int i = 0; i < 2000; i++) big[i] = (unsigned char)('a' + i * 7 % 26);
  fm_up(BE_LFS); be_mem.strict_seek = true;
  fm_file("/keep", big, 1900); fm_dir("/old"); fm_dir("/old/deep"); fm_file("/old/deep/file", "deep", 4);
  be_put(fm_be, "/app", big, 600); be_put(fm_be, "/mv", "mv", 2); be_put(fm_be, "/del", big, 800);
}
static void check_kept(const char *when) {
  EvfsFile *f; int n;
  MC_CHECK(evfs_open_ex("/keep", &f, EVFS_READ, "be") == EVFS_OK, "%s: a file not involved can not be opened", when);
  n = (int)evfs_file_read(f, rb, 2000); evfs_file_close(f);
  MC_CHECK(n == 1900 && !memcmp(rb, big, 1900), "%s: a file not involved is damaged", when);
  n = raw_read("/old/deep/file", rb, 100);
  MC_CHECK(n == 4 && !memcmp(rb, "deep", 4), "%s: a file not involved is damaged", when);
}
static int expect_dn(int o) { return o == LO_CREATE ? 1310 : o == LO_NEW ? 1310 : o == LO_APPEND ? 1910 : o == LO_TRUNC ? 300 : -1; }
/* one fault at one position of a history of operations on a mounted volume */
static void s_use(void) {
  fk = mc_choose(5); fforever = mc_choose(2);
  int k = mc_tier(2, 3), ops[3];
  for(int i = 0; i < k; i++) ops[i] = mc_choose(LO_N);
  fn = 1 + mc_choose(mc_tier(60, 90));
  prepare(); arm();
  mc_op("%s %d of the image fails%s", mname[fk], fn, fforever ? " for good" : "");
  mc_alloc_track(true);
  int open0 = be_mem.open_files, live0 = mc_alloc_live();
  fh = NULL; dh = NULL;
  for(int i = 0; i < k; i++) { bool f0 = be_mem.fired; op(ops[i]);
    /* without a fault the operation did its work */
    if(!f0 && !be_mem.fired && i == 0 && expect_dn(ops[0]) >= 0) { EvfsInfo inf; int st = evfs_stat_ex(ops[0] == LO_CREATE || ops[0] == LO_NEW ? "/new" : "/app", &inf, "be"); if(!be_mem.fired) MC_CHECK(st == EVFS_OK && inf.size == expect_dn(ops[0]), "without a fault the file has %d bytes (%s)", (int)inf.size, EN(st)); } }
  if(!be_mem.fired) mc_skip_rest();     /* more operations than happened */
  MC_CHECK(be_mem.open_files == open0, "a failing operation changes how many image files are open");
  MC_CHECK(mc_alloc_live() == live0, "a failing operation leaks memory");
  MC_CHECK(!lfsm_open_files && !lfsm_open_dirs, "a failing operation leaves %d files and %d directories open in the volume", lfsm_open_files, lfsm_open_dirs);
  if(!fforever) { mem_clear_fault(&be_mem); check_kept("on the same mount"); }
  lfs_down();
  MC_CHECK(be_mem.open_files == open0 - 1, "unmounting leaves the image open");
  mem_clear_fault(&be_mem);
  int st = lfs_mnt();
  MC_CHECK(st == EVFS_OK, "mounting again after a fault fails: %s", EN(st));
  evfs_set_cur_dir_ex("/", "be");
  check_kept("after mounting again");
  be_put(fm_be, "/after", "after", 5); MC_CHECK(raw_read("/after", rb, 10) == 5, "the volume can not be used after mounting again");
  mc_state(mc_hash(MC_HASH0 + (unsigned)fk, mem_find(&be_mem, "/lfs")->data, LFS_SIZE));
}
/* faults while mounting, making and unmounting */
static void s_mount(void) {
  static const unsigned mm[] = { MF_BIT(MF_READ), MF_BIT(MF_WRITE), MF_BIT(MF_SEEK), MF_BIT(MF_SYNC), MF_BIT(MF_READ) | MF_BIT(MF_WRITE), MF_BIT(MF_OPEN), MF_BIT(MF_CLOSE) };
  int when = mc_choose(6); fk = mc_choose(7); fforever = mc_choose(2); fn = 1 + mc_choose(30);
  prepare(); mc_alloc_track(true);
  int open0 = be_mem.open_files, st; EvfsInfo inf; (void)inf;
  static const char *wn[] = { "mounting", "unmounting", "mounting a damaged image", "mounting an image of the wrong size", "mounting a missing image", "making an image" };
  mc_op("fault %d at %d while %s", fk, fn, wn[when]);
  if(when != 1) lfs_down();
  int live = mc_alloc_live();
  if(when == 2) memset(mem_find(&be_mem, "/lfs")->data, fn, LFS_SIZE);
  if(when == 3) { static const int off[] = { -1, 1, -512, 512, -LFS_SIZE }; if(fn > 5 || fk || fforever) mc_prune(); int n = LFS_SIZE + off[fn - 1]; mem_put(&be_mem, "/lfs", lfs_tmpl, n < LFS_SIZE ? n : LFS_SIZE); if(n > LFS_SIZE) { unsigned char *x = mc_real_malloc((size_t)n); memcpy(x, lfs_tmpl, LFS_SIZE); memset(x + LFS_SIZE, 0, (size_t)(n - LFS_SIZE)); mem_put(&be_mem, "/lfs", x, n); mc_real_free(x); } }
  if(when == 4) MC_CHECK(evfs_delete("/lfs") == EVFS_OK, "harness: delete");
  if(when < 2 || when == 5) { be_mem.short_io = fk == 4; be_mem.short_len = 0; mem_fault(&be_mem, mm[fk], fn, EVFS_ERR_IO, fforever); }
  else if(when != 3 && (fk || fforever)) mc_prune();
  if(when == 1) { lfs_down(); }
  else if(when == 5) {
    uint64_t h = mc_hash(MC_HASH0, mem_find(&be_mem, "/lfs")->data, LFS_SIZE);
    st = littlefs_make_image("/made", &lfs_cfg); mc_op("make -> %s", EN(st));
    MC_CHECK((st == EVFS_OK) == !be_mem.fired, "making an image returns %s%s", EN(st), be_mem.fired ? " although the image failed" : "");
    MC_CHECK(be_mem.open_files == open0 - 1, "making an image leaves it open"); MC_CHECK(mc_alloc_live() == live, "making an image leaks");
    bool fired = be_mem.fired; mem_clear_fault(&be_mem);
    MC_CHECK(h == mc_hash(MC_HASH0, mem_find(&be_mem, "/lfs")->data, LFS_SIZE), "making an image writes to another one");
    if(!fired) { MC_CHECK(mem_find(&be_mem, "/made")->size == LFS_SIZE, "an image of the wrong size is made"); h = mc_hash(MC_HASH0, mem_find(&be_mem, "/made")->data, LFS_SIZE); MC_CHECK(littlefs_make_image("/made", &lfs_cfg) == EVFS_ERR_EXISTS, "an existing image is made again");
      MC_CHECK(h == mc_hash(MC_HASH0, mem_find(&be_mem, "/made")->data, LFS_SIZE), "an existing image is changed"); }
    else { st = littlefs_make_image("/made2", &lfs_cfg); MC_CHECK(st == EVFS_OK, "an image can not be made after a failure: %s", EN(st)); }
    st = littlefs_mount_image(fired ? "/made2" : "/made", &lfs_cfg, &lfs_vol); MC_CHECK(st == EVFS_OK, "a made image can not be mounted: %s", EN(st)); littlefs_unmount_image(&lfs_vol);
    if(!fired) mc_skip_rest();
  } else {
    st = lfs_mnt(); mc_op("mount -> %s", EN(st));
    if(when == 0 && !be_mem.fired) { MC_CHECK(st == EVFS_OK, "mounting fails"); mc_skip_rest(); }
    if(when == 0 && (fk == 6 || (fk == 3 && st == EVFS_OK))) mc_skip_rest();   /* asking for the size flushes first */
    MC_CHECK(st != EVFS_OK, "mounting reports success (%s)", wn[when]);
    MC_CHECK(be_mem.open_files == open0 - 1, "a failed mount leaves the image open");
    MC_CHECK(mc_alloc_live() == live, "a failed mount leaks");
    if(when == 4) return;
  }
  mem_clear_fault(&be_mem);
  MC_CHECK(be_mem.open_files == open0 - 1, "unmounting leaves the image open");
  if(when == 2 || when == 3) { mem_put(&be_mem, "/lfs", lfs_tmpl, LFS_SIZE); MC_CHECK(lfs_mnt() == EVFS_OK, "mounting a repaired image fails"); return; }
  st = lfs_mnt(); MC_CHECK(st == EVFS_OK, "mounting again fails: %s", EN(st));
  check_kept("after mounting again");
  if(when == 1) mc_skip_rest();
}
/* settings: read-only volumes are never modified, dots are hidden on request, fields are announced */
static void s_settings(void) {
  int ro = mc_choose(2), nodots = mc_choose(2), o = mc_choose(5), fl = o == 0 ? mc_choose(64) : 0;
  prepare(); unsigned on = 1;
  EvfsFile *w = NULL; if(o == 4) MC_CHECK(evfs_open_ex("/app", &w, EVFS_RDWR, "be") == EVFS_OK, "open");
  if(ro) MC_CHECK(evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &on, "be") == EVFS_OK, "setting read-only");
  if(nodots) MC_CHECK(evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &on, "be") == EVFS_OK, "hiding dots");
  uint64_t h = mc_hash(MC_HASH0, mem_find(&be_mem, "/lfs")->data, LFS_SIZE); int st; EvfsInfo inf;
  mc_op("read-only %d, no dots %d, operation %d", ro, nodots, o);
  if(o == 0) { EvfsFile *f = NULL; const char *p = fl & EVFS_NO_EXIST ? "/fresh" : "/app"; st = evfs_open_ex(p, &f, fl, "be"); mc_op("open %s (%s) -> %s", p, flag_str(fl), EN(st));
    if(ro && (fl & ~EVFS_READ)) MC_CHECK(st == EVFS_ERR_DISABLED && !f, "opening with %s on a read-only volume returns %s", flag_str(fl), EN(st));
    if(st == EVFS_OK) { if(ro) MC_CHECK(evfs_file_write(f, "x", 1) < 0 && evfs_file_truncate(f, 0) < 0, "a read-only volume is written"); evfs_file_close(f); } }
  if(o == 1) { int a = evfs_make_dir_ex("/nd", "be"), b = evfs_delete_ex("/del", "be"), c = evfs_rename_ex("/mv", "/mw", "be"); mc_op("make_dir %s, delete %s, rename %s", EN(a), EN(b), EN(c));
    int want = ro ? EVFS_ERR_DISABLED : EVFS_OK; MC_CHECK(a == want && b == want && c == want, "changes of a %s volume give %s %s %s", ro ? "read-only" : "writable", EN(a), EN(b), EN(c)); }
  if(o == 2) { EvfsDir *d; int dots = 0, n = 0; MC_CHECK(evfs_open_dir_ex("/old", &d, "be") == EVFS_OK, "open_dir");
    for(int r = 0; r < 2; r++) { while((st = evfs_dir_read(d, &inf)) == EVFS_OK) { MC_CHECK(inf.name, "no name"); if(inf.name[0] == '.') dots++; else { n++; MC_CHECK(!strcmp(inf.name, "deep") && inf.type == EVFS_FILE_DIR, "'%s' is listed", mc_str(inf.name)); } MC_CHECK(dots + n < 9, "endless"); } MC_CHECK(st == EVFS_DONE && evfs_dir_rewind(d) == EVFS_OK, "listing ends with %s", EN(st)); }
    MC_CHECK(n == 2 && dots == (nodots ? 0 : 4), "%d entries and %d dots are listed", n, dots); evfs_dir_close(d); }
  if(o == 3) { unsigned sf = 0, df = 0; MC_CHECK(evfs_vfs_ctrl_ex(EVFS_CMD_GET_STAT_FIELDS, &sf, "be") == EVFS_OK && evfs_vfs_ctrl_ex(EVFS_CMD_GET_DIR_FIELDS, &df, "be") == EVFS_OK, "fields");
    memset(&inf, 0xA5, sizeof inf); MC_CHECK(evfs_stat_ex("/keep", &inf, "be") == EVFS_OK && (sf & EVFS_INFO_SIZE) && inf.size == 1900 && !inf.type, "stat");
    if(!(sf & EVFS_INFO_NAME)) MC_CHECK(!inf.name, "stat gives a name that is not announced"); if(!(sf & EVFS_INFO_MTIME)) MC_CHECK(!inf.mtime, "stat gives a time that is not announced");
    memset(&inf, 0xA5, sizeof inf); MC_CHECK(evfs_stat_ex("/old", &inf, "be") == EVFS_OK && (inf.type & EVFS_FILE_DIR), "stat of a directory"); MC_CHECK(df & EVFS_INFO_NAME, "names are not announced");
    EvfsDir *d; EvfsInfo i2; int seen = 0; MC_CHECK(evfs_open_dir_ex("/", &d, "be") == EVFS_OK, "open_dir");
    while(evfs_dir_read(d, &inf) == EVFS_OK) { if(inf.name[0] == '.') continue; char q[300]; snprintf(q, sizeof q, "/%s", inf.name); MC_CHECK(evfs_stat_ex(q, &i2, "be") == EVFS_OK && i2.type == inf.type && (!(df & EVFS_INFO_SIZE) || i2.size == inf.size), "'%s' is listed with %d bytes instead of %d", mc_str(inf.name), (int)inf.size, (int)i2.size); seen++; }
    MC_CHECK(seen == 5, "%d entries are listed instead of 5", seen); evfs_dir_close(d);
    MC_CHECK(evfs_vfs_ctrl_ex(12345, &sf, "be") == EVFS_ERR_NO_SUPPORT, "an unknown command is accepted"); }
  if(o == 4) { st = (int)evfs_file_write(w, "x", 1); int t = evfs_file_truncate(w, 5), c = evfs_file_close(w); mc_op("write %d truncate %s close %s", st, EN(t), EN(c)); if(ro) MC_CHECK(st == EVFS_ERR_DISABLED && t == EVFS_ERR_DISABLED, "a file opened before is still writable"); else MC_CHECK(st == 1 && t == EVFS_OK && c == EVFS_OK && raw_read("/app", rb, 100) == 5, "writing"); }
  if(ro) MC_CHECK(h == mc_hash(MC_HASH0, mem_find(&be_mem, "/lfs")->data, LFS_SIZE), "a read-only volume is modified");
}
/* paths: long ones, relative ones, with every allocation failing in turn */
static void s_paths(void) {
  int len = mc_choose(5), cd = mc_choose(3), o = mc_choose(7), af = mc_choose(6);
  prepare(); static const int ls[] = { 1, 100, 255, 256, 400 };
  char d[512], p[1024], deep[1024], big_[512]; EvfsInfo inf; int st; EvfsFile *f = NULL; EvfsDir *dd = NULL;
  /* a directory that is deep enough for its path to be long */
  strcpy(deep, ""); for(int i = 0; i < cd; i++) { memset(d, 'd', 110); d[110] = 0; strcat(deep, "/"); strcat(deep, d); if(evfs_make_dir_ex(deep, "be") != EVFS_OK) mc_prune(); }
  if(cd) { st = evfs_set_cur_dir_ex(deep, "be"); mc_op("set_cur_dir to a path of %d -> %s", (int)strlen(deep), EN(st)); MC_CHECK(st == EVFS_OK, "changing to an existing directory fails: %s", EN(st)); }
  memset(big_, 'n', (size_t)ls[len]); big_[ls[len]] = 0;
  snprintf(p, sizeof p, "%s/%s", deep, big_); bool fits = strlen(p) < EVFS_MAX_PATH && ls[len] <= 250 - (int)strlen(deep) - 1, may = fits || strlen(p) >= EVFS_MAX_PATH;
  mc_alloc_track(true); int live = mc_alloc_live();
  if(af) mc_alloc_fail_at(af);
  static const char *on[] = { "open", "stat", "delete", "rename", "make_dir", "open_dir", "set_cur_dir" };
  switch(o) {
    case 0: st = evfs_open_ex(big_, &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, "be"); break;
    case 1: st = evfs_stat_ex(big_, &inf, "be"); break;
    case 2: st = evfs_delete_ex(big_, "be"); break;
    case 3: st = evfs_rename_ex(big_, "other", "be"); break;
    case 4: st = evfs_make_dir_ex(big_, "be"); break;
    case 5: st = evfs_open_dir_ex(big_, &dd, "be"); break;
    default: st = evfs_set_cur_dir_ex(big_, "be"); break;
  }
  bool failed = mc_alloc_failed(); mc_alloc_fail_at(0);
  mc_op("%s of a name of %d in a path of %d, allocation %d fails -> %s", on[o], ls[len], (int)strlen(deep), failed ? af : 0, EN(st));
  bool makes = o == 0 || o == 4;
  if(failed) MC_CHECK(st < 0, "%s succeeds although an allocation failed", on[o]);
  else if(makes) MC_CHECK((st == EVFS_OK) == fits || !may, "%s of a name of %d below a path of %d gives %s", on[o], ls[len], (int)strlen(deep), EN(st));
  else MC_CHECK(st < 0, "%s of a missing name of %d gives %s", on[o], ls[len], EN(st));
  if(!makes && fits && !failed) MC_CHECK(missing_err(st), "%s of a missing name reports %s", on[o], EN(st));
  if(st != EVFS_OK) MC_CHECK(!f && !dd, "a failed %s leaves a handle", on[o]);
  if(f) MC_CHECK(evfs_file_close(f) == EVFS_OK, "close");
  MC_CHECK(mc_alloc_live() == live, "%s leaks", on[o]);
  MC_CHECK(!lfsm_open_files && !lfsm_open_dirs, "%s leaves something open in the volume", on[o]);
  if(st == EVFS_OK && makes) { int s2 = evfs_stat_ex(p, &inf, "be"); MC_CHECK(s2 == EVFS_OK && !!(inf.type & EVFS_FILE_DIR) == (o == 4), "what '%s' made is not there: %s", on[o], EN(s2));
    if(o == 4 && strlen(p) < EVFS_MAX_PATH) { s2 = evfs_set_cur_dir_ex(big_, "be"); MC_CHECK(s2 == EVFS_OK, "changing to a new directory fails: %s", EN(s2)); strcpy(deep, p); } }
  /* the current directory is what it was or was changed to */
  char c[512]; StringRange r; range_init(&r, c, sizeof c); st = evfs_get_cur_dir_ex(&r, "be");
  MC_CHECK(st == EVFS_OK && !strcmp(c, *deep ? deep : "/"), "the current directory is '%s' (%s)", mc_str(c), EN(st));
  StringRange tiny; char t[8] = "zzzzzzz"; range_init(&tiny, t, 4); st = evfs_get_cur_dir_ex(&tiny, "be"); MC_CHECK(t[4] == 'z' && (st != EVFS_OK) == (strlen(c) > 3), "a current directory of %d fits into 4: %s", (int)strlen(c), EN(st));
  check_kept("afterwards");
}
/* positions and sizes beyond what littlefs can hold, images beyond 4 GiB */
static void s_limits(void) {
  static const long long off[] = { 0, 1, 1900, 1901, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, -1, -1900, -1901, -2147483648LL, -2147483649LL, 1LL << 40 };
  int i = mc_choose(14), org = 1 + mc_choose(3), start = mc_choose(3), wr = mc_choose(2);
  if((evfs_off_t)off[i] != off[i]) mc_prune();
  prepare(); EvfsFile *f; static const int at[] = { 0, 5, 1900 };
  MC_CHECK(evfs_open_ex("/keep", &f, EVFS_RDWR, "be") == EVFS_OK && evfs_file_seek(f, at[start], EVFS_SEEK_TO) == EVFS_OK, "open");
  long long t = org == EVFS_SEEK_TO ? off[i] : org == EVFS_SEEK_REL ? at[start] + off[i] : 1900 - off[i]; if(t < 0) t = 0;
  int st = evfs_file_seek(f, (evfs_off_t)off[i], (EvfsSeekDir)org); long long now = evfs_file_tell(f);
  mc_op("at %d: seek %d %lld -> %s, at %lld", at[start], org, off[i], EN(st), now);
  if(t <= 2147483647LL && (evfs_off_t)t == t) MC_CHECK(st == EVFS_OK && now == t, "seeking to %lld ends at %lld (%s)", t, now, EN(st));
  else MC_CHECK(st != EVFS_OK ? now == at[start] : now == t || now == 2147483647LL, "seeking to %lld gives %s and ends at %lld", t, EN(st), now);
  MC_CHECK(evfs_file_size(f) == 1900, "seeking changes the size");
  if(wr && now > 100000) { st = (int)evfs_file_write(f, "abc", 3); MC_CHECK(st <= 0, "writing at %lld gives %d", now, st); }
  st = evfs_file_truncate(f, (evfs_off_t)off[i]); long long z = evfs_file_size(f); mc_op("truncate %lld -> %s, %lld bytes", off[i], EN(st), z);
  if(off[i] < 0) MC_CHECK(st != EVFS_OK && z == 1900, "truncating to %lld gives %s and %lld bytes", off[i], EN(st), z);
  else if(off[i] <= 1900) MC_CHECK(wr && now > 100000 ? true : st == EVFS_OK && z == off[i], "truncating to %lld gives %s and %lld bytes", off[i], EN(st), z);
  else MC_CHECK(z == 1900 || (st == EVFS_OK && z == off[i]), "truncating to %lld gives %s and %lld bytes", off[i], EN(st), z);
  evfs_file_close(f);
}
/* where blocks of large images are, with a stand-in for the image file */
static long long sk_at; static int sk_n, sk_rw; static bool sk_fail;
static int sk_seek(EvfsFile *fh, evfs_off_t off, EvfsSeekDir d) { (void)fh; sk_n++; sk_at = d == EVFS_SEEK_TO ? off : -1; return sk_fail ? EVFS_ERR : EVFS_OK; }
static ptrdiff_t sk_read(EvfsFile *fh, void *b, size_t n) { (void)fh; sk_rw++; memset(b, 7, n); return (ptrdiff_t)n; }
static ptrdiff_t sk_write(EvfsFile *fh, const void *b, size_t n) { (void)fh; (void)b; sk_rw++; return (ptrdiff_t)n; }
static EvfsFileMethods sk_m = { .m_seek = sk_seek, .m_read = sk_read, .m_write = sk_write };
static void s_blocks(void) {
  static const uint32_t bs[] = { 128, 512, 4096, 65536, 1u << 20, 1u << 31 }, blk[] = { 0, 1, 2, 4095, 4096, 65535, 65536, 1u << 20, 1u << 22, 1u << 23, 0x7fffffff, 0xffffffff }, off[] = { 0, 16, 112 };
  uint32_t s = bs[mc_choose(6)], b = blk[mc_choose(12)], o = off[mc_choose(3)]; int wr = mc_choose(2); sk_fail = mc_choose(2);
  EvfsFile file; memset(&file, 0, sizeof file); file.methods = &sk_m; LittlefsImage img = { .fh = &file };
  struct lfs_config c = lfs_cfg; c.context = &img; c.block_size = s; unsigned char buf[16] = { 0 };
  sk_n = sk_rw = 0; sk_at = -1;
  int st = wr ? c.prog(&c, b, o, buf, 16) : c.read(&c, b, o, buf, 16);
  unsigned long long want = (unsigned long long)b * s + o; bool fits = (evfs_off_t)want >= 0 && (unsigned long long)(evfs_off_t)want == want;
  mc_op("%s block %u of %u bytes at %u -> %d, at %lld", wr ? "program" : "read", b, s, o, st, sk_at);
  if(!fits || sk_fail) MC_CHECK(st < 0 && !sk_rw, "block %u of %u bytes is %s at %lld (%d)", b, s, wr ? "written" : "read", sk_at, st);
  else MC_CHECK(st == LFS_ERR_OK && sk_at == (long long)want && sk_rw == 1, "block %u of %u bytes at %u is looked for at %lld instead of %llu", b, s, o, sk_at, want);
}
/* filling the volume */
static void s_full(void) {
  static const int chunk[] = { 37, 100, 511, 512, 3000 }; int c = mc_choose(5), sync = mc_choose(2), keep = 0, n;
  prepare(); EvfsFile *f; static unsigned char b[20000]; MC_CHECK(evfs_open_ex("/fill", &f, EVFS_RDWR | EVFS_NO_EXIST, "be") == EVFS_OK, "open");
  for(;;) { for(int j = 0; j < chunk[c]; j++) b[j] = (unsigned char)((keep + j) % 47); n = (int)evfs_file_write(f, b, (size_t)chunk[c]); mc_tick(); be_mem.ops = 0; if(n != chunk[c]) break; keep += n; if(sync) MC_CHECK(evfs_file_sync(f) == EVFS_OK, "sync"); MC_CHECK(keep < LFS_SIZE, "the volume never gets full"); }
  mc_op("chunks of %d: full after %d: %s", chunk[c], keep, EN(n)); MC_CHECK(n == EVFS_ERR_FS_FULL, "a full volume reports %s", EN(n));
  evfs_file_close(f); check_kept("on a full volume"); fm_remount(); check_kept("after mounting again");
  MC_CHECK(evfs_delete_ex("/fill", "be") == EVFS_OK, "delete"); be_put(fm_be, "/again", big, 1500); MC_CHECK(raw_read("/again", rb, 2000) == 1500, "space is not usable again");
}
/* missing arguments */
static void s_args(void) {
  int k = mc_choose(7); prepare(); int open0 = be_mem.open_files, st = -1; mc_op("missing argument %d", k); struct lfs_config cfg = lfs_cfg; cfg.context = NULL; lfs_t v;
  switch(k) {
    case 0: st = littlefs_make_image(NULL, &lfs_cfg); break;
    case 1: st = littlefs_make_image("/x", NULL); break;
    case 2: st = littlefs_make_image("/x", &cfg); break;
    case 3: st = evfs_register_littlefs(NULL, &lfs_vol, false); break;
    case 4: st = evfs_register_littlefs("x", NULL, false); break;
    case 5: st = evfs_register_littlefs("be", &lfs_vol, false); MC_CHECK(evfs_find_vfs("be"), "gone"); if(st == EVFS_OK) st = -1; break;
    case 6: st = littlefs_mount_image("/none", &lfs_cfg, &v); lfs_img.fh = lfs_img.fh; lfs_up = false; open0 = be_mem.open_files; break;
  }
  MC_CHECK(st < 0, "a missing argument gives %s", EN(st)); MC_CHECK(!mem_find(&be_mem, "/x") && be_mem.open_files == open0, "a refused call has an effect"); if(k != 6) check_kept("afterwards");
}
static void clean34(void) { be_mem.strict_seek = false; be_mem.short_io = false; mem_clear_fault(&be_mem); if(fh) { evfs_file_close(fh); fh = NULL; } if(dh) { evfs_dir_close(dh); dh = NULL; } mc_alloc_fail_at(0); fm_clean(); }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P34");
  evfs_init();
  mc_set_cleanup(clean34);
  fm_nbe = 1; fm_bes[0] = BE_LFS;
  mc_note("The littlefs submodule is not present: its documented API is modelled in harness/lfsmodel.c, over the block device callbacks of littlefs_image.c, with atomic commits and its preconditions checked; littlefs itself is not covered");
  mc_note("All 64 open-flag combinations x 6 targets x 6 uses; data: every sequence of %d operations out of 24 with small sizes and %d with sizes around 512; names: every sequence of %d operations over 5 absolute and 4 relative paths; every history ends with unmounting, mounting again and a comparison of every file and directory", mc_tier(3, 4), mc_tier(2, 3), mc_tier(3, 4));
  mc_note("Every history of %d operation(s) out of %d x the n-th read, write, seek, sync or short transfer of the image failing, once or from then on, for every n up to %d; mounting, unmounting and making images with every image operation failing in turn; damaged images and images of the wrong size", mc_tier(2, 3), LO_N, mc_tier(60, 90));
  mc_note("Settings, long paths with every allocation failing in turn, positions around 2^31 and 2^32 and blocks of images up to 2^63 bytes, with 32 and 64 bit file offsets, filling the volume, missing arguments");
#ifndef LIMITS
  mc_explore("flags", s_flags);
  mc_explore("sizes", s_sizes);
  mc_explore("data", s_data);
  mc_explore("names", s_names);
  mc_explore_depth("use", s_use, 3);
  mc_explore_depth("mount", s_mount, 2);
  mc_explore("settings", s_settings);
  mc_explore("paths", s_paths);
#endif
  mc_explore("blocks", s_blocks);
  mc_explore("limits", s_limits);
  mc_explore("full", s_full);
  mc_explore("args", s_args);
  return mc_main_finish();
}
