/* P28: faults of the image file below a FAT volume. */
#include <ctype.h>
#include "fsmodel.h"
static const unsigned masks[] = { MF_BIT(MF_READ), MF_BIT(MF_WRITE), MF_BIT(MF_SEEK), MF_BIT(MF_SYNC), MF_BIT(MF_READ) | MF_BIT(MF_WRITE) };
static const char *mname[] = { "read", "write", "seek", "sync", "short transfer" };
static int fk, fn; static bool fforever;
static void arm(void) { be_mem.short_io = fk == 4; be_mem.short_len = 100; mem_fault(&be_mem, masks[fk], fn, EVFS_ERR_IO, fforever); }
static void disarm(void) { bool f = be_mem.fired; mem_clear_fault(&be_mem); be_mem.fired = f; }
static int at, armed_at; static bool must;      /* must: the fault happened during this call */
static const char *cur;
static void begin(const char *what) { cur = what; if(at++ == armed_at) arm(); must = false; }
static bool before;
static void pre(void) { before = be_mem.fired; }
/* the call st belongs to needed the failing operation: it has to say so */
static bool bad(long st) {
  bool now = be_mem.fired && (!before || fforever);
  mc_op("%s -> %ld%s", cur, st, now && !before ? " (fault)" : "");
  if(be_mem.fired && !before) MC_CHECK(st < 0, "%s reports success although a %s of the image failed", cur, mname[fk]);
  if(!be_mem.fired) return false;
  return st < 0;
}
#define CALL(what, expr) (begin(what), pre(), bad((long)(expr)))
static unsigned char big[2000], rb[2000];
static EvfsFile *fh;
/* one operation on the mounted volume; returns true when it failed */
enum { FO_MKDIR, FO_CREATE, FO_APPEND, FO_READ, FO_RENAME, FO_DELETE, FO_LIST, FO_TRUNC, FO_STAT, FO_CHDIR, FO_MOVEDIR, FO_BADMOVE, FO_N };
static bool touched_old;
static void op(int o) {
  EvfsInfo inf; int st;
  switch(o) {
    case FO_MKDIR: CALL("make_dir", evfs_make_dir_ex("/newdir", "be")); break;
    case FO_STAT: CALL("stat", evfs_stat_ex("/old/deep/file", &inf, "be")); break;
    case FO_CHDIR: if(!CALL("set_cur_dir", evfs_set_cur_dir_ex("/old/deep", "be")))  { char c[64]; StringRange r; range_init(&r, c, 64); CALL("get_cur_dir", evfs_get_cur_dir_ex(&r, "be")); mem_clear_fault(&be_mem); } evfs_set_cur_dir_ex("/", "be"); break;
    case FO_RENAME: touched_old = true; CALL("rename", evfs_rename_ex("/mv", "/old/moved", "be")); break;
    case FO_MOVEDIR: touched_old = true; CALL("rename", evfs_rename_ex("/dx", "/old/dx", "be")); break;
    case FO_BADMOVE: { begin("rename below itself"); pre(); st = evfs_rename_ex("/old", "/old/deep/in", "be"); bad(st); MC_CHECK(st < 0, "a directory is moved below itself"); break; }
    case FO_DELETE: touched_old = true; CALL("delete", evfs_delete_ex("/del", "be")); break;
    case FO_LIST: { EvfsDir *d; if(CALL("open_dir", evfs_open_dir_ex("/old", &d, "be"))) { MC_CHECK(!d, "a failed open_dir leaves a handle"); break; }
      for(int i = 0; i < 6; i++) { begin("dir_read"); pre(); st = evfs_dir_read(d, &inf); if(bad(st == EVFS_DONE ? 0 : st) || st != EVFS_OK) break; }
      if(!be_mem.fired) { CALL("dir_rewind", evfs_dir_rewind(d)); CALL("dir_read", evfs_dir_read(d, &inf)); }
      evfs_dir_close(d); break; }
    default: {
      const char *p = o == FO_CREATE ? "/new" : o == FO_APPEND ? "/app" : o == FO_READ ? "/keep" : "/app";
      int fl = o == FO_CREATE ? EVFS_WRITE | EVFS_OVERWRITE : o == FO_APPEND ? EVFS_WRITE | EVFS_APPEND : o == FO_READ ? EVFS_READ : EVFS_RDWR;
      if(CALL("open", evfs_open_ex(p, &fh, fl, "be"))) { MC_CHECK(!fh, "a failed open leaves a handle"); break; }
      if(!fh) break;
      bool f = false;
      if(o == FO_READ) {
        begin("read"); pre(); int n = (int)evfs_file_read(fh, rb, 700); f = bad(n);
        if(n >= 0) MC_CHECK(n == 700 && !memcmp(rb, big, 700), "reading gives %d bytes or wrong data", n);
        if(!f) { f = CALL("seek", evfs_file_seek(fh, 1500, EVFS_SEEK_TO)); if(!f) { begin("read"); pre(); n = (int)evfs_file_read(fh, rb, 100); f = bad(n); if(n >= 0) MC_CHECK(n == 100 && !memcmp(rb, big + 1500, 100), "reading after a seek gives %d bytes or wrong data", n); } }
      } else {
        if(o == FO_TRUNC) f = CALL("truncate", evfs_file_truncate(fh, 300)); else {
          f = CALL("write", evfs_file_write(fh, big, 1300));
          if(!f) f = CALL("write", evfs_file_write(fh, big, 30));
          if(!f) f = CALL("sync", evfs_file_sync(fh));
          if(!f) f = CALL("write", evfs_file_write(fh, big, 10));
        }
      }
      begin("close"); pre(); st = evfs_file_close(fh); fh = NULL; bad(st);
    }
  }
}
static void prepare(bool two) {
  for(int i = 0; i < 2000; i++) big[i] = (unsigned char)('a' + i * 7 % 26);
  fm_up(two ? BE_FAT1 : BE_FAT); be_mem.strict_seek = true;
  fm_file("/keep", big, 1900); fm_dir("/old"); fm_dir("/old/deep"); fm_file("/old/deep/file", "deep", 4);
  be_put(fm_be, "/app", big, 600); be_put(fm_be, "/mv", "mv", 2); fm_dir("/dx"); be_put(fm_be, "/dx/y", "y", 1); be_put(fm_be, "/del", big, 800);
  if(two) { EvfsFile *f; MC_CHECK(evfs_open_ex("/zero", &f, EVFS_WRITE | EVFS_OVERWRITE, "other") == EVFS_OK && evfs_file_write(f, "volume zero", 11) == 11 && evfs_file_close(f) == EVFS_OK, "volume 0"); }
}
static void check_kept(const char *when) {
  EvfsFile *f; int n;
  MC_CHECK(evfs_open_ex("/keep", &f, EVFS_READ, "be") == EVFS_OK, "%s: a file not involved can not be opened", when);
  n = (int)evfs_file_read(f, rb, 2000); evfs_file_close(f);
  MC_CHECK(n == 1900 && !memcmp(rb, big, 1900), "%s: a file not involved is damaged", when);
  n = raw_read("/old/deep/file", rb, 100);
  MC_CHECK(n == 4 && !memcmp(rb, "deep", 4), "%s: a file not involved is damaged", when);
}
static uint64_t img0_hash(void) { MemNode *n = mem_find(&be_mem, "/img0"); return mc_hash(MC_HASH0, n->data, (size_t)n->size); }
/* one fault at one position of a history of operations on a mounted volume */
static void s_use(void) {
  bool two = mc_choose(2); fk = mc_choose(5); fforever = mc_choose(2);
  int k = mc_tier(2, 3), ops[3];
  for(int i = 0; i < k; i++) ops[i] = mc_choose(FO_N);
  armed_at = 0; at = 0;
  fn = 1 + mc_choose(60);
  prepare(two);
  mc_op("%s%s: %s %d of the image fails%s", be_name[fm_be], two ? " (two volumes)" : "", mname[fk], fn, fforever ? " for good" : "");
  uint64_t other = two ? img0_hash() : 0;
  mc_alloc_track(true);
  int open0 = be_mem.open_files, live0 = mc_alloc_live();
  fh = NULL;
  for(int i = 0; i < k; i++) op(ops[i]);
  if(!be_mem.fired && ops[0] != FO_CHDIR) { mc_prune(); }
  MC_CHECK(be_mem.open_files == open0, "a failing operation changes how many image files are open");
  MC_CHECK(mc_alloc_live() == live0, "a failing operation leaks memory");
  if(two) MC_CHECK(img0_hash() == other, "an operation on volume 1 writes to the image of volume 0");
  if(!fforever) { mem_clear_fault(&be_mem); check_kept("on the same mount"); }
  /* unmount, also while the fault persists */
  int v = two ? 1 : 0;
  fat_down(v);
  MC_CHECK(be_mem.open_files == open0 - 1, "unmounting leaves the image open");
  mem_clear_fault(&be_mem);
  EvfsInfo inf; MC_CHECK(evfs_stat_ex("/keep", &inf, "be") != EVFS_OK, "an unmounted volume still answers");
  int st = fat_mount(v);
  MC_CHECK(st == EVFS_OK, "mounting again after a fault fails: %s", EN(st));
  check_kept("after mounting again");
  be_put(fm_be, "/after", "after", 5); MC_CHECK(raw_read("/after", rb, 10) == 5, "the volume can not be used after mounting again");
  mc_state(mc_hash(MC_HASH0 + (unsigned)fk, mem_find(&be_mem, fat_img(v))->data, FAT_SIZE));
}
/* faults while mounting and unmounting; unmounting twice */
static void s_mount(void) {
  bool two = mc_choose(2); fk = mc_choose(6); fforever = mc_choose(2); int when = mc_choose(3), v = two; fn = 1 + mc_choose(8); int twice = mc_choose(2);
  prepare(two); at = 1; armed_at = 0;
  mc_alloc_track(true);
  int open0 = be_mem.open_files;
  mc_op("%s: fault while %s", be_name[fm_be], when == 0 ? "mounting" : when == 1 ? "unmounting" : "mounting over a damaged image");
  if(fk == 5) { if(when == 1) mc_prune(); fat_down(v); mem_fault(&be_mem, MF_BIT(MF_OPEN), 1, EVFS_ERR_IO, fforever); }
  else { if(when != 1) fat_down(v); arm(); }
  EvfsInfo inf; int st;
  if(when == 1) fat_down(v);
  else {
    if(when == 2) { mem_clear_fault(&be_mem); MemNode *n = mem_find(&be_mem, fat_img(v)); memset(n->data, fn, 4096); }
    int live = mc_alloc_live();
    st = fat_mount(v); mc_op("mount -> %s", EN(st));
    if(when == 0 && !be_mem.fired) mc_prune();
    MC_CHECK(st != EVFS_OK, "mounting reports success although %s", when == 2 ? "the image is damaged" : "the image failed");
    MC_CHECK(be_mem.open_files == open0 - 1, "a failed mount leaves the image open");
    MC_CHECK(mc_alloc_live() == live, "a failed mount leaks");
  }
  mem_clear_fault(&be_mem);
  MC_CHECK(be_mem.open_files == open0 - 1, "unmounting leaves the image open");
  MC_CHECK(evfs_stat_ex("/keep", &inf, "be") != EVFS_OK, "a volume that is not mounted answers");
  EvfsFile *f = NULL; MC_CHECK(evfs_open_ex("/keep", &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, "be") != EVFS_OK && !f, "a file on a volume that is not mounted opens");
  if(twice) { fatfs_unmount_image((uint8_t)v); mc_op("unmount once more"); }
  if(two) { int n = 0; MC_CHECK(evfs_open_ex("/zero", &f, EVFS_READ, "other") == EVFS_OK, "the other volume is affected"); n = (int)evfs_file_read(f, rb, 100); evfs_file_close(f); MC_CHECK(n == 11 && !memcmp(rb, "volume zero", 11), "the other volume is affected"); }
  if(when == 2) { mem_put(&be_mem, fat_img(v), fat_tmpl[v], FAT_SIZE); MC_CHECK(fat_mount(v) == EVFS_OK, "mounting a repaired image fails"); return; }
  st = fat_mount(v); MC_CHECK(st == EVFS_OK, "mounting again fails: %s", EN(st));
  check_kept("after mounting again");
}
/* faults while an image is made */
static void s_make(void) {
  static const unsigned mm[] = { MF_BIT(MF_OPEN), MF_BIT(MF_READ), MF_BIT(MF_WRITE), MF_BIT(MF_SEEK), MF_BIT(MF_CLOSE) };
  bool two = mc_choose(2); int kind = mc_choose(5), n = 1 + mc_choose(40), shortio = kind == 2 ? mc_choose(2) : 0, v = !two;
  fforever = mc_choose(2);
  fm_up(BE_FAT); be_mem.strict_seek = true;
  if(!v) fat_down(0);
  int open0 = be_mem.open_files; uint64_t other = img0_hash();
  mc_alloc_track(true); int live = mc_alloc_live();
  be_mem.short_io = shortio; be_mem.short_len = 0; mem_fault(&be_mem, mm[kind], n, EVFS_ERR_IO, fforever);
  int st = fatfs_make_image("/made", (uint8_t)v, FAT_SIZE); mc_op("make image as volume %d, fault kind %d at %d -> %s", v, kind, n, EN(st));
  if(!be_mem.fired) { MC_CHECK(st == EVFS_OK, "making an image fails: %s", EN(st)); }
  else MC_CHECK(st != EVFS_OK, "making an image reports success although the image failed");
  bool fired = be_mem.fired;
  MC_CHECK(be_mem.open_files == open0, "making an image leaves it open"); MC_CHECK(mc_alloc_live() == live, "making an image leaks");
  mem_clear_fault(&be_mem);
  MC_CHECK(img0_hash() == other, "making an image writes to another image");
  if(!fired) { MC_CHECK(fatfs_make_image("/made", (uint8_t)v, FAT_SIZE) == EVFS_ERR_EXISTS, "an existing image is made again"); st = fatfs_mount_image("/made", (uint8_t)v); MC_CHECK(st == EVFS_OK, "a made image can not be mounted: %s", EN(st)); fatfs_unmount_image((uint8_t)v); if(n > 1) mc_prune(); }
  else { st = fatfs_make_image("/made2", (uint8_t)v, FAT_SIZE); MC_CHECK(st == EVFS_OK && fatfs_mount_image("/made2", (uint8_t)v) == EVFS_OK, "an image can not be made after a failure: %s", EN(st)); fatfs_unmount_image((uint8_t)v); }
}
/* volume numbers that do not exist */
static void s_number(void) {
  int v = (int[]){ 2, 3, 9, 10, 99, 100, 255 }[mc_choose(7)]; fm_up(BE_FAT);
  int open0 = be_mem.open_files; uint64_t other = img0_hash();
  mc_op("volume %d", v);
  mem_put(&be_mem, "/img9", fat_tmpl[0], FAT_SIZE);
  MC_CHECK(fatfs_mount_image("/img9", (uint8_t)v) != EVFS_OK, "mounting as volume %d succeeds", v);
  MC_CHECK(fatfs_make_image("/nimg", (uint8_t)v, FAT_SIZE) != EVFS_OK, "making an image as volume %d succeeds", v);
  fatfs_unmount_image((uint8_t)v);
  MC_CHECK(be_mem.open_files == open0 && img0_hash() == other, "volume %d reaches another volume", v);
  EvfsInfo inf; MC_CHECK(evfs_register_fatfs("nine", (uint8_t)v, false) != EVFS_OK || evfs_stat_ex("/keep", &inf, "nine") != EVFS_OK, "volume %d answers", v);
  fm_file("/x", "x", 1); fm_verify(&fm_t, "after using a volume number that does not exist");
}
/* every sequence of mounting, replacing and unmounting images on two volumes */
#define NIMG 3
static unsigned char *img_tmpl[NIMG]; static char img_has[NIMG][32]; static const char *img_name[NIMG] = { "/img0", "/img1", "/imgA" };
static int mnt[2]; static EvfsFile *kept; static int kept_v; static bool kept_ok;
static void look(const char *when) {
  MC_CHECK(be_mem.open_files == (mnt[0] >= 0) + (mnt[1] >= 0), "%s: %d images are open", when, be_mem.open_files);
  for(int v = 0; v < 2; v++) {
    EvfsFile *f = NULL; int st = evfs_open_ex("/mark", &f, EVFS_READ, v ? "v1" : "v0");
    MC_CHECK((st == EVFS_OK) == (mnt[v] >= 0), "%s: volume %d %s: opening gives %s", when, v, mnt[v] >= 0 ? "is mounted" : "is not mounted", EN(st));
    if(st != EVFS_OK) { MC_CHECK(!f, "%s: a failed open leaves a handle", when); continue; }
    int n = (int)evfs_file_read(f, rb, 100); evfs_file_close(f);
    MC_CHECK(n == (int)strlen(img_has[mnt[v]]) && !memcmp(rb, img_has[mnt[v]], (size_t)n), "%s: volume %d does not show image %s", when, v, img_name[mnt[v]]);
  }
}
static void s_images(void) {
  fm_clean(); mem_free(&be_mem); mem_init(&be_mem, "mem"); evfs_register(&be_mem.vfs, true);
  for(int i = 0; i < NIMG; i++) {
    if(!img_tmpl[i]) {
      mc_alloc_track(false);
      int st = fatfs_make_image(img_name[i], 0, FAT_SIZE); MC_CHECK(st == EVFS_OK, "making an image: %s", EN(st));
      MC_CHECK(fatfs_mount_image(img_name[i], 0) == EVFS_OK && evfs_register_fatfs("v0", 0, false) == EVFS_OK, "mounting a new image");
      EvfsFile *f; char t[16]; int k = snprintf(t, sizeof t, "image %d", i);
      MC_CHECK(evfs_open_ex("/mark", &f, EVFS_WRITE | EVFS_OVERWRITE, "v0") == EVFS_OK && evfs_file_write(f, t, (size_t)k) == k && evfs_file_close(f) == EVFS_OK, "writing to a new image");
      evfs_unregister(evfs_find_vfs("v0")); fatfs_unmount_image(0);
      MemNode *n = mem_find(&be_mem, img_name[i]); img_tmpl[i] = mc_real_malloc(FAT_SIZE); memcpy(img_tmpl[i], n->data, FAT_SIZE);
    } else mem_put(&be_mem, img_name[i], img_tmpl[i], FAT_SIZE);
    snprintf(img_has[i], sizeof img_has[i], "image %d", i);
  }
  MC_CHECK(evfs_register_fatfs("v0", 0, false) == EVFS_OK && evfs_register_fatfs("v1", 1, false) == EVFS_OK, "registering");
  mnt[0] = mnt[1] = -1; kept = NULL; be_mem.open_files = 0; look("at the start");
  int n = 1 + mc_choose(mc_tier(4, 5));
  for(int k = 0; k < n; k++) {
    int o = mc_choose(12);
    if(o < 8) { int v = o / 4, i = o % 4;
      if(i < NIMG && mnt[1 - v] == i) mc_prune();
      int st = fatfs_mount_image(i < NIMG ? img_name[i] : "/missing", (uint8_t)v); mc_op("mount %s as volume %d%s -> %s", i < NIMG ? img_name[i] : "/missing", v, mnt[v] >= 0 ? " (in use)" : "", EN(st));
      MC_CHECK((st == EVFS_OK) == (i < NIMG), "mounting gives %s", EN(st));
      if(st == EVFS_OK) { if(kept && kept_v == v) kept_ok = false; mnt[v] = i; } }
    else if(o < 10) { int v = o - 8; fatfs_unmount_image((uint8_t)v); mc_op("unmount volume %d", v); mnt[v] = -1; if(kept && kept_v == v) kept_ok = false; }
    else if(o == 10) { /* open a file, or write to the one that is open */
      if(!kept) { kept_v = mc_choose(2); if(mnt[kept_v] < 0) mc_prune(); MC_CHECK(evfs_open_ex("/mark", &kept, EVFS_RDWR | EVFS_APPEND, kept_v ? "v1" : "v0") == EVFS_OK, "opening"); kept_ok = true; mc_op("open a file on volume %d", kept_v); }
      else { int r = (int)evfs_file_write(kept, "+", 1); if(r == 1) { int st = evfs_file_sync(kept); if(st != EVFS_OK) r = st; } mc_op("write to it -> %d", r);
        MC_CHECK((r == 1) == kept_ok, "writing through the file gives %d although its volume %s", r, kept_ok ? "is still mounted" : "was unmounted or replaced");
        if(r == 1) strcat(img_has[mnt[kept_v]], "+"); } }
    else { if(!kept) mc_prune(); int st = evfs_file_close(kept); kept = NULL; mc_op("close it -> %s", EN(st)); if(kept_ok) MC_CHECK(st == EVFS_OK, "closing: %s", EN(st)); }
    look("after the operation");
  }
  mc_state(mc_hash(MC_HASH0 + (unsigned)((mnt[0] + 1) * 8 + mnt[1] + 1), img_has, sizeof img_has));
  if(kept) { evfs_file_close(kept); kept = NULL; }
  fatfs_unmount_image(0); fatfs_unmount_image(1); mnt[0] = mnt[1] = -1; look("after unmounting everything");
}
static void clean_images(void) { if(kept) { evfs_file_close(kept); kept = NULL; } fatfs_unmount_image(0); fatfs_unmount_image(1); }
static void clean28(void) { be_mem.strict_seek = false; mem_clear_fault(&be_mem); clean_images(); fm_clean(); }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P28");
  evfs_init();
  mc_set_cleanup(clean28);
  mc_note("Every history of %d operation(s) out of %d on a mounted volume x the n-th read, write, seek, sync or short transfer of the image failing, once or from then on, for every n up to 60, with one and two volumes; the call in which it fails has to report it", mc_tier(2, 3), FO_N);
  mc_note("Mounting, unmounting and making images with every image operation failing in turn; damaged images; volume numbers that do not exist. What a partly made image file contains is not specified");
  mc_note("Every sequence of up to %d operations mounting 3 images and a missing one on 2 volumes (also on one in use), unmounting, and opening, writing and closing a file: the volumes show exactly the images mounted last, no image stays open, and a file of a replaced volume reaches nothing", mc_tier(4, 5));
  mc_explore_depth("use", s_use, 4);
  mc_explore_depth("mount", s_mount, 3);
  mc_explore_depth("make", s_make, 3);
  mc_explore("number", s_number);
  mc_explore("images", s_images);
  return mc_main_finish();
}
