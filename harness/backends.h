/* Writable back ends under test behind one interface: the host file system in a
   scratch directory, FAT volumes on images kept in memory, and memory itself. */
#ifndef BACKENDS_H
#define BACKENDS_H
#include "common.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "evfs/stdio_fs.h"
#ifdef WITH_FAT
#define DIR FAT_DIR   /* FatFs and dirent.h both define DIR */
#include "ff.h"
#include "evfs/fatfs_fs.h"
#include "evfs/fatfs_image.h"
#undef DIR
#endif
#ifdef WITH_LFS
#include "lfs.h"
#include "evfs/littlefs_fs.h"
#include "evfs/littlefs_image.h"
extern int lfsm_open_files, lfsm_open_dirs;
#endif
enum { BE_MEM, BE_STDIO, BE_FAT, BE_FAT1, BE_LFS };
static const char *be_name[] __attribute__((unused)) = { "memory", "host", "FAT", "FAT volume 1", "littlefs" };
static Mem be_mem;              /* BE_MEM, and the file system the FAT images live on */
static char be_root[512];       /* prefix of every path: "" except on the host */

/* remove everything below a scratch directory of ours; never follows links, never leaves it */
static void host_wipe_at(int dfd) {
  int d2 = dup(dfd); DIR *d = fdopendir(d2); struct dirent *e;
  if(!d) { close(d2); return; }
  rewinddir(d);
  while((e = readdir(d))) {
    if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    struct stat s;
    if(fstatat(dfd, e->d_name, &s, AT_SYMLINK_NOFOLLOW)) continue;
    if(S_ISDIR(s.st_mode)) {
      fchmodat(dfd, e->d_name, 0700, 0);
      int c = openat(dfd, e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
      if(c >= 0) { host_wipe_at(c); close(c); }
      unlinkat(dfd, e->d_name, AT_REMOVEDIR);
    } else unlinkat(dfd, e->d_name, 0);
  }
  closedir(d);
}
static void host_fresh(void) {
  snprintf(be_root, sizeof be_root, "%s/h", mc_scratch());
  if(chdir(mc_scratch())) mc_fail("harness: no scratch directory");
  int c = open(be_root, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
  if(c >= 0) { host_wipe_at(c); close(c); } else if(mkdir(be_root, 0700)) mc_fail("harness: mkdir");
  if(chdir(be_root)) mc_fail("harness: chdir");
}
#ifdef WITH_FAT
#ifndef FAT_SIZE
#define FAT_SIZE (130 * 1024)
#endif
static unsigned char *fat_tmpl[2];
static bool fat_up[2];
static void fat_down(int v) {
  if(fat_up[v]) fatfs_unmount_image((uint8_t)v);
  fat_up[v] = false;
}
static const char *fat_img(int v) { return v ? "/img1" : "/img0"; }
static int fat_mount(int v) { int st = fatfs_mount_image(fat_img(v), (uint8_t)v); if(st == EVFS_OK) fat_up[v] = true; return st; }
static void fat_fresh(int v) {
  if(!fat_tmpl[v]) {
    int st = fatfs_make_image(fat_img(v), (uint8_t)v, FAT_SIZE);
    if(st != EVFS_OK) mc_fail("making a FAT image fails: %s", EN(st));
    MemNode *n = mem_find(&be_mem, fat_img(v));
    fat_tmpl[v] = mc_real_malloc(FAT_SIZE); memcpy(fat_tmpl[v], n->data, FAT_SIZE);
  } else mem_put(&be_mem, fat_img(v), fat_tmpl[v], FAT_SIZE);
  int st = fat_mount(v);
  if(st != EVFS_OK) mc_fail("mounting a fresh FAT image fails: %s", EN(st));
}
#endif
#ifdef WITH_LFS
#define LFS_BLOCK 512
#define LFS_SIZE (64 * LFS_BLOCK)
static LittlefsImage lfs_img;
static struct lfs_config lfs_cfg = { .context = &lfs_img, .read = littlefs_image_read, .prog = littlefs_image_prog, .erase = littlefs_image_erase, .sync = littlefs_image_sync,
  .read_size = 16, .prog_size = 16, .block_size = LFS_BLOCK, .block_count = LFS_SIZE / LFS_BLOCK, .cache_size = 256, .lookahead_size = 16, .block_cycles = -1 };
static lfs_t lfs_vol;
static unsigned char *lfs_tmpl;
static bool lfs_up;
static void lfs_down(void) { if(lfs_up) littlefs_unmount_image(&lfs_vol); lfs_up = false; }
static int lfs_mnt(void) { int st = littlefs_mount_image("/lfs", &lfs_cfg, &lfs_vol); if(st == EVFS_OK) lfs_up = true; return st; }
static void lfs_fresh(void) {
  if(!lfs_tmpl) {
    int st = littlefs_make_image("/lfs", &lfs_cfg);
    if(st != EVFS_OK) mc_fail("making a littlefs image fails: %s", EN(st));
    MemNode *n = mem_find(&be_mem, "/lfs");
    if(!n || n->size != LFS_SIZE) mc_fail("a littlefs image of the wrong size is made");
    lfs_tmpl = mc_real_malloc(LFS_SIZE); memcpy(lfs_tmpl, n->data, LFS_SIZE);
  } else mem_put(&be_mem, "/lfs", lfs_tmpl, LFS_SIZE);
  int st = lfs_mnt();
  if(st != EVFS_OK) mc_fail("mounting a fresh littlefs image fails: %s", EN(st));
}
#endif
/* register the back end under the name "be"; everything fresh and empty */
static void be_up(int kind, bool dflt) {
  int st = EVFS_OK;
  be_root[0] = 0;
  mem_init(&be_mem, kind == BE_MEM ? "be" : "base");
  evfs_register(&be_mem.vfs, kind == BE_MEM ? dflt : true);
  switch(kind) {
    case BE_STDIO: host_fresh(); st = evfs_register_stdio(dflt); break;
#ifdef WITH_FAT
    case BE_FAT: case BE_FAT1: fat_fresh(0); if(kind == BE_FAT1) fat_fresh(1);
      st = evfs_register_fatfs("be", kind == BE_FAT ? 0 : 1, dflt);
      if(st == EVFS_OK && kind == BE_FAT1) st = evfs_register_fatfs("other", 0, false);
      break;
#endif
#ifdef WITH_LFS
    case BE_LFS: lfs_fresh(); st = evfs_register_littlefs("be", &lfs_vol, dflt); break;
#endif
  }
  if(st != EVFS_OK) mc_fail("registering %s fails: %s", be_name[kind], EN(st));
}
static void be_clean(void) {
  mc_alloc_track(false);
  unsigned off = 0;
  if(evfs_find_vfs("stdio")) { evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &off, "stdio"); evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &off, "stdio"); }
  mem_clear_fault(&be_mem);
#ifdef WITH_FAT
  fat_down(0); fat_down(1);
#endif
#ifdef WITH_LFS
  lfs_down();
#endif
  evfs_unregister_all();
  mc_alloc_reset();
  mem_free(&be_mem);
}
static const char *be_vfs(int kind) { return kind == BE_STDIO ? "stdio" : "be"; }
static char *be_path(const char *p) {
  static char b[8][1024]; static int i; i = (i + 1) & 7;
  snprintf(b[i], sizeof b[i], "%s%s", be_root, p);
  return b[i];
}
static void be_put(int kind, const char *p, const void *data, int n) {   /* through the library */
  EvfsFile *f;
  if(evfs_open_ex(be_path(p), &f, EVFS_WRITE | EVFS_OVERWRITE, be_vfs(kind)) != EVFS_OK) mc_fail("preparing '%s' fails", p);
  if(n && evfs_file_write(f, data, (size_t)n) != n) mc_fail("preparing '%s' fails to write", p);
  if(evfs_file_close(f) != EVFS_OK) mc_fail("preparing '%s' fails to close", p);
}
static void be_mkdir(int kind, const char *p) {
#ifdef NOPOSIX   /* the library can not */
  if(kind == BE_STDIO) { if(mkdir(be_path(p), 0700)) mc_fail("harness: mkdir"); return; }
#endif
  int st = evfs_make_dir_ex(be_path(p), be_vfs(kind)); if(st != EVFS_OK) mc_fail("preparing directory '%s' fails: %s", p, EN(st)); }
static __attribute__((unused)) void be_unused(void) { (void)be_put; (void)be_mkdir; }
#endif
