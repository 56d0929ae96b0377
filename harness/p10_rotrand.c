/* P10: random access on a rotating log against a byte-array model. */
#include "rot.h"
static Mem g_m; static RM rm; static long wr; static EvfsFile *f; static int C, M, flags;
static void cl(void) { std_cleanup(); mem_free(&g_m); mem_init(&g_m, "mem"); g_m.op_limit = 200000; evfs_register(&g_m.vfs, true); f = NULL; }
static void reopen(int fl) {
  if(f) MC_CHECK(evfs_file_close(f) == EVFS_OK, "closing the log fails");
  f = NULL; int st = evfs_open_ex("/log", &f, fl, "rot"); MC_CHECK(st == EVFS_OK, "opening the log fails: %s", EN(st)); flags = fl; rm.pos = 0;
}
static void start(int fill) {
  rm.n = rm.pos = 0; rm.dropped = 0; rm.C = C; rm.M = M; wr = 0; f = NULL;
  RotateConfig cfg = { (uint32_t)C, (uint32_t)M };
  MC_CHECK(evfs_register_rotate("rot", "mem", &cfg, false) == EVFS_OK, "register");
  reopen(EVFS_RDWR | EVFS_APPEND);
  static unsigned char b[RM_CAP]; for(int i = 0; i < fill; i++) b[i] = rot_byte(i);
  wr = fill; int r = (int)evfs_file_write(f, b, (size_t)fill); mc_op("log of %d bytes (chunks %d x %d)", fill, C, M);
  MC_CHECK(r == fill, "filling the log returns %d", r); rm_append(&rm, b, fill);
}
static void where(const char *what) {
  MC_CHECK(evfs_file_tell(f) == rm.pos, "%s: the position is %d instead of %d", what, (int)evfs_file_tell(f), rm.pos);
  MC_CHECK(evfs_file_size(f) == rm.n, "%s: the size is %d instead of %d", what, (int)evfs_file_size(f), rm.n);
  MC_CHECK(evfs_file_eof(f) == (rm.pos >= rm.n), "%s: end-of-file is %d at %d of %d", what, evfs_file_eof(f), rm.pos, rm.n);
}
static void seek(evfs_off_t off, EvfsSeekDir org) {
  long long t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? rm.pos + (long long)off : rm.n - (long long)off;
  int st = evfs_file_seek(f, off, org); mc_op("seek %ld from %s -> %s", (long)off, org == EVFS_SEEK_TO ? "start" : org == EVFS_SEEK_REL ? "position" : "end", EN(st));
  if(t >= 0 && t <= rm.n) { MC_CHECK(st == EVFS_OK, "seeking to %lld of %d fails: %s", t, rm.n, EN(st)); rm.pos = (int)t; }
  else if(st == EVFS_OK) rm.pos = t < 0 ? 0 : rm.n;
}
/* one operation; nops lists how many there are */
#define NOPS 44
static void op(int o) {
  static unsigned char b[RM_CAP]; int n = rm.n;
  if(o < 5) { int k = (int[]){0, 1, C, C + 1, 3 * C * M}[o]; int w = n - rm.pos < k ? n - rm.pos : k;
    int r = (int)evfs_file_read(f, b, (size_t)k); mc_op("read %d at %d -> %d", k, rm.pos, r);
    MC_CHECK(r == w, "reading %d bytes at %d of %d gives %d", k, rm.pos, n, r);
    MC_CHECK(!memcmp(b, rm.d + rm.pos, (size_t)w), "reading %d bytes at %d of %d gives wrong bytes", k, rm.pos, n); rm.pos += w;
  } else if(o < 12) { int k = (int[]){0, 1, C - 1, C, C + 1, C * M, 2 * C * M + 3}[o - 5]; for(int i = 0; i < k; i++) b[i] = rot_byte(wr + i); wr += k;
    int r = (int)evfs_file_write(f, b, (size_t)k); mc_op("write %d at %d -> %d", k, rm.pos, r);
    MC_CHECK(r == k, "writing %d bytes at %d of %d returns %d", k, rm.pos, n, r);
    if(flags & EVFS_APPEND) rm_append(&rm, b, k); else rm_write(&rm, b, k);
  } else if(o < 19) seek((evfs_off_t[]){0, 1, C, n - 1, n, n + 1, -1}[o - 12], EVFS_SEEK_TO);
  else if(o < 23) seek((evfs_off_t[]){-1, 1, -C, 0x7fffffff}[o - 19], EVFS_SEEK_REL);
  else if(o < 26) seek((evfs_off_t[]){1, n, -1}[o - 23], EVFS_SEEK_REV);
  else if(o < 34) { int t = (int[]){0, 1, C, n - C, n - 1, n + 5, -1, n / 2}[o - 26];
    if(t < 0 && o != 32) mc_prune();
    int st = evfs_file_truncate(f, t); mc_op("truncate %d -> %s", t, EN(st));
    if(t < 0) { MC_CHECK(st < 0, "truncating to a negative size succeeds"); }
    else { MC_CHECK(st == EVFS_OK, "truncating %d bytes to %d fails: %s", n, t, EN(st)); rm_trunc(&rm, t); }
  } else if(o < 41) { evfs_off_t t = (int[]){0, C - 1, C, 2 * C + 1, n, C * M + C, -1}[o - 34];
    evfs_off_t v = t; int st = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &v); mc_op("trim %d -> %d", (int)t, st);
    if(t < 0) MC_CHECK(st <= 0, "trimming a negative size returns %d", st);
    else { int w = rm_trim(&rm, t); MC_CHECK(st == w, "trimming %d of %d bytes returns %d instead of %d", (int)t, n, st, w); }
  } else if(o == 41) { mc_op("sync"); MC_CHECK(evfs_file_sync(f) == EVFS_OK, "sync fails"); }
  else if(o == 42) { mc_op("reopen"); reopen(EVFS_RDWR | EVFS_OPEN_OR_NEW); }
  else if(o == 43) { mc_op("reopen to append"); reopen(EVFS_RDWR | EVFS_APPEND); }
  where("after the operation"); rot_files(&g_m, "/log", C, M);
  long s[] = { rm.n, rm.pos, rm.dropped % (2 * C * M), C * 10 + M }; mc_state(mc_hash(MC_HASH0, s, sizeof s));
}
static void s_random(void) {
  int g = mc_choose(2); C = g ? 33 : 32; M = g ? 3 : 2;
  int fill = (int[]){0, 1, C, C + 3, C * M - 1, C * M, C * M + 1, C * M + C + 5, 2 * C * M, 2 * C * M + C + 1, 3 * C * M - 2}[mc_choose(11)];
  g_m.lazy_size = mc_choose(2); g_m.refuse_open_delete = true;
  start(fill); int app = mc_choose(3);
  if(app) reopen(app == 1 ? EVFS_RDWR : EVFS_RDWR | EVFS_APPEND);
  int depth = mc_tier(2, 3);
  for(int i = 0; i < depth; i++) op(mc_choose(NOPS));
  if(mc_choose(2)) { reopen(EVFS_READ); mc_op("reopened"); }
  rot_same(f, rm.d, rm.n, "at the end");
  MC_CHECK(evfs_file_close(f) == EVFS_OK, "close"); f = NULL; MC_CHECK(g_m.open_files == 0 && g_m.open_dirs == 0, "underlying handles stay open");
}
/* deeper with the operations that change the shape of the log */
static void s_shape(void) {
  int g = mc_choose(2); C = g ? 33 : 32; M = g ? 3 : 2;
  int fill = (int[]){C + 3, C * M, 2 * C * M - 1, 2 * C * M + C + 1}[mc_choose(4)];
  g_m.refuse_open_delete = true; g_m.reverse = mc_choose(2);
  start(fill); if(mc_choose(2)) reopen(EVFS_RDWR);
  static const int sel[] = { 1, 2, 6, 8, 9, 10, 12, 14, 16, 26, 28, 29, 36, 37, 42 };
  int depth = mc_tier(4, 5);
  for(int i = 0; i < depth; i++) op(sel[mc_choose(15)]);
  rot_same(f, rm.d, rm.n, "at the end"); reopen(EVFS_READ); rot_same(f, rm.d, rm.n, "after reopening");
}
/* every position and every length: read, overwrite, truncate */
static void s_positions(void) {
  C = 32; M = 3; int fill = (int[]){C * M, C * M + C / 2, 2 * C * M + 7}[mc_choose(3)]; start(fill); reopen(EVFS_RDWR);
  int what = mc_choose(3), p = mc_choose(rm.n + 1), k = mc_choose(mc_tier(20, 100)); if(!mc_thorough()) k = k * 5 + (k & 1);
  if(what == 2) { int st = evfs_file_truncate(f, p); MC_CHECK(st == EVFS_OK, "truncate"); rm_trunc(&rm, p); mc_op("truncate to %d", p); seek(0, EVFS_SEEK_REV); }
  else seek(p, EVFS_SEEK_TO);
  static unsigned char b[RM_CAP]; int w = rm.n - rm.pos < k ? rm.n - rm.pos : k;
  if(what == 0) { int r = (int)evfs_file_read(f, b, (size_t)k); mc_op("read %d at %d", k, p); MC_CHECK(r == w && !memcmp(b, rm.d + rm.pos, (size_t)w), "reading %d at %d of %d is wrong", k, p, rm.n); rm.pos += w; }
  else { for(int i = 0; i < k; i++) b[i] = rot_byte(9000 + i); mc_op("write %d at %d", k, rm.pos); MC_CHECK((int)evfs_file_write(f, b, (size_t)k) == k, "writing %d at %d of %d fails", k, rm.pos, rm.n); rm_write(&rm, b, k); }
  where("after the operation"); rot_same(f, rm.d, rm.n, "at the end"); reopen(EVFS_READ); rot_same(f, rm.d, rm.n, "after reopening"); rot_files(&g_m, "/log", C, M);
}
/* many chunks (names of two to four digits) and large ones */
#ifdef LARGE
static void s_large(void) {
  static const int geo[][2] = {{32, 11}, {33, 101}, {300, 5}, {4096, 3}, {65541, 2}, {40, 1001}};
  int g = mc_choose(6), cap; C = geo[g][0]; M = geo[g][1]; cap = C * M; g_m.op_limit = 4000000;
  bool big = g >= 4 && !mc_thorough();
  int fill = (int[]){cap + 1, 2 * cap + C + 1, cap - 1, cap, cap + C + 5, 2 * cap - C, 2 * cap - 1, 2 * cap, 4 * cap + 3, 10 * C, 10 * C + 1}[mc_choose(big ? 2 : 11)];
  g_m.lazy_size = mc_choose(g < 5 ? 2 : 1); g_m.refuse_open_delete = true; g_m.reverse = fill & 1;
  start(fill); int app = big ? mc_choose(2) : mc_choose(3);
  if(app) reopen(app == 1 ? EVFS_RDWR : EVFS_RDWR | EVFS_APPEND);
  op(mc_choose(NOPS));
  if(g < mc_tier(1, 3)) { static const int sel[] = { 2, 3, 6, 8, 10, 14, 16, 28, 29, 37, 42 }; op(mc_thorough() ? mc_choose(NOPS) : sel[mc_choose(11)]); }
  rot_same(f, rm.d, rm.n, "at the end"); reopen(EVFS_READ); rot_same(f, rm.d, rm.n, "after reopening");
  MC_CHECK(evfs_file_close(f) == EVFS_OK, "close"); f = NULL; MC_CHECK(g_m.open_files == 0 && g_m.open_dirs == 0, "underlying handles stay open");
}
#endif
#ifndef PROP
#define PROP "P10"
#endif
int main(int argc, char **argv) {
  mc_main_init(argc, argv, PROP); mc_set_cleanup(cl); evfs_init(); mem_init(&g_m, "mem");
#ifdef LARGE
  mc_note("logs of 5, 11, 101 and 1001 chunks and of chunks of up to 65541 bytes: 11 fill levels around the capacity, twice the capacity and ten chunks x 3 open histories x every operation (%s)", mc_thorough() ? "every pair for 11 chunks, 101 chunks and chunks of 300" : "for 11 chunks a second one of 11 shape-changing ones; the two largest with fewer fill levels");
  mc_explore_depth("large logs", s_large, 4); return mc_main_finish();
#endif
  mc_note("every sequence of %d of 44 operations (reads, writes, seeks of all origins, truncations, trims, sync, reopening in both modes) from 11 fill levels x 2 geometries x 3 open histories x immediate and late directory sizes; %d-step sequences of the 15 shape-changing ones", mc_tier(2, 3), mc_tier(4, 5));
  mc_note("every position x %s length for read, overwrite and truncate-then-append", mc_thorough() ? "every" : "every fifth");
  mc_explore_depth("random access", s_random, 5); mc_explore_depth("shape", s_shape, 5); mc_explore("positions", s_positions);
  return mc_main_finish();
}
