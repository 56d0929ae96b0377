/* P09: a rotating log reads back as a gap-free suffix of what was appended. */
#include "rot.h"
static Mem g_m; static RM rm; static long wr;
static int C, M; static bool each;
static EvfsFile *f;
static const int geo[][2] = {{32, 2}, {33, 3}, {40, 4}};

static void reopen(int flags) {
  if(f) MC_CHECK(evfs_file_close(f) == EVFS_OK, "closing the log fails");
  f = NULL;
  int st = evfs_open_ex("/log", &f, flags, "rot");
  MC_CHECK(st == EVFS_OK, "opening the log fails: %s", EN(st));
}
static void append(int k) {
  static unsigned char b[RM_CAP]; for(int i = 0; i < k; i++) b[i] = rot_byte(wr + i);
  wr += k;
  int r = (int)evfs_file_write(f, b, (size_t)k); mc_op("append %d -> %d", k, r);
  MC_CHECK(r == k, "appending %d bytes returns %d", k, r);
  rm_append(&rm, b, k);
}
static void check(const char *when) {
  rot_files(&g_m, "/log", C, M); rot_same(f, rm.d, rm.n, when); rm.pos = rm.n;
  MC_CHECK(evfs_file_eof(f), "%s: not at the end after reading everything", when);
}
static void s_append(void) {
  int g = mc_choose(mc_thorough() ? 3 : 2); C = geo[g][0]; M = geo[g][1];
  int order = mc_choose(3); each = mc_choose(2);
  g_m.lazy_size = mc_choose(2); g_m.reverse = order == 1; g_m.shuffle = order == 2 ? 3 : 0; g_m.dots = order != 0; g_m.refuse_open_delete = true;
  memset(&rm, 0, sizeof rm); rm.C = C; rm.M = M; wr = 0; f = NULL;
  RotateConfig cfg = { (uint32_t)C, (uint32_t)M };
  MC_CHECK(evfs_register_rotate("rot", "mem", &cfg, false) == EVFS_OK, "register");
  mc_op("chunks of %d, at most %d; order %d, lazy sizes %d, %s", C, M, order, g_m.lazy_size, each ? "read after each step" : "read at the end");
  mc_alloc_track(true); int live = mc_alloc_live();
  reopen(EVFS_RDWR | EVFS_APPEND);
  int depth = mc_tier(4, 5) + (g == 0);
  for(int i = 0; i < depth; i++) {
    int op = mc_choose(11);
    switch(op) {
      case 0: append(1); break; case 1: append(C - 1); break; case 2: append(C); break; case 3: append(C + 1); break;
      case 4: append(C * M - 1); break; case 5: append(C * M); break; case 6: append(2 * C * M + C + 5); break; case 7: append(0); break;
      case 8: mc_op("sync"); MC_CHECK(evfs_file_sync(f) == EVFS_OK, "sync fails"); break;
      case 9: mc_op("reopen"); reopen(EVFS_RDWR | EVFS_APPEND); break;
      case 10: goto out;
    }
    MC_CHECK(evfs_file_size(f) == rm.n, "the log reports %d bytes instead of %d", (int)evfs_file_size(f), rm.n);
    if(each) check("after an append");
    struct { int n, g; long d; } s = { rm.n, g, rm.dropped % (2 * C * M) }; mc_state(mc_hash(MC_HASH0, &s, sizeof s));
  }
out:
  if(!each) check("at the end");
  MC_CHECK(rm.n >= (wr < (M - 1) * C ? wr : (M - 1) * C), "harness model");
  reopen(EVFS_READ); check("after reopening");
  MC_CHECK(evfs_file_close(f) == EVFS_OK, "close"); f = NULL;
  MC_CHECK(g_m.open_files == 0 && g_m.open_dirs == 0 && mc_alloc_live() == live, "handles or memory leak (%d files, %d directories, %d allocations)", g_m.open_files, g_m.open_dirs, mc_alloc_live() - live);
}
/* long runs of one record size: every record size up to beyond the capacity, reopening every r records */
static void s_records(void) {
  int g = mc_choose(mc_thorough() ? 3 : 2); C = geo[g][0]; M = geo[g][1];
  int rec = 1 + mc_choose(C * M + 3), every = (int[]){0, 1, 3, 7}[mc_choose(4)], reader = mc_choose(2);
  g_m.lazy_size = reader; g_m.refuse_open_delete = true;
  memset(&rm, 0, sizeof rm); rm.C = C; rm.M = M; wr = 0; f = NULL;
  RotateConfig cfg = { (uint32_t)C, (uint32_t)M };
  evfs_register_rotate("rot", "mem", &cfg, false);
  g_m.op_limit = 4000000;
  mc_op("records of %d bytes, chunks of %d, at most %d, reopen every %d", rec, C, M, every);
  reopen(EVFS_RDWR | EVFS_APPEND);
  for(int i = 1; wr < 5 * C * M; i++) {
    append(rec);
    if(every && i % every == 0) reopen(EVFS_RDWR | EVFS_APPEND);
    if(reader || wr >= 5 * C * M) check("after a record");
    mc_state(mc_hash(MC_HASH0 + (uint64_t)g, &rm.n, sizeof rm.n) + (uint64_t)(rm.dropped % (2 * C * M)));
  }
  reopen(EVFS_READ); check("after reopening");
}
/* through other layers: a trace below and a jail above */
static int rep_null(const char *s, void *c) { (void)s; (void)c; return 0; }
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
static void s_stack(void) {
  C = 32; M = 3; int how = mc_choose(3);
  memset(&rm, 0, sizeof rm); rm.C = C; rm.M = M; wr = 0; f = NULL; RotateConfig cfg = { 32, 3 };
  g_m.refuse_open_delete = true; mem_mkdir(&g_m, "/j");
  const char *under = "mem";
  if(how == 1) { evfs_register_trace("t", "mem", rep_null, NULL, false); under = "t"; }
  if(how == 2) { evfs_register_jail("j", "mem", "/j", false); under = "j"; }
  evfs_register_rotate("rot", under, &cfg, false);
  int depth = mc_tier(3, 4);
  reopen(EVFS_RDWR | EVFS_APPEND);
  for(int i = 0; i < depth; i++) {
    int op = mc_choose(6);
    if(op == 5) { mc_op("reopen"); reopen(EVFS_RDWR | EVFS_APPEND); } else append((int[]){1, C - 1, C + 1, C * M, C * M * 2 + 7}[op]);
    rot_same(f, rm.d, rm.n, "after a step"); rot_files(&g_m, how == 2 ? "/j/log" : "/log", C, M);
  }
  reopen(EVFS_READ); rot_same(f, rm.d, rm.n, "after reopening");
}
static void cl(void) { std_cleanup(); mem_free(&g_m); mem_init(&g_m, "mem"); evfs_register(&g_m.vfs, true); f = NULL; }
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P09");
  mc_set_cleanup(cl); evfs_init(); mem_init(&g_m, "mem");
  mc_note("every sequence of %d appends (0, 1, around a chunk, around the capacity, several capacities), syncs and reopens x geometries 32x2, 33x3%s x 3 directory orders x immediate and late directory sizes x read back after each step or only at the end", mc_tier(4, 5), mc_thorough() ? ", 40x4" : "");
  mc_note("every record size from 1 to the capacity + 3, for five capacities worth of records, with 4 reopening patterns");
  mc_note("the base file system is an in-memory one that refuses to delete open files");
  mc_explore_depth("appends", s_append, 6);
  mc_explore("records", s_records);
  mc_explore("stacked", s_stack);
  return mc_main_finish();
}
