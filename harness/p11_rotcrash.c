/* P11: a crash or a fault at any underlying operation of an established rotating log. */
#include "rot.h"
static Mem g_m; static EvfsFile *f; static int C, M;
static unsigned char S[RM_CAP]; static int slen;     /* the stream: everything ever accepted, then the interrupted operation's bytes */
static RM rm;                                        /* state before the current operation */
static void cl(void) { std_cleanup(); mem_free(&g_m); mem_init(&g_m, "mem"); g_m.op_limit = 200000; evfs_register(&g_m.vfs, true); f = NULL; }
static int opn(int fl) { int st = evfs_open_ex("/log", &f, fl, "rot"); if(st != EVFS_OK) f = NULL; return st; }
static void put(int at, int k) { for(int i = 0; i < k; i++) S[at + i] = rot_byte(7919L + at + i); }

/* what the log may hold after the current operation was interrupted: S[s..e) with these bounds */
static int s_lo, s_steps, e_lo, e_hi; static bool empty_ok;
static unsigned char got[RM_CAP]; static int gn;
static void slurp(const char *when) {
  gn = (int)evfs_file_size(f); MC_CHECK(gn >= 0 && gn < RM_CAP, "%s: size %d", when, gn);
  int st = evfs_file_seek(f, 0, EVFS_SEEK_TO); MC_CHECK(st == EVFS_OK, "%s: rewind fails: %s", when, EN(st));
  int r = (int)evfs_file_read(f, got, (size_t)gn + 30);
  MC_CHECK(r == gn, "%s: the log of %d bytes reads %d", when, gn, r);
}
/* matches the recovered contents against the stream and makes it the model */
static void match(const char *when) {
  slurp(when);
  for(int j = 0; j <= s_steps; j++) {
    int s = s_lo + j * C;
    for(int e = e_hi; e >= e_lo; e--) if(e - s == gn && !memcmp(got, S + s, (size_t)gn)) {
      memset(&rm, 0, sizeof rm); rm.C = C; rm.M = M; rm.n = gn; memcpy(rm.d, got, (size_t)gn); rm.dropped = s; slen = e; return; }
  }
  if(gn == 0 && (empty_ok || s_lo == e_lo)) { memset(&rm, 0, sizeof rm); rm.C = C; rm.M = M; rm.dropped = s_lo; slen = s_lo; return; }
  mc_fail("%s: the log holds %d bytes that are not a run starting at %d (+ up to %d chunks of %d) and ending in %d..%d of the stream", when, gn, s_lo, s_steps, C, e_lo, e_hi);
}
/* one operation from the alphabet on the open handle; fills in the bounds, returns its status */
#define NOP 9
static int run(int o) {
  int base = (int)rm.dropped, n = rm.n; s_lo = base; s_steps = 0; e_lo = e_hi = slen; empty_ok = false;
  if(o < 5) { int k = (int[]){1, C - 1, C + 3, C * M, 2 * C * M + 1}[o]; put(slen, k);
    RM t = rm; rm_append(&t, S + slen, k); s_steps = (int)(t.dropped - rm.dropped) / C; e_hi = slen + k;
    int r = (int)evfs_file_write(f, S + slen, (size_t)k); mc_op("append %d -> %d", k, r);
    MC_CHECK(r <= k, "append returns %d", r);
    if(r > 0) e_lo = slen + r;
    return r == k ? 0 : r < 0 ? r : 1;
  }
  if(o < 7) { evfs_off_t v = o == 5 ? C : C * M; RM t = rm; int w = rm_trim(&t, v); s_steps = (w + C - 1) / C; if(w == n) empty_ok = true;
    int r = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &v); mc_op("trim %d -> %d", (int)v, r);
    if(r >= 0) { MC_CHECK(r == w, "trim returns %d instead of %d", r, w); s_lo += w; s_steps = 0; }
    return r < 0 ? r : 0; }
  int t = o == 7 ? (n > C ? n - C : 0) : n / 2;      /* truncate at the end */
  int r = evfs_file_truncate(f, t); mc_op("truncate to %d -> %s", t, EN(r)); e_lo = base + t; if(r == EVFS_OK) e_hi = base + t; if(t == 0) empty_ok = true;
  return r;
}
static void done(void) { /* the operation went through: the model is the exact result */
  RM t = rm; int k = e_hi - slen;
  if(k > 0) { rm_append(&t, S + slen, k); slen = e_hi; } else if(e_hi < slen) { rm_trunc(&t, e_hi - (int)rm.dropped); slen = e_hi; }
  else if(s_lo != (int)rm.dropped) rm_trim(&t, (s_lo - (int)rm.dropped + C - 1) / C * C);
  rm = t; if(!rm.n) { rm.dropped = slen; }
}
static void start(int fill) {
  RotateConfig cfg = { (uint32_t)C, (uint32_t)M };
  MC_CHECK(evfs_register_rotate("rot", "mem", &cfg, false) == EVFS_OK, "register");
  MC_CHECK(opn(EVFS_RDWR | EVFS_APPEND) == EVFS_OK, "open");
  memset(&rm, 0, sizeof rm); rm.C = C; rm.M = M; put(0, fill); slen = fill;
  MC_CHECK((int)evfs_file_write(f, S, (size_t)fill) == fill, "fill"); rm_append(&rm, S, fill);
  mc_op("log of %d bytes (chunks %d x %d)", fill, C, M);
}
static void after(const char *when) { /* further appends stay gap free */
  rot_files(&g_m, "/log", C, M);
  int ks[] = { 1, C, C * M + 5 };
  for(int i = 0; i < 3; i++) {
    put(slen, ks[i]); int r = (int)evfs_file_write(f, S + slen, (size_t)ks[i]);
    MC_CHECK(r == ks[i], "%s: a further append of %d returns %d", when, ks[i], r);
    rm_append(&rm, S + slen, ks[i]); slen += ks[i];
    rot_same(f, rm.d, rm.n, when); rot_files(&g_m, "/log", C, M);
    if(i == 1) { evfs_file_close(f); int st = opn(EVFS_RDWR | EVFS_APPEND); MC_CHECK(st == EVFS_OK, "%s: opening again fails: %s", when, EN(st)); rot_same(f, rm.d, rm.n, when); }
  }
  evfs_file_close(f); f = NULL;
  MC_CHECK(g_m.open_files == 0 && g_m.open_dirs == 0, "%s: underlying handles stay open", when);
}
static int pick(void) {
  int g = mc_choose(2); C = g ? 33 : 32; M = g ? 3 : 2;
  return (int[]){ 1, C, C * M - 1, C * M, C * M + C + 5, 2 * C * M }[mc_choose(6)];
}
/* the machine stops at one underlying change; torn writes */
static void s_crash(void) {
  int fill = pick(); g_m.refuse_open_delete = true; g_m.reverse = mc_choose(2);
  start(fill);
  if(mc_choose(2)) { mc_op("reopen"); evfs_file_close(f); MC_CHECK(opn(EVFS_RDWR | EVFS_APPEND) == EVFS_OK, "reopen"); }
  int pre = mc_choose(mc_tier(3, 4)); for(int i = 0; i < pre; i++) { MC_CHECK(run(mc_choose(NOP)) == 0, "an operation fails without a fault"); done(); }
  int at = 1 + mc_choose(14); int torn = (int[]){ 0, 1, 16, -1 }[mc_choose(4)];
  mem_fault(&g_m, MF_MUTATING, at, EVFS_ERR_IO, true); g_m.crash = true; g_m.torn = torn;
  int st = run(mc_choose(NOP));
  if(!g_m.fired) { if(torn) mc_prune(); mem_clear_fault(&g_m); MC_CHECK(st == 0, "an operation fails without a fault"); at = 0; }
  else mc_op("crash at change %d (%s, %d bytes written)", at, mem_op_name(g_m.fired_op), torn);
  if(torn && g_m.fired_op != MF_WRITE) mc_prune();
  evfs_file_close(f); f = NULL; mem_revive(&g_m);
  st = opn(EVFS_RDWR | EVFS_APPEND); MC_CHECK(st == EVFS_OK, "after the crash the log can't be opened: %s", EN(st));
  match("after the crash"); mc_state(mem_hash(&g_m));
  /* crash again while reopening */
  if(mc_choose(2)) {
    evfs_file_close(f); f = NULL; mem_fault(&g_m, MF_MUTATING, 1, EVFS_ERR_IO, true); g_m.crash = true;
    st = opn(EVFS_RDWR | EVFS_APPEND); if(f) { evfs_file_close(f); f = NULL; } mem_revive(&g_m);
    st = opn(EVFS_RDWR | EVFS_APPEND); MC_CHECK(st == EVFS_OK, "after the second crash the log can't be opened: %s", EN(st)); s_lo = (int)rm.dropped; s_steps = 0; e_lo = e_hi = slen; match("after the second crash");
  }
  after("after the crash");
}
/* one underlying operation fails (once, or all from there on); the handle stays in use or is reopened */
static void s_fault(void) {
  int fill = pick(); g_m.refuse_open_delete = true; bool forever = mc_choose(2);
  start(fill);
  if(mc_choose(2)) { mc_op("reopen"); evfs_file_close(f); MC_CHECK(opn(EVFS_RDWR | EVFS_APPEND) == EVFS_OK, "reopen"); }
  int at = 1 + mc_choose(mc_tier(30, 40)), kind = forever ? 0 : mc_choose(3);
  mem_fault(&g_m, kind ? MF_BIT(MF_WRITE) : MF_FAILABLE | MF_BIT(MF_CLOSE), at, EVFS_ERR_IO, forever);
  if(kind) { g_m.short_io = true; g_m.short_len = kind == 1 ? 0 : 5; }
  int st = run(mc_choose(NOP));
  bool fired = g_m.fired; if(!fired) mc_prune();
  if(g_m.fired_op != MF_CLOSE && g_m.fired_op != MF_SYNC && !kind) MC_CHECK(st != 0, "the failure of %s goes unnoticed", mem_op_name(g_m.fired_op));
  mc_op("fault at operation %d (%s)%s", at, mem_op_name(g_m.fired_op), forever ? ", lasting" : "");
  mem_clear_fault(&g_m);
  if(mc_choose(2)) { mc_op("reopen"); evfs_file_close(f); f = NULL; st = opn(EVFS_RDWR | EVFS_APPEND); MC_CHECK(st == EVFS_OK, "after the fault the log can't be opened: %s", EN(st)); }
  match("after the fault"); mc_state(mem_hash(&g_m));
  after("after the fault");
}
/* more chunks: every wrap position, a crash or fault at every change of one operation */
static void s_wide(void) {
  static const int geo[][2] = {{40, 4}, {32, 6}, {33, 11}}; int g = mc_choose(mc_tier(2, 3)); C = geo[g][0]; M = geo[g][1]; g_m.refuse_open_delete = true; g_m.reverse = g & 1;
  int j = mc_choose(M + 2), fill = C * M + j * C + (int[]){0, 7, C - 1}[mc_choose(mc_tier(2, 3))]; start(fill);
  if(mc_choose(2)) { mc_op("reopen"); evfs_file_close(f); MC_CHECK(opn(EVFS_RDWR | EVFS_APPEND) == EVFS_OK, "reopen"); }
  int o = mc_choose(NOP + 2), how = mc_choose(3), at = 1 + mc_choose(how == 2 ? 10 * M : 7 * M);
  if(how == 2) mem_fault(&g_m, MF_FAILABLE | MF_BIT(MF_CLOSE), at, EVFS_ERR_IO, at & 1);
  else { mem_fault(&g_m, MF_MUTATING, at, EVFS_ERR_IO, true); g_m.crash = true; g_m.torn = how ? -1 : 0; }
  int st;
  if(o < NOP) st = run(o);
  else if(o == NOP) { evfs_off_t v = C * 2; s_lo = (int)rm.dropped; e_lo = e_hi = slen; empty_ok = false; RM t = rm; int w = rm_trim(&t, v); s_steps = w / C; st = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &v); mc_op("trim %d -> %d", (int)v, st); if(st >= 0) { MC_CHECK(st == w, "trim returns %d instead of %d", st, w); s_lo += w; s_steps = 0; st = 0; } }
  else { s_lo = (int)rm.dropped; s_steps = 0; int t = C + 3; e_hi = slen; e_lo = s_lo + t; empty_ok = false; st = evfs_file_truncate(f, t); mc_op("truncate to %d -> %s", t, EN(st)); if(st == EVFS_OK) e_hi = e_lo; }
  if(!g_m.fired) mc_prune();
  if(how == 1 && g_m.fired_op != MF_WRITE) mc_prune();
  if(how == 2 && g_m.fired_op != MF_CLOSE && g_m.fired_op != MF_SYNC) MC_CHECK(st != 0, "the failure of %s goes unnoticed", mem_op_name(g_m.fired_op));
  mc_op("%s at %d (%s)", how == 2 ? "fault" : "crash", at, mem_op_name(g_m.fired_op));
  if(how < 2) { evfs_file_close(f); f = NULL; mem_revive(&g_m); st = opn(EVFS_RDWR | EVFS_APPEND); MC_CHECK(st == EVFS_OK, "afterwards the log can't be opened: %s", EN(st)); }
  else { mem_clear_fault(&g_m); if((at >> 1) & 1) { evfs_file_close(f); f = NULL; st = opn(EVFS_RDWR | EVFS_APPEND); MC_CHECK(st == EVFS_OK, "afterwards the log can't be opened: %s", EN(st)); } }
  match("afterwards"); mc_state(mem_hash(&g_m)); after("afterwards");
}
/* a fault while opening or reading */
static void s_open(void) {
  int fill = pick(); g_m.refuse_open_delete = true; start(fill); evfs_file_close(f); f = NULL;
  int at = 1 + mc_choose(30); bool forever = mc_choose(2);
  mem_fault(&g_m, MF_FAILABLE, at, EVFS_ERR_IO, forever);
  int st = opn(EVFS_RDWR | EVFS_APPEND); mc_op("open with a fault at %d -> %s", at, EN(st));
  if(g_m.fired) MC_CHECK(st != EVFS_OK, "opening succeeds although %s failed", mem_op_name(g_m.fired_op));
  if(st == EVFS_OK) {
    int r = (int)evfs_file_read(f, got, (size_t)rm.n + 10); mc_op("read -> %d", r);
    if(r >= 0) MC_CHECK((r == rm.n || g_m.fired) && r <= rm.n && !memcmp(got, rm.d, (size_t)r), "reading with a fault gives %d of %d or wrong bytes", r, rm.n);
    else MC_CHECK(g_m.fired, "reading fails without a fault");
    if(r == rm.n && g_m.fired) MC_CHECK(true, " ");
    mem_clear_fault(&g_m); MC_CHECK((int)evfs_file_tell(f) == (r > 0 ? r : 0), "after reading %d bytes the position is %d", r, (int)evfs_file_tell(f));
    int q = (int)evfs_file_read(f, got, (size_t)rm.n + 10), w = rm.n - (r > 0 ? r : 0); MC_CHECK(q == w && !memcmp(got, rm.d + (r > 0 ? r : 0), (size_t)w), "reading on after a fault gives %d instead of %d", q, w);
    evfs_file_close(f);
  }
  mem_clear_fault(&g_m); MC_CHECK(g_m.open_files == 0 && g_m.open_dirs == 0, "a failed opening leaves handles open");
  MC_CHECK(opn(EVFS_RDWR | EVFS_APPEND) == EVFS_OK, "opening after the fault"); rot_same(f, rm.d, rm.n, "after the fault"); after("after the fault");
}
/* closing a chunk fails and loses what was added to it: somebody has to be told */
static void s_close(void) {
  int fill = pick(); start(fill); evfs_file_close(f); MC_CHECK(opn(EVFS_RDWR | EVFS_APPEND) == EVFS_OK, "reopen");
  g_m.close_loses = true; mem_fault(&g_m, MF_BIT(MF_CLOSE), 1 + mc_choose(8), EVFS_ERR_IO, mc_choose(2));
  bool told = false; int n = 1 + mc_choose(mc_tier(2, 3));
  for(int i = 0; i < n; i++) {
    int o = mc_choose(8);
    if(o == 7) { int st = evfs_file_sync(f); mc_op("sync -> %s", EN(st)); if(st != EVFS_OK) told = true; continue; }
    int st = run(o < 5 ? o : o + 2); if(st != 0) { told = true; break; } done();
  }
  int st = evfs_file_close(f); f = NULL; mc_op("close -> %s", EN(st)); if(st != EVFS_OK) told = true;
  if(!g_m.fired) { MC_CHECK(!told, "an error without a fault"); mc_prune(); }
  mc_state(mem_hash(&g_m)); mem_clear_fault(&g_m); g_m.close_loses = false;
  MC_CHECK(g_m.open_files == 0 && g_m.open_dirs == 0, "underlying handles stay open");
  st = opn(EVFS_RDWR | EVFS_APPEND);
  if(!told) {
    MC_CHECK(st == EVFS_OK, "everything succeeded but the log can't be opened: %s", EN(st)); rot_same(f, rm.d, rm.n, "everything succeeded although closing a chunk failed"); }
  if(f) { (void)evfs_file_read(f, got, sizeof got - 1); evfs_file_close(f); f = NULL; }
}
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P11"); mc_set_cleanup(cl); evfs_init(); mem_init(&g_m, "mem");
  mc_note("crash at every underlying change (create, write, delete, truncate) of every operation (5 append sizes, 2 trims, 2 truncations) after up to %d others, from 6 fill levels x 2 geometries x 2 directory orders x 4 torn-write lengths, optionally a second crash while reopening; then read back and %d further appends", mc_tier(2, 3), 3);
  mc_note("a fault (once or lasting) at every underlying operation, short and empty writes, on the same handle or after reopening; faults while opening and reading");
  mc_note("a failing close of a chunk file (each of the first 8; once or lasting) that loses what was added since it was opened or synced, under up to %d operations: whoever appended is told by the operation, a sync or the close", mc_tier(2, 3));
  mc_note("storage model: underlying operations take effect in order; only the write in progress at the crash can be torn");
  mc_explore_depth("crash", s_crash, 6); mc_explore_depth("faults", s_fault, 5); mc_note("logs of 4 and 6 (thorough: 11) chunks: every wrap position x every operation x a crash (2 torn lengths) or fault at every point"); mc_explore_depth("more chunks", s_wide, 4); mc_explore("opening", s_open); mc_explore("failing closes", s_close);
  return mc_main_finish();
}
