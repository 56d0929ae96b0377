/* P12: rotating logs among ordinary files: flags, configuration, delete, rename, listing, space. */
#include "rot.h"
static Mem A, B;      /* A below the shim, B the twin for ordinary files */
static void cl(void) {
  std_cleanup();
  mem_free(&A); mem_init(&A, "mem"); A.op_limit = 200000; A.refuse_open_delete = true; evfs_register(&A.vfs, true);
  mem_free(&B); mem_init(&B, "twin"); B.refuse_open_delete = true; evfs_register(&B.vfs, false);
}
static void both_dir(const char *p) { mem_mkdir(&A, p); mem_mkdir(&B, p); }
static void both_put(const char *p, const char *d) { mem_put(&A, p, d, (int)strlen(d)); mem_put(&B, p, d, (int)strlen(d)); }
static unsigned char pat[RM_CAP];

/* ---- every combination of open flags on everything that can be at a path ---- */
static void s_flags(void) {
  int flags = mc_choose(64), what = mc_choose(5), relative = mc_choose(2);
  RotateConfig cfg = { 32, 3 }; evfs_register_rotate("rot", "mem", &cfg, false);
  both_put("/plain", "plain text"); both_dir("/dir"); both_dir("/dir/sub");
  const char *names[] = { "/new", "/log", "/plain", "/dir", "/none/x" }; char p[32]; snprintf(p, sizeof p, "%s", names[what]);
  if(relative) { memmove(p, p + 1, strlen(p)); }
  EvfsFile *f = NULL; int n = 70;
  if(what == 1) { MC_CHECK(evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_APPEND, "rot") == EVFS_OK && (int)evfs_file_write(f, pat, 70) == 70, "making the log fails"); evfs_file_close(f); }
  mc_alloc_track(true); int live = mc_alloc_live(); f = NULL;
  int st = evfs_open_ex(p, &f, flags, "rot"); mc_op("open %s with flags %x -> %s", p, flags, EN(st));
  MC_CHECK((st == EVFS_OK) == (f != NULL), "handle and status disagree");
  bool creates = flags & (EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND);
  bool vague = !creates && (flags & EVFS_RDWR) == EVFS_WRITE;      /* back ends differ on write-only without further flags */
  if(what == 2 || what == 3) { /* ordinary: as on the twin */
    EvfsFile *g = NULL; int t = evfs_vfs_open(&B.vfs, p, &g, flags); MC_CHECK(st == t, "opening an existing %s through the shim returns %s, directly %s", what == 2 ? "file" : "directory", EN(st), EN(t));
    if(f) {
      char x[32], y[32]; MC_CHECK(evfs_file_read(f, x, 4) == evfs_file_read(g, y, 4), "reading a plain file differs"); MC_CHECK(evfs_file_write(f, "abc", 3) == evfs_file_write(g, "abc", 3), "writing a plain file differs");
      MC_CHECK(evfs_file_truncate(f, 5) == evfs_file_truncate(g, 5) && evfs_file_size(f) == evfs_file_size(g) && evfs_file_tell(f) == evfs_file_tell(g) && evfs_file_eof(f) == evfs_file_eof(g) && evfs_file_sync(f) == evfs_file_sync(g), "a plain file behaves differently");
      MC_CHECK(evfs_file_seek(f, 2, EVFS_SEEK_REV) == evfs_file_seek(g, 2, EVFS_SEEK_REV) && evfs_file_tell(f) == evfs_file_tell(g), "seeking in a plain file differs");
      for(unsigned i = 0; i < sizeof MEM_USER_CMDS / sizeof *MEM_USER_CMDS; i++) { int c = MEM_USER_CMDS[i], u = 1, v = 1; MC_CHECK(evfs_file_ctrl(f, c, &u) == evfs_file_ctrl(g, c, &v) && u == v, "control of a plain file differs"); u = v = 1; MC_CHECK(evfs_vfs_ctrl_ex(c, &u, "rot") == B.vfs.m_vfs_ctrl(&B.vfs, c, &v) && u == v, "control of the file system differs"); }
      MC_CHECK(evfs_file_close(f) == EVFS_OK && evfs_file_close(g) == EVFS_OK, "close");
    }
    char why[128]; MC_CHECK(mem_same(&A, &B, why, sizeof why), "plain file: %s", why);
  } else if(what == 4) {
    MC_CHECK(st != EVFS_OK, "opening a log in a missing directory succeeds"); MC_CHECK(!mem_find(&A, "/none"), "a refused opening creates something");
  } else {
    bool exists = what == 1, want = exists ? !(flags & EVFS_NO_EXIST) : creates;
    if(!vague) MC_CHECK((st == EVFS_OK) == want, "opening %s log with flags %x returns %s", exists ? "an existing" : "a missing", flags, EN(st));
    if(exists && (flags & EVFS_NO_EXIST)) MC_CHECK(st == EVFS_ERR_EXISTS, "opening an existing log as a new one returns %s", EN(st));
    if(!exists && !creates && !vague) MC_CHECK(st == EVFS_ERR_NO_FILE, "opening a missing log returns %s", EN(st));
    if(!exists && st != EVFS_OK) MC_CHECK(!mem_find(&A, "/new"), "a refused opening creates something");
    int have = exists && !((flags & EVFS_OVERWRITE) && st == EVFS_OK) ? n : 0;
    if(f) {
      MC_CHECK(evfs_file_size(f) == have, "after opening with flags %x the log has %d bytes instead of %d", flags, (int)evfs_file_size(f), have);
      unsigned char b[200]; if(flags & EVFS_READ) { int r = (int)evfs_file_read(f, b, 200); MC_CHECK(r == have && !memcmp(b, pat, (size_t)have), "reading gives %d bytes of %d", r, have); }
      evfs_file_seek(f, 0, EVFS_SEEK_TO);
      int r = (int)evfs_file_write(f, pat + 500, 5);
      if(flags == EVFS_READ) MC_CHECK(r < 0, "a log opened for reading can be written");
      if(flags & EVFS_WRITE) {
        MC_CHECK(r == 5, "writing returns %d", r);
        unsigned char w[100]; memcpy(w, pat, (size_t)have); if(flags & EVFS_APPEND) { memcpy(w + have, pat + 500, 5); have += 5; } else { memcpy(w, pat + 500, 5); if(have < 5) have = 5; }
        MC_CHECK(evfs_file_close(f) == EVFS_OK, "close"); f = NULL; MC_CHECK(evfs_open_ex(names[what], &f, EVFS_READ, "rot") == EVFS_OK, "reopen"); rot_same(f, w, have, "after writing");
      } else if(flags == EVFS_READ || flags == (EVFS_READ | EVFS_OPEN_OR_NEW)) { MC_CHECK(evfs_file_truncate(f, 1) < 0 || have <= 1, "a log opened for reading can be truncated"); MC_CHECK(evfs_file_size(f) == have, "a log opened for reading changes"); }
      evfs_file_close(f);
    } else if(exists) { MC_CHECK(evfs_open_ex("/log", &f, EVFS_READ, "rot") == EVFS_OK, "open"); rot_same(f, pat, have, "after a refused opening"); evfs_file_close(f); }
  }
  MC_CHECK(A.open_files == 0 && mc_alloc_live() == live, "something is left open or allocated");
}

/* ---- configurations ---- */
static void s_config(void) {
  static const uint32_t cs[] = { 0, 1, 31, 32, 33, 64, 0x7fffffffu, 0xffffffffu, 4096 }, mc[] = { 0, 1, 2, 3, 99999, 100000, 0xffffffffu, 0x80000000u };
  uint32_t c = cs[mc_choose(9)], m = mc[mc_choose(8)]; RotateConfig cfg = { c, m }; int how = mc_choose(2), st;
  bool bad = c < 32 || m < 2 || m > 99999; bool big = (uint64_t)c * m > 0x7fffffff;
  if(!how) { st = evfs_register_rotate("rot", "mem", &cfg, false); MC_CHECK((evfs_find_vfs("rot") != NULL) == (st == EVFS_OK), "registration status and registry disagree"); }
  else { RotateConfig ok = { 32, 3 }; evfs_register_rotate("rot", "mem", &ok, false); st = evfs_vfs_ctrl_ex(EVFS_CMD_SET_ROTATE_CFG, &cfg, "rot"); }
  mc_op("configure %u x %u -> %s", c, m, EN(st));
  if(bad) MC_CHECK(st < 0, "an invalid configuration (%u x %u) is accepted", c, m);
  else if(!big) MC_CHECK(st == EVFS_OK, "a valid configuration (%u x %u) is refused: %s", c, m, EN(st));
  if(evfs_find_vfs("rot")) { /* what is used afterwards */
    EvfsFile *f; MC_CHECK(evfs_open_ex("/l", &f, EVFS_RDWR | EVFS_APPEND, "rot") == EVFS_OK, "open");
    for(int i = 0; i < 4; i++) MC_CHECK((int)evfs_file_write(f, pat + i * 40, 40) == 40, "write");
    int C = 32, M = 3; if(st == EVFS_OK) { C = c > 4096 ? 5000 : (int)c; M = m > 1000 ? 1000 : (int)m; }
    RM r; memset(&r, 0, sizeof r); r.C = C; r.M = M; rm_append(&r, pat, 160); rot_same(f, r.d, r.n, "configured log"); evfs_file_close(f);
  }
}

/* ---- damaged or foreign container contents ---- */
static void s_foreign(void) {
  RotateConfig cfg = { 32, 3 }; evfs_register_rotate("rot", "mem", &cfg, false);
  EvfsFile *f; MC_CHECK(evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_APPEND, "rot") == EVFS_OK && (int)evfs_file_write(f, pat, 70) == 70, "making the log fails"); evfs_file_close(f);
  int kind = mc_choose(3);
  if(kind == 0) { /* one extra file with a hostile name */
    static const char *nm[] = { "c00000_2.cnk", "c00000_9.cnk", "c00000_/.cnk", "c99999_0.cnk", "c-0001_0.cnk", "cxxxxx_0.cnk", "c.cnk", "c00001_0.cnk.cnk", "c000000_0.cnk", "cNNNNN_A.cnk", "c     _0.cnk", "c00003_0.cnk", "c00003_1.cnk", "notes.txt", ".hidden", "c12345_00cnk" };
    const char *n = nm[mc_choose(16)]; char p[64]; snprintf(p, sizeof p, "/log/%s", n); if(strchr(n, '/')) mc_prune();
    mem_put(&A, p, "?????", 5); mc_op("foreign file %s", n);
    int st = evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_APPEND, "rot");
    MC_CHECK(st == EVFS_OK, "a foreign file keeps the log from opening: %s", EN(st)); rot_same(f, pat, 70, "with a foreign file"); evfs_file_close(f);
    st = evfs_delete_ex("/log", "rot"); MC_CHECK(st == EVFS_OK && !mem_find(&A, "/log") && !mem_count_prefix(&A, "/log/"), "deleting the log returns %s and leaves %d files", EN(st), mem_count_prefix(&A, "/log/"));
  } else { /* geometry file: every field over hostile values, every length */
    MemNode *g = mem_find(&A, "/log/geom.dat"); MC_CHECK(g && g->size == 16, "geometry file of %d bytes", g ? g->size : -1);
    if(kind == 1) { int len = mc_choose(16); g->size = len; mc_op("geometry file cut to %d bytes", len); }
    else { int at = (int[]){ 0, 4, 8, 12 }[mc_choose(4)]; uint32_t v = (uint32_t[]){ 0, 1, 0xffffffffu, 0x80000000u, 31, 100000, 0x10000000u }[mc_choose(7)]; memcpy(g->data + at, &v, 4); mc_op("geometry field at %d = %x", at, v); }
    f = NULL; int st = evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_APPEND, "rot"); mc_op("open -> %s", EN(st));
    if(st == EVFS_OK) { unsigned char b[200]; evfs_file_read(f, b, 200); evfs_file_write(f, pat, 100); evfs_off_t t = 40; evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &t); evfs_file_truncate(f, 3); evfs_file_seek(f, 0, EVFS_SEEK_TO); evfs_file_read(f, b, 200); evfs_file_close(f); }
    MC_CHECK(A.open_files == 0 && A.open_dirs == 0, "something is left open");
    MC_CHECK(kind != 1 || st != EVFS_OK, "a log with a short geometry file opens");
    st = evfs_delete_ex("/log", "rot"); MC_CHECK(st == EVFS_OK, "a damaged log can't be deleted: %s", EN(st));
  }
}

/* ---- path lengths around the limit ---- */
static void s_long(void) {
  RotateConfig cfg = { 32, 3 }; evfs_register_rotate("rot", "mem", &cfg, false);
  int len = 225 + mc_choose(40), deep = mc_choose(2), rel = mc_choose(2); char p[400]; memset(p, 'n', sizeof p); p[0] = '/'; p[len] = 0;
  if(deep) { p[100] = '/'; char t[400]; memcpy(t, p, 100); t[100] = 0; mem_mkdir(&A, t); if(len < 102) mc_prune(); }
  const char *q = p; if(rel) { if(deep) { char t[400]; memcpy(t, p, 100); t[100] = 0; strcpy(A.cwd, t); q = p + 101; } else q = p + 1; }
  EvfsFile *f = NULL; uint64_t before = mem_hash(&A); mc_op("log path of %d characters%s", len, rel ? ", relative" : "");
  int st = evfs_open_ex(q, &f, EVFS_RDWR | EVFS_APPEND, "rot");
  if(st != EVFS_OK) { MC_CHECK(mem_hash(&A) == before, "a log whose path is too long (%d) is refused (%s) but leaves something behind", len, EN(st)); MC_CHECK(len + 14 > EVFS_MAX_PATH - 14, "a log path of %d characters is refused: %s", len, EN(st)); return; }
  RM r; memset(&r, 0, sizeof r); r.C = 32; r.M = 3;
  for(int i = 0; i < 3; i++) { int k = (int)evfs_file_write(f, pat + i * 50, 50); MC_CHECK(k == 50, "writing a log with a path of %d characters returns %d", len, k); rm_append(&r, pat + i * 50, 50); rot_same(f, r.d, r.n, "long path"); rot_files(&A, p, 32, 3); }
  evfs_file_close(f); MC_CHECK(evfs_open_ex(q, &f, EVFS_READ, "rot") == EVFS_OK, "reopen"); rot_same(f, r.d, r.n, "long path, reopened"); evfs_file_close(f);
  st = evfs_delete_ex(q, "rot"); MC_CHECK(st == EVFS_OK && mem_hash(&A) == before, "deleting a log with a path of %d characters: %s", len, EN(st));
}

/* ---- management sequences over two log names, a plain file and directories ---- */
typedef struct { bool used; RM r; } L;
static L lg[3]; static const char *ln[] = { "/la", "/d/lb", "/lc" };
static EvfsFile *h; static int hi;
static void s_manage(void) {
  RotateConfig cfg = { 32, 2 }; evfs_register_rotate("rot", "mem", &cfg, false); uint32_t cc = 32, cm = 2;
  both_dir("/d"); both_dir("/e"); both_put("/p", "plain"); memset(lg, 0, sizeof lg); h = NULL; hi = -1; long wr = 0; A.dots = B.dots = mc_thorough() ? mc_choose(2) : 1;
  mc_alloc_track(true); int live = mc_alloc_live();
  int depth = mc_tier(4, 5);
  for(int i = 0; i < depth; i++) {
    switch(mc_choose(13)) {
      case 0: case 1: { /* append to a log, creating it when missing */
        int k = mc_choose(2); if(h && hi == k) mc_prune(); int n = (int[]){ 5, 150, 33 }[mc_choose(mc_tier(2, 3))]; EvfsFile *f; static const char *rel[2][2] = { { "la", "d/../d/lb" }, { "../la", "./lb" } };
        int st = evfs_open_ex(mc_choose(2) ? ln[k] : rel[strcmp(A.cwd, "/") != 0][k], &f, EVFS_RDWR | EVFS_APPEND, "rot");
        MC_CHECK(st == EVFS_OK, "opening log %s returns %s", ln[k], EN(st));
        if(!lg[k].used) { memset(&lg[k], 0, sizeof(L)); lg[k].used = true; lg[k].r.C = (int)cc; lg[k].r.M = (int)cm; }
        for(int j = 0; j < n; j++) pat[j] = rot_byte(wr + j); wr += n;
        MC_CHECK((int)evfs_file_write(f, pat, (size_t)n) == n, "append"); rm_append(&lg[k].r, pat, n); MC_CHECK(evfs_file_close(f) == EVFS_OK, "close"); mc_op("append %d to %s", n, ln[k]); break; }
      case 2: { int k = mc_choose(2); if(h && hi == k) mc_prune(); int st = evfs_delete_ex(ln[k], "rot"); mc_op("delete %s -> %s", ln[k], EN(st));
        MC_CHECK((st == EVFS_OK) == lg[k].used, "deleting %s log returns %s", lg[k].used ? "an existing" : "a missing", EN(st)); lg[k].used = false;
        MC_CHECK(!mem_count_prefix(&A, ln[k]), "deleting a log leaves %d of its files", mem_count_prefix(&A, ln[k])); break; }
      case 3: { int k = mc_choose(mc_tier(2, 3)), t = mc_choose(3); if(k == t || h || (!mc_thorough() && k == 1 && t == 2)) mc_prune(); int st = evfs_rename_ex(ln[k], ln[t], "rot"); mc_op("rename %s to %s -> %s", ln[k], ln[t], EN(st));
        MC_CHECK((st == EVFS_OK) == (lg[k].used && !lg[t].used), "renaming a log returns %s", EN(st)); if(st == EVFS_OK) { lg[t] = lg[k]; lg[k].used = false; } break; }
      case 4: { RotateConfig c2 = (mc_thorough() ? mc_choose(2) : 1) ? (RotateConfig){ 33, 3 } : (RotateConfig){ 64, 2 }; int st = evfs_vfs_ctrl_ex(EVFS_CMD_SET_ROTATE_CFG, &c2, "rot"); mc_op("reconfigure to %u x %u", c2.chunk_size, c2.max_chunks); MC_CHECK(st == EVFS_OK, "reconfiguring returns %s", EN(st)); cc = c2.chunk_size; cm = c2.max_chunks; break; }
      case 5: { int k = mc_thorough() ? mc_choose(2) : 0; EvfsDir *d = NULL; int st = evfs_open_dir_ex(ln[k], &d, "rot"); mc_op("open_dir %s -> %s", ln[k], EN(st)); MC_CHECK(st != EVFS_OK && !d, "a %s can be listed as a directory", lg[k].used ? "log" : "missing log"); break; }
      case 6: { /* ordinary operations, as on the twin */
        static const char *op[] = { "make /m", "delete /m", "rename /p", "write /p", "delete /p", "delete /e", "stat", "rename back" }; int o = mc_thorough() ? mc_choose(8) : (int[]){ 0, 2, 3, 5 }[mc_choose(4)]; int s = 0, t = 0; Evfs *R = evfs_find_vfs("rot");
        switch(o) {
          case 0: s = evfs_make_dir_ex("/m", "rot"); t = B.vfs.m_make_dir(&B.vfs, "/m"); break;
          case 1: s = evfs_delete_ex("/m", "rot"); t = B.vfs.m_delete(&B.vfs, "/m"); break;
          case 2: s = evfs_rename_ex("/p", "/q", "rot"); t = B.vfs.m_rename(&B.vfs, "/p", "/q"); break;
          case 7: s = evfs_rename_ex("/q", "/d/p", "rot"); t = B.vfs.m_rename(&B.vfs, "/q", "/d/p"); break;
          case 3: { if(!mem_find(&A, "/p")) mc_prune(); EvfsFile *f, *g; s = evfs_open_ex("/p", &f, EVFS_RDWR | EVFS_APPEND, "rot"); t = evfs_vfs_open(&B.vfs, "/p", &g, EVFS_RDWR | EVFS_APPEND); if(s == 0 && t == 0) { evfs_file_write(f, "more", 4); evfs_file_write(g, "more", 4); evfs_file_close(f); evfs_file_close(g); } break; }
          case 4: s = evfs_delete_ex("/p", "rot"); t = B.vfs.m_delete(&B.vfs, "/p"); break;
          case 5: s = evfs_delete_ex("/e", "rot"); t = B.vfs.m_delete(&B.vfs, "/e"); break;
          case 6: { EvfsInfo x, y; s = evfs_stat_ex("/p", &x, "rot"); t = B.vfs.m_stat(&B.vfs, "/p", &y); if(s == 0 && t == 0) MC_CHECK(x.size == y.size && x.type == y.type, "stat differs"); break; }
        }
        (void)R; mc_op("%s -> %s", op[o], EN(s)); MC_CHECK(s == t, "%s returns %s through the shim, directly %s", op[o], EN(s), EN(t)); break; }
      case 7: { if(h || !lg[0].used) mc_prune(); hi = 0; const char *p = strcmp(A.cwd, "/") ? "../la" : "la"; int st = evfs_open_ex(p, &h, EVFS_RDWR | EVFS_APPEND, "rot"); mc_op("open %s and keep it -> %s", p, EN(st)); MC_CHECK(st == EVFS_OK, "opening a log by a relative path returns %s", EN(st)); break; }
      case 8: { if(!h) mc_prune(); int n = 40; for(int j = 0; j < n; j++) pat[j] = rot_byte(wr + j); wr += n; MC_CHECK((int)evfs_file_write(h, pat, (size_t)n) == n, "appending to a log kept open fails"); rm_append(&lg[0].r, pat, n); mc_op("append %d to the open log", n); break; }
      case 9: { if(!h) mc_prune(); evfs_file_close(h); h = NULL; mc_op("close"); break; }
      case 10: { const char *t = strcmp(A.cwd, "/") ? "/" : "d"; int st = evfs_set_cur_dir_ex(t, "rot"); strcpy(B.cwd, strcmp(A.cwd, "/d") ? "/" : "/d"); mc_op("set_cur_dir %s", t); MC_CHECK(st == EVFS_OK, "set_cur_dir"); char b[64]; StringRange r = RANGE_FROM_ARRAY(b); MC_CHECK(evfs_get_cur_dir_ex(&r, "rot") == EVFS_OK && !strcmp(b, A.cwd), "get_cur_dir"); break; }
      case 11: { /* listing of an ordinary directory */
        EvfsDir *d; EvfsInfo inf; int n = 0, w = 0; MC_CHECK(evfs_open_dir_ex("/", &d, "rot") == EVFS_OK, "open_dir /"); while(evfs_dir_read(d, &inf) == EVFS_OK) n++; evfs_dir_close(d);
        EvfsDir *e; evfs_vfs_open_dir(&B.vfs, "/", &e); while(evfs_dir_read(e, &inf) == EVFS_OK) w++; evfs_dir_close(e);
        w += lg[0].used + lg[2].used; mc_op("list / -> %d", n); MC_CHECK(n == w, "listing the root gives %d entries instead of %d", n, w); break; }
      case 12: { int k = mc_choose(2); RM *r = &lg[k].r; if(!lg[k].used || h) mc_prune(); EvfsFile *f; MC_CHECK(evfs_open_ex(ln[k], &f, EVFS_RDWR, "rot") == EVFS_OK, "open"); evfs_off_t t = r->C; int st = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &t); int w = rm_trim(r, r->C); mc_op("trim %s -> %d", ln[k], st); MC_CHECK(st == w, "trim returns %d", st); evfs_file_close(f); break; }
    }
    /* every log holds what it should within its bounds */
    for(int k = 0; k < 3; k++) {
      if(!lg[k].used) { if(mem_find(&A, ln[k])) mc_fail("a log that should not exist does"); continue; }
      EvfsFile *f; RM *r = &lg[k].r; rot_files(&A, ln[k], r->C, r->M);
      if(h && hi == k) rot_same(h, r->d, r->n, "open log");
      else { int st = evfs_open_ex(ln[k], &f, EVFS_READ, "rot"); MC_CHECK(st == EVFS_OK, "log %s can't be opened: %s", ln[k], EN(st)); rot_same(f, r->d, r->n, "closed log"); evfs_file_close(f); }
    }
    uint64_t s = MC_HASH0; for(int k = 0; k < 3; k++) if(lg[k].used) { int v[4] = { k, lg[k].r.n, lg[k].r.C, (int)(lg[k].r.dropped % 400) }; s = mc_hash(s, v, sizeof v); } mc_state(s + (uint64_t)cc * 7 + (h != NULL));
  }
  if(h) evfs_file_close(h);
  /* without the logs both sides agree */
  for(int k = 0; k < 3; k++) if(lg[k].used) MC_CHECK(evfs_delete_ex(ln[k], "rot") == EVFS_OK, "deleting a log");
  char why[128]; MC_CHECK(mem_same(&A, &B, why, sizeof why), "ordinary files: %s", why);
  MC_CHECK(A.open_files == 0 && A.open_dirs == 0 && mc_alloc_live() == live, "something is left open or allocated");
}
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P12"); mc_set_cleanup(cl); evfs_init(); mem_init(&A, "mem"); mem_init(&B, "twin");
  for(int i = 0; i < RM_CAP; i++) pat[i] = rot_byte(i + 100);
  mc_note("all 64 flag combinations x missing/existing log, plain file, directory, missing directory; 72 configurations at registration and later; 16 foreign file names, every geometry file length and field value of a hostile set; log paths of 225..264 characters");
  mc_note("every sequence of %d management operations over three log names, plain files and directories, compared with a model and, for ordinary files, a twin file system", mc_tier(4, 5));
  mc_note("opening write-only without a further flag is left open: the back ends differ on it");
  mc_explore("flags", s_flags); mc_explore("configurations", s_config); mc_explore("foreign contents", s_foreign); mc_explore("path lengths", s_long); mc_explore_depth("management", s_manage, 5);
  return mc_main_finish();
}
