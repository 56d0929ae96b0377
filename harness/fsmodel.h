/* Exploration of a whole writable back end against a plain file tree:
   opening with every flag combination, data operations on one file, and name
   space operations.  Used for the host file system (P18) and FAT (P27). */
#ifndef FSMODEL_H
#define FSMODEL_H
#include "backends.h"
#include "tree.h"
static int fm_be;                      /* back end under test */
static Tree fm_t;
static bool fm_wild(void) { return fm_be == BE_FAT || fm_be == BE_FAT1; }   /* gaps have no defined contents */
static bool fm_fat(void) { return fm_wild() || fm_be == BE_LFS; }          /* on an image */
static const char *V(void) { return be_vfs(fm_be); }
#ifdef NOPOSIX
#define PLAIN true     /* plain C: no error codes, no directories, no truncation */
#else
#define PLAIN false
#endif
static bool missing_err(int e) { if(PLAIN && e == EVFS_ERR) return true; return e == EVFS_ERR_NO_FILE || e == EVFS_ERR_NO_PATH; }
static int fd_low(void) { int d = dup(0); close(d); return d; }

/* ---- reading the storage behind the library's back (host) or through it (FAT) ---- */
static int raw_read(const char *p, unsigned char *buf, int cap) {   /* -1: missing, -2: directory */
  if(fm_be == BE_STDIO) {
    struct stat s; if(lstat(be_path(p), &s)) return -1;
    if(S_ISDIR(s.st_mode)) return -2;
    int fd = open(be_path(p), O_RDONLY | O_NOFOLLOW); if(fd < 0) return -1;
    int n = (int)read(fd, buf, (size_t)cap); close(fd); return n;
  }
  EvfsInfo inf; EvfsFile *f;
  int st = evfs_stat_ex(p, &inf, V());
  if(st != EVFS_OK) { MC_CHECK(missing_err(st), "stat of '%s' fails: %s", p, EN(st)); return -1; }
  if(inf.type & EVFS_FILE_DIR) return -2;
  st = evfs_open_ex(p, &f, EVFS_READ, V());
  MC_CHECK(st == EVFS_OK, "'%s' exists but can not be opened: %s", p, EN(st));
  int n = (int)evfs_file_read(f, buf, (size_t)cap);
  evfs_file_close(f);
  MC_CHECK(n == inf.size || cap < inf.size, "'%s' has %d bytes but stat says %d", p, n, (int)inf.size);
  return n;
}
static int host_list(const char *p, char names[][64]) {
  int n = 0; DIR *d = opendir(be_path(p)); struct dirent *e; if(!d) return -1;
  while((e = readdir(d))) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && n < 20) strcpy(names[n++], e->d_name);
  closedir(d); return n;
}
static int lib_list(const char *p, char names[][64], bool *isdir) {
  EvfsDir *d; EvfsInfo inf; int n = 0, st = evfs_open_dir_ex(be_path(p), &d, V());
  if(st != EVFS_OK) return st;
  while((st = evfs_dir_read(d, &inf)) == EVFS_OK) {
    if(!strcmp(inf.name, ".") || !strcmp(inf.name, "..")) continue;
    MC_CHECK(n < 20 && strlen(inf.name) < 60, "listing of '%s' does not end", p);
    isdir[n] = !!(inf.type & EVFS_FILE_DIR); strcpy(names[n++], inf.name);
  }
  evfs_dir_close(d);
  MC_CHECK(st == EVFS_DONE, "listing of '%s' ends with %s", p, EN(st));
  return n;
}
/* the storage is exactly the tree */
static void fm_verify(Tree *t, const char *when) {
  static unsigned char b[TR_DATA]; static char nm[24][64]; static bool id[24];
  int save = fm_be;
  for(int i = 0; i < t->n; i++) {
    TNode *x = &t->t[i];
    if(i) {
      int n = raw_read(x->path, b, sizeof b);
      MC_CHECK(n != -1, "%s: '%s' is gone", when, x->path);
      MC_CHECK((n == -2) == x->dir, "%s: '%s' changed its type", when, x->path);
      if(!x->dir) { MC_CHECK(n == x->n, "%s: '%s' has %d bytes instead of %d", when, x->path, n, x->n); MC_CHECK(!n || !memcmp(b, x->d, (size_t)n), "%s: '%s' has the wrong contents", when, x->path); }
    }
    if(x->dir) {
      int want = 0; for(int j = 1; j < t->n; j++) { char par[64]; tr_parent(t->t[j].path, par); want += !strcmp(par, x->path); }
      for(int way = 0; way < (PLAIN ? 1 : 2); way++) {
        int n; if(way) n = lib_list(x->path, nm, id); else if(fm_be == BE_STDIO) n = host_list(x->path, nm); else continue;
        MC_CHECK(n >= 0, "%s: '%s' can not be listed: %s", when, x->path, EN(n));
        MC_CHECK(n == want, "%s: '%s' has %d entries instead of %d", when, x->path, n, want);
        for(int k = 0; k < n; k++) { char q[160]; snprintf(q, sizeof q, "%s/%s", x->path[1] ? x->path : "", nm[k]); TNode *c = tr_get(t, q); MC_CHECK(c, "%s: '%s' exists", when, q); if(way) MC_CHECK(c->dir == id[k], "%s: '%s' is listed with the wrong type", when, q); }
      }
    }
  }
  fm_be = save;
}
/* take the storage as it is for the tree to compare with */
static void fm_snapshot(const char *dir) {
  static unsigned char b[TR_DATA]; char nm[24][64]; bool id[24];
  if(dir[1] == 0) tr_init(&fm_t);
  int n = lib_list(dir, nm, id);
  if(n < 0) mc_fail("harness: snapshot of %s", dir);
  for(int i = 0; i < n; i++) {
    char q[160]; snprintf(q, sizeof q, "%s/%s", dir[1] ? dir : "", nm[i]);
    if(fm_t.n >= TR_MAX || strlen(q) > 60) mc_fail("harness: snapshot too large");
    if(id[i]) { tr_add(&fm_t, q, true); fm_snapshot(q); }
    else { int l = raw_read(q, b, sizeof b); TNode *x = tr_add(&fm_t, q, false); tr_set(x, 0, b, l); }
  }
}
static void fm_remount(void) {
#ifdef WITH_FAT
  for(int v = 0; v < 2; v++) if(fat_up[v]) { fat_down(v); int st = fat_mount(v); MC_CHECK(st == EVFS_OK, "mounting the image again fails: %s", EN(st)); }
#endif
#ifdef WITH_LFS
  if(lfs_up) { lfs_down(); MC_CHECK(!be_mem.open_files, "unmounting leaves the image open"); int st = lfs_mnt(); MC_CHECK(st == EVFS_OK, "mounting the image again fails: %s", EN(st)); }
#endif
}
static void fm_up(int be) { fm_be = be; be_up(be, !fm_fat()); tr_init(&fm_t); }
static TNode *fm_file(const char *p, const void *d, int n) { be_put(fm_be, p, d, n); TNode *x = tr_add(&fm_t, p, false); tr_set(x, 0, d, n); return x; }
static void fm_dir(const char *p) { be_mkdir(fm_be, p); tr_add(&fm_t, p, true); }

/* ---------- 1. every flag combination ---------- */
enum { T_MISSING, T_EMPTY, T_DATA, T_DIR, T_NODIR, T_UNDERFILE, T_N };
static const char *tgt[] = { "/new", "/empty", "/data", "/dir", "/none/x", "/data/x" };
static int fm_nbe, fm_bes[4];
static void s_flags(void) {
  int be = fm_bes[mc_choose(fm_nbe)], fl = mc_choose(64), tk = mc_choose(T_N), then = mc_choose(6);
  mc_alloc_track(true);
  fm_up(be);
  fm_file("/empty", "", 0); fm_file("/data", "abcdef", 6); fm_dir("/dir"); fm_file("/dir/in", "q", 1);
  int live = mc_alloc_live(), fds = fd_low();
  EvfsFile *f = (EvfsFile *)8; int st = evfs_open_ex(be_path(tgt[tk]), &f, fl, V());
  mc_op("%s: open %s (%s) -> %s", be_name[be], tgt[tk], flag_str(fl), EN(st));
  OpenRule r = open_rule(fl, tk == T_EMPTY || tk == T_DATA, be == BE_STDIO);
  if(tk == T_DIR) {   /* a directory is not a file: opening or using it fails and it stays */
    if(st == EVFS_OK) { char c[4]; MC_CHECK(evfs_file_read(f, c, 4) <= 0 && evfs_file_write(f, "x", 1) < 0, "a directory opened as a file can be used"); MC_CHECK(evfs_file_close(f) == EVFS_OK, "close"); }
    else MC_CHECK(f == NULL, "a failed open leaves a handle");
    MC_CHECK(mc_alloc_live() == live && fd_low() == fds, "opening a directory leaks"); fm_verify(&fm_t, "opening a directory as a file"); return;
  }
  if(tk == T_NODIR || tk == T_UNDERFILE) r.ok = false, r.err = EVFS_ERR_NO_PATH;
  if(fm_fat() && !(fl & EVFS_WRITE) && (fl & 0x3C)) { /* FatFs refuses or ignores creating flags without write access: only the effect is checked */
    if(st != EVFS_OK) { MC_CHECK(!f, "a failed open leaves a handle"); fm_verify(&fm_t, "a failed open"); return; }
    if(!r.ok) MC_CHECK(0, "open with %s succeeds on %s", flag_str(fl), tgt[tk]);
  }
  if((fl & EVFS_NO_EXIST) && !(fl & EVFS_WRITE) && r.ok && st != EVFS_OK) { MC_CHECK(!f, "a failed open leaves a handle"); fm_verify(&fm_t, "a failed open"); return; }
  MC_CHECK((st == EVFS_OK) == r.ok, "open with %s of %s file %s", flag_str(fl), tk == T_MISSING ? "a missing" : tk == T_EMPTY ? "an empty" : tk == T_DATA ? "an existing" : "an unreachable", r.ok ? "fails" : "succeeds");
  if(!r.ok) {
    MC_CHECK(PLAIN ? st == EVFS_ERR : r.err == EVFS_ERR_EXISTS ? st == r.err : missing_err(st), "open with %s reports %s", flag_str(fl), EN(st));
    MC_CHECK(f == NULL, "a failed open leaves a handle");
    MC_CHECK(mc_alloc_live() == live && fd_low() == fds, "a failed open leaks");
    fm_verify(&fm_t, "a failed open"); return;
  }
  TNode *x = tr_get(&fm_t, tgt[tk]);
  if(r.create) x = tr_add(&fm_t, tgt[tk], false);
  if(r.trunc) x->n = 0;
  bool app = fl & EVFS_APPEND;
  MC_CHECK(evfs_file_size(f) == x->n, "open with %s gives a file of %d bytes instead of %d", flag_str(fl), (int)evfs_file_size(f), x->n);
  if(!app) MC_CHECK(evfs_file_tell(f) == 0, "open with %s starts at %d", flag_str(fl), (int)evfs_file_tell(f));
  char b[16]; int v;
  if(then & 1) {   /* read first */
    if(app) evfs_file_seek(f, 0, EVFS_SEEK_TO);
    v = (int)evfs_file_read(f, b, 3); mc_op("read 3 -> %d", v);
    int w = x->n < 3 ? x->n : 3;
    if(r.can_read) MC_CHECK(v == w && !memcmp(b, x->d ? (char *)x->d : "", (size_t)w), "reading a file opened with %s gives %d", flag_str(fl), v);
    if(!(fl & EVFS_READ) && (fl & EVFS_WRITE) && v > 0) MC_CHECK(!memcmp(b, x->d, (size_t)v), "reading gives wrong data");
  }
  if(then >= 2) {   /* write, at the start or after a seek */
    int at = (then & 1) && r.can_read ? (x->n < 3 ? x->n : 3) : 0;
    if((then & 1) && !r.can_read) { MC_CHECK(evfs_file_seek(f, 0, EVFS_SEEK_TO) == EVFS_OK, "seek"); }
    if(then >= 4) { at = 1; MC_CHECK(evfs_file_seek(f, 1, EVFS_SEEK_TO) == EVFS_OK || fm_fat(), "seek fails"); if(fm_fat() && at > x->n) at = (int)evfs_file_tell(f), fm_fat() && x->n == 0 && at == 1 ? evfs_file_seek(f, 0, EVFS_SEEK_TO), evfs_file_truncate(f, 0), at = 0 : 0; }
    if(app) at = x->n;
    v = (int)evfs_file_write(f, "XYZW", 4); mc_op("write 4 -> %d", v);
    bool must = fl & EVFS_WRITE, may = fl & (EVFS_OVERWRITE | EVFS_APPEND | EVFS_NO_EXIST);
    if(must || (may && v > 0)) { MC_CHECK(v == 4, "writing to a file opened with %s gives %d", flag_str(fl), v); tr_set(x, at, "XYZW", 4); }
    else MC_CHECK(v <= 0 || v == 4, "writing gives %d", v);
    if(!must && !may) MC_CHECK(v < 0, "writing to a file opened with %s gives %d", flag_str(fl), v);
  }
  st = evfs_file_close(f);
  MC_CHECK(st == EVFS_OK, "close fails: %s", EN(st));
  MC_CHECK(mc_alloc_live() == live && fd_low() == fds, "open and close leak");
  fm_verify(&fm_t, "after open, use and close");
  if(fm_fat()) { fm_remount(); fm_verify(&fm_t, "after remounting"); }
  mc_state(mc_hash(MC_HASH0 + (unsigned)(be * 64 + fl), &tk, sizeof tk));
}

/* ---------- 1b. what opening does to an existing file, whatever its size ---------- */
static void s_sizes(void) {
  static const int big[] = { 63, 64, 255, 256, 511, 512, 513, 1024, 4095, 4096, 4097 };
  int be = fm_bes[mc_choose(fm_nbe)], fl = mc_choose(64), c = mc_choose(24 + 11), n = c < 24 ? c : big[c - 24], how = mc_choose(2);
  static unsigned char d[TR_DATA]; for(int i = 0; i < n; i++) d[i] = (unsigned char)(how ? 0 : 'a' + i % 23);
  fm_up(be); fm_file("/f", d, n); fm_file("/g", "other", 5);
  EvfsFile *f = NULL; int st = evfs_open_ex(be_path("/f"), &f, fl, V());
  mc_op("%s: open a file of %d bytes (%s) -> %s", be_name[be], n, flag_str(fl), EN(st));
  OpenRule r = open_rule(fl, true, be == BE_STDIO);
  bool vague = (fm_fat() && !(fl & EVFS_WRITE) && (fl & 0x3C));
  if(!vague) MC_CHECK((st == EVFS_OK) == r.ok, "open with %s of a file of %d bytes returns %s", flag_str(fl), n, EN(st));
  if(st == EVFS_OK) {
    TNode *x = tr_get(&fm_t, "/f"); if(r.trunc) x->n = 0;
    MC_CHECK(evfs_file_size(f) == x->n, "open with %s of a file of %d bytes gives %d", flag_str(fl), n, (int)evfs_file_size(f));
    MC_CHECK(evfs_file_close(f) == EVFS_OK, "close fails");
  }
  fm_verify(&fm_t, "after opening and closing");
  mc_state(mc_hash(MC_HASH0 + (unsigned)(be * 64 + fl), &n, sizeof n));
}

/* ---------- 2. data operations on one file ---------- */
static unsigned char dm[TR_DATA], dw[TR_DATA]; static int dn, dpos; static bool dapp;
static unsigned char dtmp[TR_DATA];
static void d_grow(int to, bool wild) { if(to > dn) { memset(dm + dn, 0, (size_t)(to - dn)); memset(dw + dn, wild, (size_t)(to - dn)); dn = to; } }
static bool d_same(const unsigned char *b, int at, int n) { for(int i = 0; i < n; i++) if(!dw[at + i] && b[i] != dm[at + i]) return false; return true; }
static void s_data(void) {
  int be = fm_bes[mc_choose(fm_nbe)], prof = mc_choose(2), mode = mc_choose(4), k = mc_tier(3, 4);
  /* sizes around stdio's buffer and FAT's sectors in the second profile */
  static const int small[] = { 0, 1, 2, 3, 5 }, fatb[] = { 0, 1, 512, 511, 1025 }, stb[] = { 0, 1, 4096, 4095, 8200 };
  static const int flags[] = { EVFS_RDWR, EVFS_RDWR | EVFS_OVERWRITE, EVFS_RDWR | EVFS_APPEND, EVFS_WRITE | EVFS_OPEN_OR_NEW };
  const int *sz = prof == 0 ? small : be == BE_STDIO ? stb : fatb;
  if(prof) k--;
  mc_alloc_track(true);
  fm_up(be);
  static unsigned char seed[TR_DATA]; for(int i = 0; i < sz[4]; i++) seed[i] = (unsigned char)('a' + i % 23);
  be_put(be, "/f", seed, sz[4]);
  memset(dw, 0, sizeof dw); memcpy(dm, seed, (size_t)sz[4]); dn = sz[4]; dpos = 0; dapp = flags[mode] & EVFS_APPEND;
  if(flags[mode] & EVFS_OVERWRITE) dn = 0;
  EvfsFile *f; int st = evfs_open_ex(be_path("/f"), &f, flags[mode], V());
  mc_op("%s: %d bytes, open (%s)", be_name[be], sz[4], flag_str(flags[mode]));
  MC_CHECK(st == EVFS_OK, "open (%s) fails: %s", flag_str(flags[mode]), EN(st));
  if(dapp) { dpos = (int)evfs_file_tell(f); MC_CHECK(dpos == 0 || dpos == dn, "an appending file starts at %d", dpos); }
  bool fresh = dapp;   /* where reading starts in an appending file is left open until something positions it */
  for(int s = 0; s < k; s++) {
    int c = mc_choose(1 + 4 + 4 + 4 + 3 + 4 + 5 + 1);
    if(c == 0) break;
    c--;
    if(c < 4) {   /* read */
      int n = (int[]){ 1, sz[2], sz[4], sz[4] * 2 }[c], v;
      memset(dtmp, 0xEE, (size_t)n);
      v = (int)evfs_file_read(f, dtmp, (size_t)n); mc_op("read %d -> %d", n, v);
      int left = dpos < dn ? dn - dpos : 0, w = n < left ? n : left;
      if(mode == 3) { if(v <= 0) continue; }      /* not opened for reading */
      if(fresh && v != w) { dpos = 0; w = n < dn ? n : dn; }
      MC_CHECK(v == w, "reading %d bytes at %d of %d gives %d", n, dpos, dn, v);
      MC_CHECK(d_same(dtmp, dpos, v), "reading %d bytes at %d of %d gives wrong data", n, dpos, dn);
      dpos += v; fresh = false;
      if(v < n) MC_CHECK(evfs_file_eof(f), "the end is not reported after a short read");
      else if(dpos < dn) MC_CHECK(!evfs_file_eof(f), "the end is reported at %d of %d", dpos, dn);
    } else if(c < 8) {   /* write */
      int n = sz[c - 4 == 0 ? 1 : c - 4 == 1 ? 2 : c - 4 == 2 ? 3 : 4], v;
      for(int i = 0; i < n; i++) dtmp[i] = (unsigned char)('A' + (i + s * 7) % 26);
      v = (int)evfs_file_write(f, dtmp, (size_t)n); mc_op("write %d -> %d", n, v);
      MC_CHECK(v == n, "writing %d bytes gives %d", n, v);
      if(dapp) dpos = dn;
      if(dpos > dn) d_grow(dpos, fm_wild());
      d_grow(dpos + n, false); memcpy(dm + dpos, dtmp, (size_t)n); memset(dw + dpos, 0, (size_t)n); dpos += n; fresh = false;
    } else if(c < 20) {   /* seek */
      static const char *on[] = { "TO", "REL", "REV" }; int org, off;
      c -= 8;
      if(c < 4) { org = EVFS_SEEK_TO; off = (int[]){ 0, sz[2], sz[4], sz[4] + sz[3] }[c]; }
      else if(c < 8) { org = EVFS_SEEK_REL; off = (int[]){ -1, 1, -sz[4] * 4, sz[2] }[c - 4]; }
      else { org = EVFS_SEEK_REV; off = (int[]){ 0, sz[2], 1, sz[4] * 4 }[c - 8]; }
      if(fresh) { dpos = (int)evfs_file_tell(f); fresh = false; }
      int t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? dpos + off : dn - off;
      st = evfs_file_seek(f, off, (EvfsSeekDir)org); mc_op("seek %s %d -> %s", on[org - 1], off, EN(st));
      if(t < 0) { int now = (int)evfs_file_tell(f); MC_CHECK((st == EVFS_OK && now == 0) || (st != EVFS_OK && now == dpos), "seeking before the start ends at %d (%s)", now, EN(st)); dpos = now; }
      else {
        MC_CHECK(st == EVFS_OK, "seek %s %d at %d of %d fails: %s", on[org - 1], off, dpos, dn, EN(st));
        int now = (int)evfs_file_tell(f);
        if(t > dn && fm_fat()) { MC_CHECK(now == t || now == dn, "seek %s %d at %d of %d ends at %d", on[org - 1], off, dpos, dn, now); int z = (int)evfs_file_size(f); MC_CHECK(z == dn || z == t, "seeking gives a size of %d", z); d_grow(z, fm_wild()); dpos = now; }
        else { MC_CHECK(now == t, "seek %s %d at %d of %d ends at %d", on[org - 1], off, dpos, dn, now); dpos = t; }
      }
    } else if(c < 25) { static int dummy; (void)dummy;
      c -= 20;
      if(c < 4) {   /* truncate */
        int to = c == 0 ? 0 : c == 1 ? (dn > 0 ? dn - 1 : 0) : c == 2 ? dn : dn + sz[2];
        if(c == 1 && prof) to = dn < sz[2] ? dn : sz[2];
        if(fresh) { dpos = (int)evfs_file_tell(f); fresh = false; }
        st = evfs_file_truncate(f, to); mc_op("truncate %d of %d -> %s", to, dn, EN(st));
        if(PLAIN) { MC_CHECK(st == EVFS_ERR_NO_SUPPORT, "truncating returns %s", EN(st)); to = dn; st = EVFS_OK; }
        MC_CHECK(st == EVFS_OK || to > dn, "truncating %d bytes to %d fails: %s", dn, to, EN(st));
        if(to <= dn) dn = to;
        else { int z = (int)evfs_file_size(f); MC_CHECK(z == dn || (st == EVFS_OK && z == to), "truncating %d bytes to %d gives %d", dn, to, z); d_grow(z, fm_wild()); }
        int now = (int)evfs_file_tell(f);
        MC_CHECK(now == dpos || (dpos > dn && now == dn), "truncating moves the position from %d to %d", dpos, now); dpos = now;
      } else { st = evfs_file_sync(f); mc_op("sync"); MC_CHECK(st == EVFS_OK, "sync fails: %s", EN(st)); 
        int n = fm_be == BE_STDIO ? raw_read("/f", dtmp, sizeof dtmp) : dn;
        if(fm_be == BE_STDIO) MC_CHECK(n == dn && d_same(dtmp, 0, n), "synced data is not in the file"); }
    }
    int z = (int)evfs_file_size(f);
    MC_CHECK(z == dn, "the size is %d instead of %d", z, dn);
    if(!fresh) { int now = (int)evfs_file_tell(f); MC_CHECK(now == dpos, "the position is %d instead of %d", now, dpos); }
    mc_state(mc_hash(mc_hash(MC_HASH0 + (unsigned)be, dm, (size_t)dn), &dpos, sizeof dpos));
  }
  st = evfs_file_close(f);
  MC_CHECK(st == EVFS_OK, "close fails: %s", EN(st));
  fm_remount();
  int n = raw_read("/f", dtmp, sizeof dtmp);
  MC_CHECK(n == dn, "the file has %d bytes instead of %d after closing", n, dn);
  MC_CHECK(d_same(dtmp, 0, n), "the file has the wrong contents after closing");
}

/* ---------- 3. name space ---------- */
static char nm_cwd[64];
static const char *npool[] = { "/a", "/d", "/d/a", "/d/e", "/b" };
static const char *nrel[] = { "a", "e", "../b", "." };
static void nabs(const char *p, char *out) { char t[128]; if(p[0] == '/') strcpy(t, p); else snprintf(t, sizeof t, "%s/%s", nm_cwd[1] ? nm_cwd : "", p);
  /* resolve . and .. */
  char *seg[16]; int n = 0; for(char *q = strtok(t, "/"); q; q = strtok(NULL, "/")) { if(!strcmp(q, ".")) continue; if(!strcmp(q, "..")) { if(n) n--; continue; } seg[n++] = q; }
  *out = 0; for(int i = 0; i < n; i++) { strcat(out, "/"); strcat(out, seg[i]); } if(!n) strcpy(out, "/"); }
static const char *ppath(const char *p) { return p[0] == '/' ? be_path(p) : p; }
static bool fm_fat_kind(int be) { return be == BE_FAT || be == BE_FAT1; }
static void s_names(void) {
  int be = fm_bes[mc_choose(fm_nbe)], base = mc_choose(2), k = mc_tier(be == BE_FAT1 ? 2 : 3, be == BE_FAT1 ? 3 : 4), np = fm_fat_kind(be) ? mc_tier(4, 5) : 5;
  mc_alloc_track(true);
  fm_up(be); strcpy(nm_cwd, "/");
  int live = mc_alloc_live(), fds = fd_low();
  if(base) { fm_dir("/d"); fm_file("/d/a", "one", 3); fm_dir("/d/e"); fm_file("/a", "two", 3); }
  mc_op("%s, %s tree", be_name[be], base ? "populated" : "empty");
  bool lost_cwd = false;
  for(int s = 0; s < k && !lost_cwd; s++) {
    int op = mc_choose(6); if(op == 0) break;
    int i = mc_choose(base && op != 3 ? np + 4 : np); const char *p = i < np ? npool[i] : nrel[i - np]; char a[64]; nabs(p, a);
    if(p[0] == '.' && p[1] && !nm_cwd[1]) continue;   /* the parent of the root differs between back ends */
    TNode *x = tr_get(&fm_t, a); bool par = tr_parent_ok(&fm_t, a) || !a[1]; int st;
    switch(op) {
      case 1: {   /* write a whole file */
        EvfsFile *f; char data[8]; int n = sprintf(data, "%d%s", s, i & 1 ? "long" : "");
        st = evfs_open_ex(ppath(p), &f, EVFS_WRITE | EVFS_OVERWRITE, V()); mc_op("write '%s' -> %s", p, EN(st));
        bool ok = par && (!x || !x->dir);
        MC_CHECK((st == EVFS_OK) == ok, "creating '%s' %s", p, ok ? "fails" : "succeeds");
        if(!ok) { MC_CHECK(x || missing_err(st), "creating '%s' in a missing directory reports %s", p, EN(st)); break; }
        MC_CHECK(evfs_file_write(f, data, (size_t)n) == n && evfs_file_close(f) == EVFS_OK, "writing '%s' fails", p);
        if(!x) x = tr_add(&fm_t, a, false);
        x->n = 0; tr_set(x, 0, data, n); break;
      }
      case 2:   /* delete */
        if(!a[1]) break;
        st = evfs_delete_ex(ppath(p), V()); mc_op("delete '%s' -> %s", p, EN(st));
        if(p[0] == '.') { MC_CHECK(st != EVFS_OK || x, "deleting '%s' succeeds", p); if(st == EVFS_OK && x && x->dir) { MC_CHECK(tr_empty(&fm_t, a), "a directory that is not empty is deleted"); tr_del(&fm_t, a); lost_cwd = true; } else if(st == EVFS_OK) tr_del(&fm_t, a); break; }
        if(!x) { MC_CHECK(missing_err(st), "deleting the missing '%s' reports %s", p, EN(st)); break; }
        if(x->dir && !tr_empty(&fm_t, a)) { MC_CHECK(st != EVFS_OK, "a directory that is not empty is deleted"); if(be == BE_STDIO) MC_CHECK(st == EVFS_ERR_NOT_EMPTY, "deleting a directory that is not empty reports %s", EN(st)); break; }
        if(!strcmp(a, nm_cwd)) { if(st == EVFS_OK) { tr_del(&fm_t, a); lost_cwd = true; } break; }
        MC_CHECK(st == EVFS_OK, "deleting '%s' fails: %s", p, EN(st)); tr_del(&fm_t, a); break;
      case 3: {   /* rename */
        int j = mc_choose(np); const char *q = npool[j]; char b[64]; nabs(q, b); TNode *y = tr_get(&fm_t, b); bool qpar = tr_parent_ok(&fm_t, b);
        st = evfs_rename_ex(ppath(p), ppath(q), V()); mc_op("rename '%s' '%s' -> %s", p, q, EN(st));
        if(!x) { MC_CHECK(missing_err(st), "renaming the missing '%s' reports %s", p, EN(st)); break; }
        if(!strcmp(a, b)) { break; }      /* onto itself: nothing changes either way */
        if(tr_below(b, a)) { MC_CHECK(st != EVFS_OK, "a directory is moved into itself"); break; }
        if(!qpar) { MC_CHECK(missing_err(st), "renaming into a missing directory reports %s", EN(st)); break; }
        if(y) {   /* replaces or refuses; what can not be replaced is refused */
          bool can = x->dir == y->dir && (!y->dir || tr_empty(&fm_t, b));
          MC_CHECK(st != EVFS_OK || can, "renaming '%s' replaces '%s'", p, q);
          if(st == EVFS_OK) { if(!strcmp(b, nm_cwd)) lost_cwd = true; tr_del(&fm_t, b); } else break;
        } else MC_CHECK(st == EVFS_OK, "renaming '%s' to '%s' fails: %s", p, q, EN(st));
        if(fm_be == BE_LFS && (!strcmp(nm_cwd, a) || tr_below(nm_cwd, a))) lost_cwd = true;   /* tracked by its path */
        else if(!strcmp(nm_cwd, a) || tr_below(nm_cwd, a)) { char t[128]; snprintf(t, sizeof t, "%s%s", b, nm_cwd + strlen(a)); strcpy(nm_cwd, t); }
        tr_rename(&fm_t, a, b); break;
      }
      case 4:   /* make a directory */
        st = evfs_make_dir_ex(ppath(p), V()); mc_op("make_dir '%s' -> %s", p, EN(st));
        if(x || !a[1]) { MC_CHECK(st != EVFS_OK, "making the existing '%s' succeeds", p); if(p[0] != '.') MC_CHECK(st == EVFS_ERR_EXISTS, "making the existing '%s' reports %s", p, EN(st)); break; }
        if(!par) { MC_CHECK(missing_err(st), "making '%s' in a missing directory reports %s", p, EN(st)); break; }
        MC_CHECK(st == EVFS_OK, "making '%s' fails: %s", p, EN(st)); tr_add(&fm_t, a, true); break;
      case 5: {  /* change directory */
        st = evfs_set_cur_dir_ex(ppath(p), V()); mc_op("set_cur_dir '%s' -> %s", p, EN(st));
        bool ok = !a[1] || (x && x->dir);
        MC_CHECK((st == EVFS_OK) == ok, "changing to '%s' %s: %s", p, ok ? "fails" : "succeeds", EN(st));
        if(!ok && !x) MC_CHECK(missing_err(st), "changing to the missing '%s' reports %s", p, EN(st));
        if(ok) strcpy(nm_cwd, a);
        break;
      }
    }
    if(lost_cwd) break;
    /* queries agree with the tree after every step */
    for(int q = 0; q < np + 1 + (base ? 2 : 0); q++) {
      const char *n = q < np ? npool[q] : q == np ? "/" : nrel[q - np - 1]; char b[64]; nabs(n, b); TNode *y = b[1] ? tr_get(&fm_t, b) : &fm_t.t[0]; EvfsInfo inf;
      MC_CHECK(evfs_existing_dir_ex(ppath(n), V()) == (y && y->dir), "'%s' %s a directory", n, y && y->dir ? "is not reported as" : "is reported as");
      MC_CHECK(evfs_existing_file_ex(ppath(n), V()) == (y && !y->dir), "existence of '%s' is reported wrongly", n);
      int st2 = evfs_stat_ex(ppath(n), &inf, V());
      if(!y) { MC_CHECK(missing_err(st2), "stat of the missing '%s' reports %s", n, EN(st2)); continue; }
      MC_CHECK(st2 == EVFS_OK && !!(inf.type & EVFS_FILE_DIR) == y->dir && (y->dir || inf.size == y->n), "stat of '%s' is wrong (%s)", n, EN(st2));
    }
    char c[512]; StringRange cr; range_init(&cr, c, sizeof c);
    st = evfs_get_cur_dir_ex(&cr, V());
    MC_CHECK(st == EVFS_OK, "asking for the current directory fails: %s", EN(st));
    const char *got = c; if(isalnum((unsigned char)c[0]) && c[1] == ':') got = c + 2;
    MC_CHECK(!strcmp(got, be == BE_STDIO && !nm_cwd[1] ? be_root : be_path(nm_cwd)), "the current directory is '%s' instead of '%s'", mc_str(got), nm_cwd);
    mc_state(mc_hash(tr_hash(&fm_t) + (unsigned)be, nm_cwd, strlen(nm_cwd)));
  }
  if(be == BE_STDIO && chdir(be_root)) mc_fail("harness: chdir");
  fm_verify(&fm_t, "at the end");
  MC_CHECK(mc_alloc_live() == live && fd_low() == fds, "something stays allocated or open");
  if(fm_fat()) { fm_remount(); fm_verify(&fm_t, "after remounting"); }
}
static void fm_clean(void) { if(fm_be == BE_STDIO && chdir("/")) {} be_clean(); tr_init(&fm_t); }
#endif
