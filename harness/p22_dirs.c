/* P22: directory iteration, pattern search and path creation. */
#include "backends.h"
#include "images.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/util/glob.h"

static Img im;
static Fence fimg, fp;
static int rep_null(const char *s, void *c) { (void)s; (void)c; return 0; }
static void clean(void) { be_clean(); fence_off(&fimg); fence_off(&fp); }

/* ---------- listing ---------- */
enum { L_MEM, L_JAIL, L_TRACE, L_STDIO, L_STDIO_NODOTS, L_FAT, L_TAR, L_TARR, L_ROM, L_ROMR, NL };
static const char *ln[] = { "memory", "jail", "trace", "host", "host without dots", "FAT", "tar file", "tar in memory", "ROM image file", "ROM image in memory" };
static const char *pool[] = { "a", "ab", "b.txt", "dir", "c_d.e" };
static bool isdirn(const char *n) { return !strcmp(n, "dir"); }
static const char *pats[] = { "*", "a*", "*.*", "?", "nothing", "[!a]*", "dir" };

/* builds directory /t with the chosen entries on back end k; returns the vfs, path in *path */
static const char *build(int k, unsigned set, const char **path) {
  *path = "/t";
  if(k <= L_TRACE) {
    be_up(BE_MEM, true); mem_mkdir(&be_mem, "/t"); mem_mkdir(&be_mem, "/u"); mem_put(&be_mem, "/u/z", "z", 1);
    for(int i = 0; i < 5; i++) if(set >> i & 1) { char b[32]; sprintf(b, "/t/%s", pool[i]); if(isdirn(pool[i])) { mem_mkdir(&be_mem, b); strcat(b, "/sub"); mem_put(&be_mem, b, "s", 1); } else mem_put(&be_mem, b, "xyzwv", i); }
    if(k == L_JAIL) { MC_CHECK(evfs_register_jail("w", "be", "/t", false) == EVFS_OK, "jail"); *path = "/"; return "w"; }
    if(k == L_TRACE) { MC_CHECK(evfs_register_trace("w", "be", rep_null, NULL, false) == EVFS_OK, "trace"); return "w"; }
    return "be";
  }
  if(k <= L_FAT) {
    int be = k == L_FAT ? BE_FAT : BE_STDIO;
    be_up(be, true); be_mkdir(be, "/t"); be_mkdir(be, "/u"); be_put(be, "/u/z", "z", 1);
    for(int i = 0; i < 5; i++) if(set >> i & 1) { char b[32]; sprintf(b, "/t/%s", pool[i]); if(isdirn(pool[i])) { be_mkdir(be, b); strcat(b, "/sub"); be_put(be, b, "s", 1); } else be_put(be, b, "xyzwv", i); }
    unsigned on = 1; if(k == L_STDIO_NODOTS) evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &on, "stdio");
    *path = be_path("/t");
    return be_vfs(be);
  }
  be_up(BE_MEM, true);
  if(k <= L_TARR) {
    tar_start(&im);
    tar_add(&im, "t/", 0, '5', NULL, 0, 1); tar_add(&im, "u/z", 0, '0', "z", 1, 1);
    for(int i = 0; i < 5; i++) if(set >> i & 1) { char b[32]; sprintf(b, isdirn(pool[i]) ? "t/%s/" : "t/%s", pool[i]); tar_add(&im, b, 0, isdirn(pool[i]) ? '5' : '0', "xyzwv", isdirn(pool[i]) ? 0 : i, 1); }
    tar_end(&im, 2);
  } else {
    RomNode nd[12] = {{.name = ".", .type = RN_DIR, .parent = -1}, {.name = "t", .type = RN_DIR, .parent = 0}, {.name = "u", .type = RN_DIR, .parent = 0}, {.name = "z", .type = RN_FILE, .parent = 2, .data = "z", .size = 1}};
    int n = 4; for(int i = 0; i < 5; i++) if(set >> i & 1) nd[n++] = (RomNode){.name = pool[i], .type = isdirn(pool[i]) ? RN_DIR : RN_FILE, .parent = 1, .data = "xyzwv", .size = isdirn(pool[i]) ? 0 : i};
    rom_build(&im, nd, n, "v");
  }
  EvfsFile *f = NULL; uint8_t *p = NULL; int st = EVFS_OK;
  if(k == L_TAR || k == L_ROM) { mem_put(&be_mem, "/img", im.d, im.n); MC_CHECK(evfs_open_ex("/img", &f, EVFS_READ, "be") == EVFS_OK, "image"); }
  else p = (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n);
  switch(k) { case L_TAR: st = evfs_register_tar_fs("ro", f, false); break; case L_TARR: st = evfs_register_tar_rsrc_fs("ro", p, (size_t)im.n, false); break;
    case L_ROM: st = evfs_register_romfs("ro", f, false); break; default: st = evfs_register_rsrc_romfs("ro", p, (size_t)im.n, false); }
  MC_CHECK(st == EVFS_OK, "mounting %s fails: %s", ln[k], EN(st));
  return "ro";
}
static bool wild(const char *pat, const char *s) {   /* definition for the few patterns used here */
  if(*pat == 0) return !*s;
  if(*pat == '*') { for(;; s++) { if(wild(pat + 1, s)) return true; if(!*s) return false; } }
  if(!*s) return false;
  if(*pat == '?') return wild(pat + 1, s + 1);
  if(!strncmp(pat, "[!a]", 4)) return *s != 'a' && wild(pat + 4, s + 1);
  return *pat == *s && wild(pat + 1, s + 1);
}
static void s_list(void) {
  int k = mc_choose(NL); unsigned set = (unsigned)mc_choose(32); int depth = mc_tier(3, 5);
  int rev = k <= L_TRACE ? mc_choose(3) : 0;
  mc_alloc_track(true);
  const char *path, *vfs = build(k, set, &path);
  be_mem.reverse = rev == 1; be_mem.shuffle = rev == 2 ? 2 : 0;
  int live0 = mc_alloc_live();
  EvfsDir *d = NULL; int st = evfs_open_dir_ex(path, &d, vfs);
  if(st == EVFS_ERR_NO_SUPPORT && !d && (k == L_TAR || k == L_TARR)) { mc_op("%s has no directories", ln[k]); return; }
  MC_CHECK(st == EVFS_OK && d, "%s: opening the directory fails: %s", ln[k], EN(st));
  /* one full pass: the reference order */
  char order[16][32]; bool dirb[16]; int n = 0; unsigned seen = 0; EvfsInfo inf;
  while((st = evfs_dir_read(d, &inf)) == EVFS_OK) {
    MC_CHECK(n < 12 && inf.name && strlen(inf.name) < 30, "%s: listing does not end", ln[k]);
    strcpy(order[n], inf.name); dirb[n] = !!(inf.type & EVFS_FILE_DIR);
    if(strcmp(inf.name, ".") && strcmp(inf.name, "..")) {
      int i; for(i = 0; i < 5; i++) if(!strcmp(inf.name, pool[i])) break;
      MC_CHECK(i < 5 && (set >> i & 1), "%s: '%s' is listed but does not exist", ln[k], mc_str(inf.name));
      MC_CHECK(!(seen >> i & 1), "%s: '%s' is listed twice", ln[k], inf.name);
      MC_CHECK(dirb[n] == isdirn(inf.name), "%s: '%s' is listed with the wrong type", ln[k], inf.name);
      seen |= 1u << i;
    } else MC_CHECK(k != L_STDIO_NODOTS, "dots are listed although switched off");
    n++;
  }
  MC_CHECK(st == EVFS_DONE, "%s: listing ends with %s", ln[k], EN(st));
  MC_CHECK(seen == set, "%s: entries are missing from the listing", ln[k]);
  mc_op("%s: %d entries", ln[k], n);
  int pos = n;
  for(int s = 0; s < depth; s++) {
    int op = mc_choose(2 + 7 + 1);
    if(op == 9) break;
    if(op == 0) { mc_op("rewind"); MC_CHECK(evfs_dir_rewind(d) == EVFS_OK, "%s: rewind fails", ln[k]); pos = 0; continue; }
    const char *pat = op == 1 ? NULL : pats[op - 2];
    int want = pos; if(pat) while(want < n && !wild(pat, order[want])) want++;
    memset(&inf, 0xA5, sizeof inf);
    st = pat ? evfs_dir_find(d, fence_str(&fp, pat), &inf) : evfs_dir_read(d, &inf);
    mc_op("%s %s -> %s", pat ? "find" : "read", pat ? pat : "", st == EVFS_OK ? mc_str(inf.name) : EN(st));
    if(want == n) MC_CHECK(st == EVFS_DONE, "%s: %s gives '%s' (%s) where the listing ends", ln[k], pat ? pat : "read", st == EVFS_OK ? mc_str(inf.name) : "", EN(st));
    else { MC_CHECK(st == EVFS_OK && inf.name && !strcmp(inf.name, order[want]), "%s: %s gives '%s' (%s) instead of '%s'", ln[k], pat ? pat : "read", st == EVFS_OK ? mc_str(inf.name) : "", EN(st), order[want]); MC_CHECK(!!(inf.type & EVFS_FILE_DIR) == dirb[want], "%s: '%s' has the wrong type", ln[k], inf.name); }
    pos = want == n ? n : want + 1;
    fence_off(&fp);
    mc_state(mc_hash(MC_HASH0 + (unsigned)(k * 64 + (int)set), &pos, sizeof pos));
  }
  MC_CHECK(evfs_dir_close(d) == EVFS_OK, "%s: closing the directory fails", ln[k]);
  MC_CHECK(mc_alloc_live() == live0 && be_mem.open_dirs == 0, "%s: closing the directory leaves something open", ln[k]);
  if(n > 2) mc_sample("%s: %d entries, then %d read/find/rewind steps", ln[k], n, depth);
}
/* two iterators over the same directory do not disturb each other */
static void s_two(void) {
  int k = mc_choose(NL); unsigned set = (unsigned[]){ 1, 10, 29, 31 }[mc_choose(4)];
  const char *path, *vfs = build(k, set, &path);
  EvfsDir *d[2] = { NULL, NULL }; char order[16][32]; int n = 0, pos[2] = { 0, 0 }; EvfsInfo inf;
  if(evfs_open_dir_ex(path, &d[0], vfs) != EVFS_OK) { mc_op("no directories"); return; }
  while(n < 12 && evfs_dir_read(d[0], &inf) == EVFS_OK) strcpy(order[n++], inf.name);
  evfs_dir_close(d[0]);
  MC_CHECK(evfs_open_dir_ex(path, &d[0], vfs) == EVFS_OK && evfs_open_dir_ex(path, &d[1], vfs) == EVFS_OK, "%s: two iterators", ln[k]);
  for(int s = 0; s < mc_tier(5, 7); s++) {
    int w = mc_choose(2);
    int st = evfs_dir_read(d[w], &inf);
    mc_op("iterator %d -> %s", w, st == EVFS_OK ? mc_str(inf.name) : EN(st));
    if(pos[w] < n) MC_CHECK(st == EVFS_OK && !strcmp(inf.name, order[pos[w]++]), "%s: iterators disturb each other", ln[k]); else MC_CHECK(st == EVFS_DONE, "%s: iterators disturb each other at the end", ln[k]);
    if(mc_choose(2)) { MC_CHECK(evfs_dir_rewind(d[w]) == EVFS_OK, "rewind"); pos[w] = 0; }
  }
  evfs_dir_close(d[0]); evfs_dir_close(d[1]);
}

/* ---------- path creation ---------- */
enum { M_MEM, M_DOS, M_JAIL, M_TRACE, M_STDIO, M_FAT, NM };
static const char *mn[] = { "memory", "drive-letter memory", "jail", "trace", "host", "FAT" };
static char tree[64][96]; static bool tdir[64]; static int tn;   /* reference tree: canonical "/a/b" */
static int tfind(const char *p) { for(int i = 0; i < tn; i++) if(!strcmp(tree[i], p)) return i; return -1; }
static void tadd(const char *p, bool dir) { strcpy(tree[tn], p); tdir[tn++] = dir; }

static void s_make(void) {
  static const char *segs[] = { "a", "f", "n", "m" };   /* existing directory with /a/a, /a/f; a file; missing ones */
  static const char *seps[] = { "/", "//", "\\" };
  int k = mc_choose(NM), ns = mc_choose(mc_tier(4, 5)), lead = mc_choose(3), form = mc_choose(3);  /* form: string, range, range inside other text */
  char path[96] = "", raw[96], canon[96] = "";
  bool rel = lead == 0;
  mc_alloc_track(true);
  const char *vfs = "be", *pre = "";
  int be = k == M_STDIO ? BE_STDIO : k == M_FAT ? BE_FAT : BE_MEM;
  if(k == M_DOS) { mem_init(&be_mem, "be"); be_mem.dos = true; be_root[0] = 0; evfs_register(&be_mem.vfs, true); pre = "C:"; }
  else be_up(be, true);
  char root[64]; strcpy(root, k == M_JAIL ? "/j" : "");
  if(be == BE_MEM) {
    char b[128]; const char *dv = k == M_DOS ? "C:" : "";
#define MP(x) (snprintf(b, sizeof b, "%s%s%s", dv, root, x), b)
    if(k == M_JAIL) mem_mkdir(&be_mem, "/j");
    if(k == M_DOS && !mem_find(&be_mem, "C:/")) mem_mkdir(&be_mem, "C:/");
    mem_mkdir(&be_mem, MP("/a")); mem_mkdir(&be_mem, MP("/a/a")); mem_put(&be_mem, MP("/f"), "x", 1); mem_put(&be_mem, MP("/a/f"), "x", 1); mem_mkdir(&be_mem, MP("/w"));
  } else { be_mkdir(be, "/a"); be_mkdir(be, "/a/a"); be_put(be, "/f", "x", 1); be_put(be, "/a/f", "x", 1); be_mkdir(be, "/w"); }
  vfs = be_vfs(be);
  if(k == M_JAIL) { MC_CHECK(evfs_register_jail("w", "be", "/j", false) == EVFS_OK, "jail"); vfs = "w"; }
  if(k == M_TRACE) { MC_CHECK(evfs_register_trace("w", "be", rep_null, NULL, false) == EVFS_OK, "trace"); vfs = "w"; }
  tn = 0; tadd("", true); tadd("/a", true); tadd("/a/a", true); tadd("/f", false); tadd("/a/f", false); tadd("/w", true);
  int wcwd = rel ? mc_choose(2) : 0;
  char cw[700]; snprintf(cw, sizeof cw, "%s%s/%s", k == M_STDIO ? be_root : "", pre, wcwd ? "w" : "");
  if(rel) MC_CHECK(evfs_set_cur_dir_ex(cw, vfs) == EVFS_OK, "%s: changing to '%s' fails", mn[k], cw);
  if(rel && wcwd) strcpy(canon, "/w");
  /* the path as written, and what it should do to the tree */
  if(!rel) { strcat(path, pre); strcat(path, lead == 1 ? "/" : "//"); }
  bool fail = false;
  for(int i = 0; i < ns; i++) {
    const char *s = segs[mc_choose(4)];
    if(i) strcat(path, seps[mc_choose(3)]);
    strcat(path, s); strcat(canon, "/"); strcat(canon, s);
    int t = tfind(canon);
    if(fail) continue;
    if(t >= 0 && !tdir[t]) fail = true;
    else if(t < 0) tadd(canon, true);
  }
  static const char *tails[] = { "", "/", "//" };
  if(ns) strcat(path, tails[mc_choose(3)]);
  snprintf(raw, sizeof raw, "%s", path);
  char full[700]; snprintf(full, sizeof full, "%s%s", !rel && k == M_STDIO ? be_root : "", path);
  if(!rel && k == M_STDIO && lead == 2) { }  /* the scratch directory, then doubled separators */
  int live = mc_alloc_live();
  int st; int fl = (int)strlen(full);
  if(form == 0) st = evfs_make_path_ex(fence_str(&fp, full), vfs);
  else {
    char b[800]; memcpy(b, full, (size_t)fl); strcpy(b + fl, "zz/y");
    char *p = form == 1 ? fence_put(&fp, full, (size_t)fl + 1) : fence_put(&fp, b, (size_t)fl + 5);
    StringRange r; range_init(&r, p, fl + (form == 1 ? 1 : 0));
    StringRange r0 = r;
    st = evfs_make_path_range_ex(&r, vfs);
    MC_CHECK(r.start == r0.start && r.end == r0.end, "%s: the caller's range is changed by making '%s'", mn[k], raw);
    MC_CHECK(!memcmp(p, form == 1 ? full : b, (size_t)fl), "the path is changed");
  }
  mc_op("%s: make path '%s' (form %d, cwd %s) -> %s", mn[k], mc_str(raw), form, rel ? wcwd ? "/w" : "/" : "-", EN(st));
  MC_CHECK(mc_alloc_live() == live, "making a path leaks memory");
  if(fail) MC_CHECK(st < 0, "%s: making '%s' through a file reports success", mn[k], mc_str(raw));
  else MC_CHECK(st == EVFS_OK, "%s: making '%s' fails: %s", mn[k], mc_str(raw), EN(st));
  /* compare the tree, entry by entry and by count */
  mc_alloc_track(false);
  int count[64] = { 0 };
  for(int i = 0; i < tn; i++) {
    char q[800]; snprintf(q, sizeof q, "%s%s%s", k == M_STDIO ? be_root : "", pre, i ? tree[i] : "/");
    EvfsInfo inf;
    if(i) { int e = evfs_stat_ex(q, &inf, vfs); MC_CHECK(e == EVFS_OK && !!(inf.type & EVFS_FILE_DIR) == tdir[i], "%s: after making '%s', '%s' %s", mn[k], mc_str(raw), tree[i], e == EVFS_OK ? "has the wrong type" : "is missing"); }
    if(!tdir[i]) continue;
    for(int j = 1; j < tn; j++) { const char *sl = strrchr(tree[j], '/'); if((size_t)(sl - tree[j]) == strlen(tree[i]) && !strncmp(tree[j], tree[i], strlen(tree[i]))) count[i]++; }
    EvfsDir *d; int n = 0;
    MC_CHECK(evfs_open_dir_ex(q, &d, vfs) == EVFS_OK, "%s: open '%s'", mn[k], q);
    while(n < 40 && evfs_dir_read(d, &inf) == EVFS_OK) if(strcmp(inf.name, ".") && strcmp(inf.name, "..")) n++;
    evfs_dir_close(d);
    MC_CHECK(n == count[i], "%s: after making '%s', '%s' has %d entries instead of %d", mn[k], mc_str(raw), i ? tree[i] : "/", n, count[i]);
  }
  if(ns > 2) mc_sample("%s: make path '%s'", mn[k], raw);
  mc_state(mc_hash(MC_HASH0 + (unsigned)k, canon, strlen(canon)) + (unsigned)ns);
}
/* long paths and many components */
static void s_make_long(void) {
  int n = 1 + mc_choose(40), w = 1 + mc_choose(5), form = mc_choose(2);
  be_up(BE_MEM, true);
  char path[600] = "";
  for(int i = 0; i < n; i++) { strcat(path, "/"); for(int j = 0; j < w; j++) strcat(path, "q"); }
  mc_op("%d components of %d", n, w);
  char *p = form ? fence_put(&fp, path, strlen(path)) : fence_str(&fp, path);
  StringRange r; range_init(&r, p, strlen(path));
  int st = form ? evfs_make_path_range(&r) : evfs_make_path(p);
  MC_CHECK(st == EVFS_OK, "making a path of %d components fails: %s", n, EN(st));
  for(char *c = path + 1;; c++) if(*c == '/' || !*c) { char s = *c; *c = 0; MemNode *d = mem_find(&be_mem, path); MC_CHECK(d && d->dir, "'%s' is missing", path); *c = s; if(!s) break; }
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P22");
  evfs_init();
  mc_set_cleanup(clean);
  mc_note("All 32 subsets of 5 entries on 10 back ends and layers; every sequence of %d read/find/rewind steps over 7 patterns; two interleaved iterators", mc_tier(3, 5));
  mc_note("make_path: every path of up to %d components over {existing directory, file, 2 missing names}, every separator variant, absolute and relative, as string, range and sub-range, on 6 back ends and layers; up to 40 components", mc_tier(3, 4));
  mc_explore("list", s_list);
  mc_explore("two", s_two);
  mc_explore("make", s_make);
  mc_explore("make-long", s_make_long);
  return mc_main_finish();
}
