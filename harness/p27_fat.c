/* P27: FAT volumes against the flag rules and a plain file tree, across remounts. */
#include <ctype.h>
#include "fsmodel.h"
#include <time.h>

/* two mounted volumes do not see each other */
static void s_volumes(void) {
  static Tree t[2]; int k = mc_tier(4, 5);
  static const char *pool[] = { "/a", "/d", "/d/b" };
  static const char *vn[] = { "other", "be" };      /* volume 0, volume 1 */
  fm_be = BE_FAT1; be_up(BE_FAT1, false); tr_init(&t[0]); tr_init(&t[1]);
  EvfsFile *h[2] = { NULL, NULL };
  for(int s = 0; s < k; s++) {
    int op = mc_choose(6); if(op == 0) break; int v = mc_choose(2), i = op == 4 || op == 5 ? 0 : mc_choose(3), st; const char *p = pool[i];
    TNode *x = tr_get(&t[v], p); bool par = tr_parent_ok(&t[v], p); char data[16]; int n = sprintf(data, "v%ds%d", v, s);
    switch(op) {
      case 1: { EvfsFile *f; st = evfs_open_ex(p, &f, EVFS_WRITE | EVFS_OVERWRITE, vn[v]); mc_op("volume %d: write %s -> %s", v, p, EN(st));
        bool ok = par && (!x || !x->dir); MC_CHECK((st == EVFS_OK) == ok, "creating a file on volume %d %s", v, ok ? "fails" : "succeeds"); if(!ok) break;
        MC_CHECK(evfs_file_write(f, data, (size_t)n) == n && evfs_file_close(f) == EVFS_OK, "writing fails"); if(!x) x = tr_add(&t[v], p, false); x->n = 0; tr_set(x, 0, data, n); break; }
      case 2: st = evfs_make_dir_ex(p, vn[v]); mc_op("volume %d: make_dir %s -> %s", v, p, EN(st)); MC_CHECK((st == EVFS_OK) == (!x && par), "make_dir on volume %d gives %s", v, EN(st)); if(st == EVFS_OK) tr_add(&t[v], p, true); break;
      case 3: st = evfs_delete_ex(p, vn[v]); mc_op("volume %d: delete %s -> %s", v, p, EN(st)); { bool ok = x && (!x->dir || tr_empty(&t[v], p)); if(i == 0 && h[v]) { mc_prune(); } MC_CHECK((st == EVFS_OK) == ok, "delete on volume %d gives %s", v, EN(st)); if(ok) tr_del(&t[v], p); } break;
      case 4:   /* keep a file open on each volume and append to it */
        if(!h[v]) { st = evfs_open_ex("/log", &h[v], EVFS_WRITE | EVFS_APPEND, vn[v]); mc_op("volume %d: open log -> %s", v, EN(st)); MC_CHECK(st == EVFS_OK, "opening a log on volume %d fails", v); if(!tr_get(&t[v], "/log")) tr_add(&t[v], "/log", false); break; }
        MC_CHECK(evfs_file_write(h[v], data, (size_t)n) == n, "appending fails"); mc_op("volume %d: append", v); x = tr_get(&t[v], "/log"); tr_set(x, x->n, data, n); break;
      case 5: { x = tr_get(&t[v], "/d"); st = evfs_set_cur_dir_ex("/d", vn[v]); mc_op("volume %d: set_cur_dir -> %s", v, EN(st)); MC_CHECK((st == EVFS_OK) == (x && x->dir), "set_cur_dir on volume %d gives %s", v, EN(st));
        if(st == EVFS_OK) { EvfsInfo inf; TNode *b = tr_get(&t[v], "/d/b"); int s2 = evfs_stat_ex("b", &inf, vn[v]); MC_CHECK((s2 == EVFS_OK) == !!b, "a relative path on volume %d gives %s", v, EN(s2)); char c[64]; StringRange r; range_init(&r, c, 64); MC_CHECK(evfs_get_cur_dir_ex(&r, vn[v]) == EVFS_OK && c[0] == '0' + v && !strcmp(c + 2, "/d"), "the current directory of volume %d is '%s'", v, mc_str(c)); evfs_set_cur_dir_ex("/", vn[v]); } break; }
    }
    mc_state(tr_hash(&t[0]) * 3 + tr_hash(&t[1]));
  }
  for(int v = 0; v < 2; v++) if(h[v]) { MC_CHECK(evfs_file_close(h[v]) == EVFS_OK, "close"); h[v] = NULL; }
  for(int round = 0; round < 2; round++) {
    for(int v = 0; v < 2; v++) for(int i = 0; i < 4; i++) {
      const char *p = i < 3 ? pool[i] : "/log"; EvfsInfo inf; TNode *x = tr_get(&t[v], p); char b[64]; EvfsFile *f;
      int st = evfs_stat_ex(p, &inf, vn[v]);
      MC_CHECK((st == EVFS_OK) == !!x, "'%s' on volume %d: %s%s", p, v, EN(st), round ? " after remounting" : "");
      if(!x) continue;
      MC_CHECK(!!(inf.type & EVFS_FILE_DIR) == x->dir, "'%s' on volume %d has the wrong type", p, v);
      if(!x->dir) { MC_CHECK(evfs_open_ex(p, &f, EVFS_READ, vn[v]) == EVFS_OK, "open"); int n = (int)evfs_file_read(f, b, 64); evfs_file_close(f); MC_CHECK(n == x->n && (!n || !memcmp(b, x->d, (size_t)n)), "'%s' on volume %d has the wrong contents", p, v); }
    }
    fm_remount();
  }
  tr_init(&t[0]); tr_init(&t[1]);
}
/* filling the volume: short writes say so, nothing else is damaged, space comes back */
static void s_full(void) {
  static const int chunk[] = { 511, 512, 3000, 20000 }; static unsigned char buf[20000], rb[20000];
  int c = mc_choose(4), files = 1 + mc_choose(3), sync = mc_choose(2), two = mc_choose(2);
  fm_up(two ? BE_FAT1 : BE_FAT);
  EvfsFile *f[3]; int len[3] = { 0 }; char name[16];
  fm_file("/keep", "keep", 4);
  for(int i = 0; i < files; i++) { sprintf(name, "/f%d", i); MC_CHECK(evfs_open_ex(name, &f[i], EVFS_RDWR | EVFS_OVERWRITE, V()) == EVFS_OK, "open"); }
  mc_op("%d files, chunks of %d", files, chunk[c]);
  bool full = false; int steps = 0;
  while(!full) for(int i = 0; i < files && !full; i++) {
    for(int j = 0; j < chunk[c]; j++) buf[j] = (unsigned char)(i * 50 + (len[i] + j) % 47);
    int n = (int)evfs_file_write(f[i], buf, (size_t)chunk[c]);
    MC_CHECK(n <= chunk[c], "a write of %d gives %d", chunk[c], n);
    if(n != chunk[c]) full = true;
    if(n > 0) len[i] += n;
    MC_CHECK(++steps < 1000, "the volume never gets full");
    mc_tick();
    if(sync) MC_CHECK(evfs_file_sync(f[i]) == EVFS_OK, "sync fails");
  }
  int total = 0; for(int i = 0; i < files; i++) total += len[i];
  MC_CHECK(total > 80000 && total < FAT_SIZE, "the volume is full after %d bytes", total);
  for(int i = 0; i < files; i++) MC_CHECK(evfs_file_close(f[i]) == EVFS_OK, "close fails");
  for(int round = 0; round < 2; round++) {
    for(int i = 0; i < files; i++) {
      sprintf(name, "/f%d", i); EvfsFile *g; MC_CHECK(evfs_open_ex(name, &g, EVFS_READ, V()) == EVFS_OK, "open");
      MC_CHECK(evfs_file_size(g) == len[i], "%s has %d bytes instead of %d", name, (int)evfs_file_size(g), len[i]);
      int at = 0, n; while((n = (int)evfs_file_read(g, rb, sizeof rb)) > 0) { for(int j = 0; j < n; j++) MC_CHECK(rb[j] == (unsigned char)(i * 50 + (at + j) % 47), "%s is damaged at %d of %d", name, at + j, len[i]); at += n; }
      MC_CHECK(at == len[i], "%s ends at %d of %d", name, at, len[i]);
      evfs_file_close(g);
    }
    unsigned char kb[8]; MC_CHECK(raw_read("/keep", kb, 8) == 4 && !memcmp(kb, "keep", 4), "another file is damaged");
    fm_remount();
  }
  for(int i = 0; i < files; i++) { sprintf(name, "/f%d", i); MC_CHECK(evfs_delete_ex(name, V()) == EVFS_OK, "delete"); }
  be_put(fm_be, "/again", buf, 20000);
  MC_CHECK(raw_read("/again", rb, sizeof rb) == 20000 && !memcmp(rb, buf, 20000), "space is not usable again");
}
/* many entries: directories grow over cluster boundaries; long names */
static void s_many(void) {
  int n = 1 + mc_choose(40), len = mc_choose(4), gap = mc_choose(3); fm_up(BE_FAT);
  fm_dir("/sub"); char p[64]; bool there[64] = { false };
  static const char *stem[] = { "f", "Mixed.Case", "a_long_file_name_of_more", "UPPER_and_lower.with.dots" };
  for(int i = 0; i < n; i++) { snprintf(p, sizeof p, "/sub/%s%d", stem[len], i); EvfsFile *f; int st = evfs_open_ex(p, &f, EVFS_WRITE | EVFS_NO_EXIST, V()); MC_CHECK(st == EVFS_OK, "creating entry %d fails: %s", i, EN(st)); char d[8]; int l = sprintf(d, "%d", i); MC_CHECK(evfs_file_write(f, d, (size_t)l) == l && evfs_file_close(f) == EVFS_OK, "write"); there[i] = true; }
  if(gap) for(int i = 0; i < n; i += gap + 1) { snprintf(p, sizeof p, "/sub/%s%d", stem[len], i); MC_CHECK(evfs_delete_ex(p, V()) == EVFS_OK, "delete"); there[i] = false; }
  if(gap == 2 && n > 3) { snprintf(p, sizeof p, "/sub/%s%d", stem[len], 0); EvfsFile *f; MC_CHECK(evfs_open_ex(p, &f, EVFS_WRITE | EVFS_NO_EXIST, V()) == EVFS_OK && evfs_file_write(f, "0", 1) == 1 && evfs_file_close(f) == EVFS_OK, "creating in a freed slot fails"); there[0] = true; }
  mc_op("%d entries '%s..', gap %d", n, stem[len], gap);
  for(int round = 0; round < 2; round++) {
    EvfsDir *d; EvfsInfo inf; int cnt = 0, want = 0; for(int i = 0; i < n; i++) want += there[i];
    MC_CHECK(evfs_open_dir_ex("/sub", &d, V()) == EVFS_OK, "open_dir");
    int st; while((st = evfs_dir_read(d, &inf)) == EVFS_OK) { int i = 0; MC_CHECK(!strncmp(inf.name, stem[len], strlen(stem[len])) && sscanf(inf.name + strlen(stem[len]), "%d", &i) == 1 && i < n && there[i], "'%s' is listed", mc_str(inf.name)); MC_CHECK(inf.size == (i > 9 ? 2 : 1), "'%s' has size %d", inf.name, (int)inf.size); cnt++; MC_CHECK(cnt <= n, "endless listing"); }
    MC_CHECK(st == EVFS_DONE && cnt == want, "%d entries are listed instead of %d", cnt, want);
    evfs_dir_close(d);
    for(int i = 0; i < n; i++) { snprintf(p, sizeof p, "/sub/%s%d", stem[len], i); unsigned char b[8]; char e[8]; sprintf(e, "%d", i); int r = raw_read(p, b, 8); MC_CHECK(there[i] ? r == (int)strlen(e) && !memcmp(b, e, (size_t)r) : r == -1, "'%s' gives %d", p, r); }
    fm_remount();
  }
}
/* times in listings come back as they were stored */
static DWORD f_time; static uint64_t times;
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P27");
  evfs_init(); (void)f_time; (void)times;
  mc_set_cleanup(fm_clean);
  fm_nbe = 2; fm_bes[0] = BE_FAT; fm_bes[1] = BE_FAT1;
  mc_note("Freshly formatted FAT volumes of %d bytes on an image in memory, as volume 0 and as volume 1 with another volume mounted; every history ends with unmounting, mounting again and a comparison of every file and directory", FAT_SIZE);
  mc_note("All 64 open-flag combinations x 6 targets x 6 uses; data: every sequence of %d operations out of 24 with small sizes, %d around sector and cluster boundaries; bytes in a gap left by seeking past the end are not compared", mc_tier(3, 4), mc_tier(2, 3));
  mc_note("Names: every sequence of %d operations over 5 absolute and 4 relative paths; two volumes: every sequence of %d operations on both; filling the volume; directories of up to 40 entries with short, long and mixed case names", mc_tier(3, 4), mc_tier(4, 5));
  mc_note("opening with all 64 flag combinations files of every size up to 23 bytes and sizes around powers of two");
  mc_explore("flags", s_flags);
  mc_explore("sizes", s_sizes);
  mc_explore("data", s_data);
  mc_explore("names", s_names);
  mc_explore("volumes", s_volumes);
  mc_explore("full", s_full);
  mc_explore("many", s_many);
  return mc_main_finish();
}
