/* P13: tar archives enumerated member by member, compared with what was archived. */
#include "common.h"
#include "images.h"
#include "evfs/tar_iter.h"
#include "evfs/tar_iter_rsrc.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"

static Mem g_m;
static Img im;
static Fence fimg;
typedef struct { char name[300], raw[101], prefix[156]; int type, size, off; unsigned mtime; } Member;
static Member mem_[8]; static int nmem;
static unsigned char pat[4096];

static const char N100[] = "n/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.txt"; /* fills the field, no terminator */
static const char N99[]  = "n/bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb.txt";
typedef struct { const char *raw, *prefix, *name; char type; } Menu;
static const Menu menu[] = {
  {"a.txt", 0, "/a.txt", '0'}, {"d/", 0, "/d", '5'}, {"d/f", 0, "/d/f", '0'}, {"./x.y", 0, "/x.y", '0'}, {"/abs", 0, "/abs", '0'},
  {N100, 0, 0, '0'}, {N99, 0, 0, '0'}, {"tail", "pre/fix", "/pre/fix/tail", '0'}, {"sl", 0, 0, '2'}, {"hl", 0, 0, '1'},
  {"./", 0, 0, '5'}, {"d/e/", 0, "/d/e", '5'}, {"d/e/ff", 0, "/d/e/ff", '0'}, {"pax", 0, 0, 'x'}, {"..a", 0, "/..a", '0'}, {".h", 0, "/.h", '0'}, {"dd/", "p", "/p/dd", '5'},
  {"aa", 0, "/aa", '0'}, {"a", 0, "/a", '0'},
};
#define NMENU (int)(sizeof menu / sizeof *menu)
static const int sizes[] = {0, 1, 511, 512, 513, 1300};

static void add(int k, int size) {
  const Menu *u = &menu[k]; Member *m = &mem_[nmem];
  memset(m, 0, sizeof *m);
  strcpy(m->raw, u->raw); if(u->prefix) strcpy(m->prefix, u->prefix);
  m->type = u->type; m->size = u->type == '5' || u->type == '2' || u->type == '1' ? 0 : size; m->mtime = 1000u + (unsigned)nmem * 7;
  if(u->name) strcpy(m->name, u->name); else if(u->type == '0') { m->name[0] = '/'; strcpy(m->name + 1, u->raw); }
  m->off = tar_add(&im, u->raw, u->prefix, u->type, pat + nmem * 401, m->size, m->mtime);
  nmem++;
}
static const unsigned char *data_of(int i) { return pat + i * 401; }

static uint8_t *place(void) { return (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n); }

static int in_mem;
static void mount(int mem) {
  in_mem = mem;
  if(mem) { MC_CHECK(evfs_register_tar_rsrc_fs("tar", place(), (size_t)im.n, true) == EVFS_OK, "cannot register a well-formed archive in memory"); return; }
  mem_put(&g_m, "/x.tar", im.d, im.n);
  EvfsFile *f; MC_CHECK(evfs_open_ex("/x.tar", &f, EVFS_READ, "mem") == EVFS_OK, "cannot open the archive");
  int st = evfs_register_tar_fs("tar", f, true);
  MC_CHECK(st == EVFS_OK, "cannot register a well-formed archive from a file: %s", EN(st));
}

static void variant(const char *name, int v, char *o) { /* spellings that all mean `name` in the current directory / */
  switch(v) {
    case 0: strcpy(o, name); break;
    case 1: strcpy(o, name + 1); break;
    case 2: sprintf(o, "/.//%s", name + 1); break;
    case 3: sprintf(o, "/zz/..%s", name); break;
    case 4: sprintf(o, "../%s/.", name + 1); break;
    case 5: { strcpy(o, name); for(char *p = o; *p; p++) if(*p == '/') *p = '\\'; break; }
    case 6: sprintf(o, "%s/", name); break;
  }
}

static void check_file(int i, const char *spell, int chunk) {
  Member *m = &mem_[i];
  EvfsInfo inf; int st = evfs_stat(spell, &inf);
  MC_CHECK(st == EVFS_OK, "stat('%s') of an archived entry fails: %s", mc_str(spell), EN(st));
  if(m->type == '5') { MC_CHECK(inf.type & EVFS_FILE_DIR, "archived directory '%s' is not reported as a directory", mc_str(spell)); MC_CHECK(evfs_existing_dir(spell) && !evfs_existing_file(spell), "existence tests of directory '%s' disagree", mc_str(spell)); }
  else MC_CHECK(inf.type == 0 && inf.size == m->size, "stat('%s') gives type %d size %d instead of a file of %d", mc_str(spell), (int)inf.type, (int)inf.size, m->size);
  EvfsFile *f = NULL;
  st = evfs_open(spell, &f, EVFS_READ);
  if(m->type == '5') { MC_CHECK(st < 0, "a directory '%s' can be opened as a file", mc_str(spell)); return; }
  MC_CHECK(st == EVFS_OK, "archived file '%s' cannot be opened: %s", mc_str(spell), EN(st));
  MC_CHECK(evfs_file_size(f) == m->size, "'%s' has size %d instead of %d", mc_str(spell), (int)evfs_file_size(f), m->size);
  int pos = 0; unsigned char b[1400];
  for(;;) {
    memset(b, 0xEE, sizeof b);
    ptrdiff_t r = evfs_file_read(f, b, (size_t)chunk);
    int want = m->size - pos < chunk ? m->size - pos : chunk;
    MC_CHECK(r == want, "read of %d bytes at %d of '%s' (size %d) gives %d", chunk, pos, mc_str(spell), m->size, (int)r);
    MC_CHECK(!memcmp(b, data_of(i) + pos, (size_t)want), "'%s' has wrong bytes at %d", mc_str(spell), pos);
    for(int k = want; k < (int)sizeof b; k++) if(b[k] != 0xEE) mc_fail("read of '%s' writes past the bytes it returns", mc_str(spell));
    pos += want;
    MC_CHECK(evfs_file_tell(f) == pos && evfs_file_eof(f) == (pos == m->size), "position or end-of-file of '%s' wrong at %d", mc_str(spell), pos);
    if(r == 0) break;
  }
  uint8_t *a = NULL; st = evfs_file_ctrl(f, EVFS_CMD_GET_RSRC_ADDR, &a);
  if(in_mem) MC_CHECK(!m->size || (st == EVFS_OK && !memcmp(a, data_of(i), (size_t)m->size)), "'%s' has a wrong resource address", mc_str(spell));
  else MC_CHECK(st != EVFS_OK, "a resource address is given for '%s', which is not in memory", mc_str(spell));
  evfs_file_close(f);
}

static void missing(const char *p) {
  EvfsInfo inf; EvfsFile *f = NULL;
  int st = evfs_stat(p, &inf); MC_CHECK(st < 0, "stat of '%s', which is not archived, succeeds", mc_str(p));
  st = evfs_open(p, &f, EVFS_READ); MC_CHECK(st < 0, "'%s', which is not archived, can be opened", mc_str(p));
  MC_CHECK(!evfs_existing_file(p) && !evfs_existing_dir(p), "'%s', which is not archived, is said to exist", mc_str(p));
}
static bool known(const char *abs) { for(int i = 0; i < nmem; i++) if(mem_[i].name[0] && !strcmp(mem_[i].name, abs)) return true; return !strcmp(abs, "/"); }

static void check_iter(int mem) {
  TarFileIterator fi; TarRsrcIterator ri; EvfsFile *f = NULL;
  if(mem) tar_rsrc_iter_init(&ri, place(), (size_t)im.n);
  else { mem_put(&g_m, "/it.tar", im.d, im.n); MC_CHECK(evfs_open_ex("/it.tar", &f, EVFS_READ, "mem") == EVFS_OK, "open"); tar_iter_init(&fi, f); }
  for(int pass = 0; pass < 2; pass++) {
    bool ok = mem ? tar_rsrc_iter_begin(&ri) : tar_iter_begin(&fi);
    for(int i = 0; i < nmem; i++) {
      mc_tick();
      MC_CHECK(ok, "iteration ends before member %d of %d", i, nmem);
      TarHeader *h = mem ? ri.cur_header : &fi.cur_header;
      long off = mem ? (long)ri.header_offset : (long)fi.header_offset, size = mem ? (long)ri.file_size : (long)fi.file_size;
      long data = mem ? (long)tar_rsrc_iter_file_offset(&ri) : (long)tar_iter_file_offset(&fi);
      MC_CHECK(off == mem_[i].off && data == off + 512, "member %d: header offset %ld, data offset %ld instead of %d", i, off, data, mem_[i].off);
      MC_CHECK(size == mem_[i].size, "member %d: size %ld instead of %d", i, size, mem_[i].size);
      MC_CHECK(!memcmp(h, im.d + off, TAR_HEADER_SIZE), "member %d: wrong header contents", i);
      if(pass == 1 && (mem ? !tar_rsrc_iter_reset(&ri) : !tar_iter_reset(&fi))) mc_fail("cannot return to member %d", i);
      ok = mem ? tar_rsrc_iter_next(&ri) : tar_iter_next(&fi);
    }
    MC_CHECK(!ok, "iteration continues after the last member");
  }
  if(!mem) for(int i = nmem - 1; i >= 0; i--) MC_CHECK(tar_iter_seek(&fi, mem_[i].off) && fi.header_offset == mem_[i].off, "cannot seek to member %d", i);
  else for(int i = nmem - 1; i >= 0; i--) MC_CHECK(tar_rsrc_iter_seek(&ri, mem_[i].off) && (int)ri.header_offset == mem_[i].off, "cannot seek to member %d", i);
  if(f) evfs_file_close(f);
}

static void begin(void) {
  mem_free(&g_m); mem_init(&g_m, "mem"); evfs_register(&g_m.vfs, true);
  mc_alloc_track(true);
  tar_start(&im); nmem = 0;
}
static void finish(void) {
  evfs_unregister(evfs_find_vfs("tar"));
  MC_CHECK(g_m.open_files == 0, "unregistering leaves the archive file open");
  MC_CHECK(mc_alloc_live() == 0, "unregistering leaks memory");
}

static void s_archives(void) {
  int mem = mc_choose(2);
  int max = mc_tier(2, 3);
  begin();
  bool used[NMENU] = {0};
  while(nmem < max) {
    int k = mc_choose(NMENU + 1); if(k == NMENU) break;
    if(used[k]) mc_prune();
    used[k] = true;
    int size = 0;
    if(menu[k].type == '0' || menu[k].type == 'x') { int ns = nmem < 2 ? mc_tier(3, 6) : 2; size = sizes[mc_thorough() || nmem >= 2 ? mc_choose(ns) : (int[]){0, 1, 4}[mc_choose(ns)]]; }
    add(k, size);
  }
  if(nmem == 0) mc_prune();
  tar_end(&im, mc_choose(2) ? 2 : 0);
  for(int i = 0; i < nmem; i++) mc_op("member %s%s%s type %c size %d", mem_[i].prefix, mem_[i].prefix[0] ? "/" : "", mc_bytes(mem_[i].raw, 100), mem_[i].type, mem_[i].size);
  check_iter(mem);
  mount(mem);
  char sp[700];
  for(int i = 0; i < nmem; i++) if(mem_[i].name[0]) for(int v = 0; v < 7; v++) {
    variant(mem_[i].name, v, sp);
    if(strlen(sp) + 2 >= EVFS_MAX_PATH) continue;
    check_file(i, sp, v == 0 ? 1400 : v == 1 ? 1 + (nmem & 1) * 511 : 513);
  }
  for(int k = 0; k < NMENU; k++) {
    char nm[300]; if(menu[k].name) strcpy(nm, menu[k].name); else { nm[0] = '/'; strcpy(nm + 1, menu[k].raw); }
    char norm[REF_MAX]; ref_normalize(nm, false, norm);
    if(!known(norm)) missing(nm);
  }
  missing("/nope"); missing("a.tx"); missing("/a.txt.b"); missing("/d/f/g");
  EvfsInfo inf; MC_CHECK(evfs_stat("/", &inf) == EVFS_OK && (inf.type & EVFS_FILE_DIR), "the root of the archive is not a directory");
  mc_state(mc_hash(mem + 1, im.d, (size_t)im.n));
  finish();
  fence_off(&fimg);
}

/* many members: growth of the index */
static void s_many(void) {
  int mem = mc_choose(2), cnt = 1 + mc_choose(mc_tier(40, 58));
  begin();
  char nm[64];
  for(int i = 0; i < cnt; i++) { snprintf(nm, sizeof nm, "dir%d/file%d", i % 5, i * 7919); tar_add(&im, nm, 0, '0', pat + i, i % 9, 5); }
  tar_end(&im, 2);
  mount(mem);
  for(int i = 0; i < cnt; i++) {
    snprintf(nm, sizeof nm, "/dir%d/file%d", i % 5, i * 7919);
    EvfsFile *f; mc_tick();
    MC_CHECK(evfs_open(nm, &f, EVFS_READ) == EVFS_OK, "%d members: '%s' cannot be opened", cnt, nm);
    char b[16]; ptrdiff_t r = evfs_file_read(f, b, 16);
    MC_CHECK(r == i % 9 && !memcmp(b, pat + i, (size_t)r), "%d members: '%s' has wrong contents", cnt, nm);
    evfs_file_close(f);
    snprintf(nm, sizeof nm, "/dir%d/file%d", (i + 1) % 5, i * 7919); missing(nm);
  }
  finish(); fence_off(&fimg);
}

/* several open handles, all interleavings of reads and seeks, and the current directory */
static void s_handles(void) {
  int mem = mc_choose(2);
  begin();
  add(0, 5); add(1, 0); add(2, 600); add(11, 0); add(12, 3);
  tar_end(&im, 2); mount(mem);
  static const char *names[] = {"a.txt", "d/f", "d/e/ff"}; static const int idx[] = {0, 2, 4};
  EvfsFile *h[2] = {0}; int which[2] = {0}, pos[2] = {0}; char cwd[64] = "/";
  int depth = mc_tier(4, 5);
  for(int d = 0; d < depth; d++) {
    int s = mc_choose(2);
    if(!h[s]) {
      int op = mc_choose(5);
      if(op < 3) {
        mc_op("handle %d: open /%s (cwd %s)", s, names[op], cwd);
        char p[80]; snprintf(p, sizeof p, "/%s", names[op]);
        if(strcmp(cwd, "/")) snprintf(p, sizeof p, "../%s%s", strcmp(cwd, "/d") ? "../" : "", names[op]);
        int st = evfs_open(p, &h[s], EVFS_READ); MC_CHECK(st == EVFS_OK, "open fails: %s", EN(st));
        which[s] = idx[op]; pos[s] = 0;
      } else {
        const char *to = op == 3 ? "/d/e" : "..";
        mc_op("chdir %s", to);
        char want[REF_MAX]; ref_absolute(cwd, to, false, want);
        int st = evfs_set_cur_dir(to); MC_CHECK(st == EVFS_OK, "changing to '%s' from '%s' fails: %s", to, cwd, EN(st));
        strcpy(cwd, want);
        char b[100]; StringRange r; range_init(&r, b, sizeof b);
        MC_CHECK(evfs_get_cur_dir(&r) == EVFS_OK && !strcmp(b, cwd), "current directory is '%s' instead of '%s'", b, cwd);
        MC_CHECK(evfs_set_cur_dir("nodir") < 0 && evfs_set_cur_dir("/a.txt") < 0, "changing to a missing directory or file succeeds");
      }
      continue;
    }
    Member *m = &mem_[which[s]];
    int op = mc_choose(7);
    if(op < 3) {
      int k = (int[]){1, 4, 700}[op]; unsigned char b[700];
      int want = m->size - pos[s] < k ? m->size - pos[s] : k;
      mc_op("handle %d: read %d at %d", s, k, pos[s]);
      ptrdiff_t r = evfs_file_read(h[s], b, (size_t)k);
      MC_CHECK(r == want && !memcmp(b, data_of(which[s]) + pos[s], (size_t)want), "read of %d bytes at %d of '%s' gives %d or wrong bytes", k, pos[s], m->name, (int)r);
      pos[s] += want;
    } else if(op < 6) {
      int to = (int[]){0, 2, m->size}[op - 3];
      if(to > m->size) to = m->size;
      mc_op("handle %d: seek %d", s, to);
      MC_CHECK(evfs_file_seek(h[s], to, EVFS_SEEK_TO) == EVFS_OK, "seek to %d fails", to);
      pos[s] = to;
    } else {
      mc_op("handle %d: close", s);
      MC_CHECK(evfs_file_close(h[s]) == EVFS_OK, "close fails"); h[s] = NULL;
    }
    for(int i = 0; i < 2; i++) if(h[i])
      MC_CHECK(evfs_file_tell(h[i]) == pos[i] && evfs_file_size(h[i]) == mem_[which[i]].size && evfs_file_eof(h[i]) == (pos[i] == mem_[which[i]].size),
               "handle %d: position %d, size %d, end %d instead of %d, %d", i, (int)evfs_file_tell(h[i]), (int)evfs_file_size(h[i]), evfs_file_eof(h[i]), pos[i], mem_[which[i]].size);
    mc_state(mc_hash(mc_hash(MC_HASH0 + mem, pos, sizeof pos), which, sizeof which));
  }
  for(int i = 0; i < 2; i++) if(h[i]) evfs_file_close(h[i]);
  finish(); fence_off(&fimg);
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P13");
  mc_set_cleanup(std_cleanup);
  evfs_init();
  for(int i = 0; i < (int)sizeof pat; i++) pat[i] = (unsigned char)(i * 31 + i / 251 * 7 + 1);
  mem_init(&g_m, "mem");
  mc_note("every archive of up to %d distinct members from %d kinds x sizes x both back ends x 7 spellings; every archive of 1..%d files; all sequences of %d operations on two handles and the current directory",
          mc_tier(2, 3), NMENU, mc_tier(40, 58), mc_tier(4, 5));
  mc_explore("archives by member", s_archives);
  mc_explore("archives with many members", s_many);
  mc_explore("two handles and the current directory", s_handles);
  return mc_main_finish();
}
