/* P15: ROM images enumerated node by node, compared with what was built. */
#include "common.h"
#include "images.h"
#include "evfs/romfs_fs.h"

static Mem g_m;
static Img im;
static Fence fimg;
static RomNode nd[64]; static int nn;
static unsigned char pat[4096];
static const char N15[] = "fifteen-charact", N16[] = "sixteen-characte", N31[] = "thirty-one-characters-long-nam.e";
static const char *names[] = {"a", "bb", "c.txt", N15, N16, 0, "..a", "...", "A"};
#define NL (EVFS_ROMFS_MAX_NAME_LEN - 1)   /* longest name */
static char n31[NL + 9];
static const int sizes[] = {0, 1, 16, 17, 600};

static void path_of(int i, char *o) {
  char t[1000];
  if(i == 0) { strcpy(o, "/"); return; }
  path_of(nd[i].parent, t);
  sprintf(o, "%s%s%s", t, strcmp(t, "/") ? "/" : "", nd[i].name);
}
static int real(int i) { return nd[i].type == RN_LINK ? nd[i].target : i; }
static uint8_t *place(void) { return (uint8_t *)fence_put(&fimg, im.d, (size_t)im.n); }
static void mount(int mem) {
  int st;
  if(mem) st = evfs_register_rsrc_romfs("rom", place(), (size_t)im.n, true);
  else {
    mem_put(&g_m, "/x.rom", im.d, im.n);
    EvfsFile *f; MC_CHECK(evfs_open_ex("/x.rom", &f, EVFS_READ, "mem") == EVFS_OK, "open");
    st = evfs_register_romfs("rom", f, true);
  }
  MC_CHECK(st == EVFS_OK, "a well-formed image cannot be registered: %s", EN(st));
}
static void variant(const char *p, int v, char *o) {
  switch(v) {
    case 0: strcpy(o, p); break;
    case 1: strcpy(o, p[1] ? p + 1 : "."); break;
    case 2: sprintf(o, "//.%s", p); break;
    case 3: sprintf(o, "/zz/..%s", p); break;
    case 4: sprintf(o, "../%s/.", p + 1); break;
    case 5: strcpy(o, p); for(char *q = o; *q; q++) if(*q == '/') *q = '\\'; break;
    default: sprintf(o, "%s/", p);
  }
}
static void check_file(int i, const char *sp, int chunk, int mem) {
  int r = real(i), size = nd[r].size;
  EvfsInfo inf; int st = evfs_stat(sp, &inf);
  MC_CHECK(st == EVFS_OK && inf.type == 0 && inf.size == size, "stat('%s') gives %s, type %d, size %d instead of a file of %d", mc_str(sp), EN(st), (int)inf.type, (int)inf.size, size);
  EvfsFile *f = NULL; st = evfs_open(sp, &f, EVFS_READ);
  MC_CHECK(st == EVFS_OK, "file '%s' cannot be opened: %s", mc_str(sp), EN(st));
  MC_CHECK(evfs_file_size(f) == size, "'%s' has size %d instead of %d", mc_str(sp), (int)evfs_file_size(f), size);
  unsigned char b[700]; int pos = 0;
  for(;;) {
    memset(b, 0xEE, sizeof b);
    int want = size - pos < chunk ? size - pos : chunk;
    ptrdiff_t n = evfs_file_read(f, b, (size_t)chunk);
    MC_CHECK(n == want && !memcmp(b, (const char *)nd[r].data + pos, (size_t)want), "read of %d bytes at %d of '%s' gives %d or wrong bytes", chunk, pos, mc_str(sp), (int)n);
    MC_CHECK(want == sizeof b || b[want] == 0xEE, "read of '%s' writes past the returned bytes", mc_str(sp));
    pos += want;
    MC_CHECK(evfs_file_tell(f) == pos && evfs_file_eof(f) == (pos >= size), "position or end-of-file of '%s' wrong at %d", mc_str(sp), pos);
    if(!n) break;
  }
  if(!mem) { uint8_t *a = NULL; MC_CHECK(evfs_file_ctrl(f, EVFS_CMD_GET_RSRC_ADDR, &a) != EVFS_OK, "a resource address is given for '%s', which is not in memory", mc_str(sp)); }
  if(mem && size) { uint8_t *a = NULL; MC_CHECK(evfs_file_ctrl(f, EVFS_CMD_GET_RSRC_ADDR, &a) == EVFS_OK && !memcmp(a, nd[r].data, (size_t)size), "'%s' has a wrong resource address", mc_str(sp)); }
  evfs_file_close(f);
  EvfsDir *d = NULL; MC_CHECK(evfs_open_dir(sp, &d) < 0, "file '%s' can be opened as a directory", mc_str(sp));
}
static void check_dir(int i, const char *sp, bool dots) {
  EvfsInfo inf; int st = evfs_stat(sp, &inf);
  MC_CHECK(st == EVFS_OK && (inf.type & EVFS_FILE_DIR), "directory '%s' is not reported as a directory (%s)", mc_str(sp), EN(st));
  EvfsFile *f = NULL; MC_CHECK(evfs_open(sp, &f, EVFS_READ) < 0, "directory '%s' can be opened as a file", mc_str(sp));
  EvfsDir *d = NULL; st = evfs_open_dir(sp, &d);
  MC_CHECK(st == EVFS_OK, "directory '%s' cannot be opened: %s", mc_str(sp), EN(st));
  for(int pass = 0; pass < 2; pass++) {
    int seen[64] = {0}, nd_dots = 0; int stop = pass ? -1 : mc_tier(-1, -1);
    (void)stop;
    while((st = evfs_dir_read(d, &inf)) == EVFS_OK) {
      mc_tick();
      if(!strcmp(inf.name, ".") || !strcmp(inf.name, "..")) { nd_dots++; MC_CHECK(inf.type & EVFS_FILE_DIR, "'%s' is not listed as a directory", inf.name); continue; }
      int k; for(k = 1; k < nn; k++) if(nd[k].parent == i && !strcmp(nd[k].name, inf.name)) break;
      MC_CHECK(k < nn, "listing '%s' shows '%s', which is not there", mc_str(sp), mc_str(inf.name));
      MC_CHECK(++seen[k] == 1, "listing '%s' shows '%s' twice", mc_str(sp), mc_str(inf.name));
      int r = real(k);
      MC_CHECK(!!(inf.type & EVFS_FILE_DIR) == (nd[r].type == RN_DIR), "'%s' is listed with type %d", mc_str(inf.name), (int)inf.type);
      if(nd[r].type == RN_FILE) MC_CHECK(inf.size == nd[r].size, "'%s' is listed with size %d instead of %d", mc_str(inf.name), (int)inf.size, nd[r].size);
    }
    MC_CHECK(st == EVFS_DONE, "listing '%s' ends with %s", mc_str(sp), EN(st));
    for(int k = 1; k < nn; k++) if(nd[k].parent == i) MC_CHECK(seen[k], "listing '%s' omits '%s'", mc_str(sp), nd[k].name);
    MC_CHECK(nd_dots == (dots ? 2 : 0), "listing '%s' shows %d dot entries", mc_str(sp), nd_dots);
    MC_CHECK(evfs_dir_read(d, &inf) == EVFS_DONE && evfs_dir_read(d, &inf) == EVFS_DONE, "listing '%s' continues after its end", mc_str(sp));
    MC_CHECK(evfs_dir_rewind(d) == EVFS_OK, "rewind fails");
    if(pass == 0) { evfs_dir_read(d, &inf); evfs_dir_rewind(d); }
  }
  evfs_dir_close(d);
}
static void missing(const char *p) {
  EvfsInfo inf; EvfsFile *f = NULL; EvfsDir *d = NULL;
  MC_CHECK(evfs_stat(p, &inf) < 0 && evfs_open(p, &f, EVFS_READ) < 0 && evfs_open_dir(p, &d) < 0, "'%s', which is not in the image, is found", mc_str(p));
}
static void begin(void) { mem_free(&g_m); mem_init(&g_m, "mem"); evfs_register(&g_m.vfs, true); mc_alloc_track(true); nn = 1; memset(nd, 0, sizeof nd); nd[0] = (RomNode){.name = ".", .type = RN_DIR, .parent = -1}; }
static void finish(void) {
  evfs_unregister(evfs_find_vfs("rom"));
  MC_CHECK(g_m.open_files == 0, "unregistering leaves the image open");
  MC_CHECK(mc_alloc_live() == 0, "unregistering leaks memory");
  fence_off(&fimg);
}
static void add_node(const char *name, int parent, int type, int size, int target) {
  nd[nn] = (RomNode){.name = name, .parent = parent, .type = type, .size = size, .target = target, .data = pat + nn * 37, .exec = nn & 1};
  nn++;
}
static void check_tree(int mem, bool dots, int variants) {
  char p[1000], sp[1100];
  for(int v = 0; v < variants; v++) for(int i = 0; i < nn; i++) {
    path_of(i, p); variant(p, v, sp);
    if(strlen(sp) + 3 >= EVFS_MAX_PATH) continue;
    mc_tick();
    int t = nd[real(i)].type;
    if(t == RN_DIR) check_dir(i, sp, dots);
    else if(t == RN_FILE) check_file(i, sp, v == 0 ? 700 : v == 1 ? 1 : 16, mem);
    else { EvfsInfo inf; MC_CHECK(evfs_stat(sp, &inf) == EVFS_OK && inf.type == 0, "stat of symbolic link '%s' fails", mc_str(sp)); }
    if(v == 0) {
      strcat(p, "/nope"); missing(p);
      if(t == RN_FILE) { path_of(i, p); strcat(p, "/a"); missing(p); path_of(i, p); strcat(p, "x"); if(strlen(nd[i].name) < NL) { bool ex = false; for(int k = 1; k < nn; k++) { path_of(k, sp); if(!strcmp(sp, p)) ex = true; } if(!ex) missing(p); } }
    }
  }
}

static void s_trees(void) {
  int mem = mc_choose(2), max = mc_tier(3, 4);
  begin();
  while(nn - 1 < max) {
    bool late = nn - 1 >= 2;
    int kind = mc_choose(5); if(kind == 4) break;
    int dirs[8], ndir = 0, files[8], nf = 0;
    for(int i = 0; i < nn; i++) { if(nd[i].type == RN_DIR) dirs[ndir++] = i; if(nd[i].type == RN_FILE) files[nf++] = i; }
    if(kind == 2 && !nf) mc_prune();
    int par = dirs[mc_choose(ndir)];
    int c = mc_choose(late ? mc_tier(2, 4) : mc_tier(6, 9)); const char *nm = late ? (const char *[]){"a", "bb", n31, N15}[c] : names[c] ? names[c] : n31;
    for(int i = 1; i < nn; i++) if(nd[i].parent == par && !strcmp(nd[i].name, nm)) mc_prune();
    if(kind == 0) { int s = mc_choose(late ? 2 : mc_tier(3, 5)); add_node(nm, par, RN_FILE, sizes[late ? (s ? 3 : 0) : mc_thorough() ? s : (int[]){0, 3, 4}[s]], 0); }
    else if(kind == 1) add_node(nm, par, RN_DIR, 0, 0);
    else if(kind == 2) add_node(nm, par, RN_LINK, 0, files[mc_choose(nf)]);
    else add_node(nm, par, RN_SYM, 7, 0);
  }
  int vl = nn > 2 ? (nn + nd[1].type) % 3 : mc_choose(3); char vol[NL + 1]; int L = (int[]){0, 15, NL}[vl]; memset(vol, 'v', sizeof vol); vol[L] = 0;
  for(int i = 1; i < nn; i++) { char p[600]; path_of(i, p); mc_op("node %s type %d size %d", p, nd[i].type, nd[i].size); }
  rom_build(&im, nd, nn, vol);
  mount(mem);
  unsigned on = (unsigned)mc_choose(2);
  if(on) MC_CHECK(evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &on, "rom") == EVFS_OK, "cannot switch dot entries off");
  check_tree(mem, !on, 7);
  missing("/zz"); missing("a/b/c/d"); missing("/a.txt");
  mc_state(mc_hash(mem + 1, im.d, (size_t)im.n));
  finish();
}

/* wide and deep trees: index growth */
static void s_wide(void) {
  int mem = mc_choose(2), cnt = mc_choose(mc_tier(30, 60)), deep = mc_choose(2);
  begin();
  static char nm[64][16];
  for(int i = 1; i <= cnt && i < 60; i++) { snprintf(nm[i], 16, "n%d", i * 7919 % 1000); int par = deep ? (i % 3 == 1 ? i - 1 : nd[i-1].type == RN_DIR ? i - 1 : nd[i-1].parent) : 0; if(nd[par].type != RN_DIR) par = 0; add_node(nm[i], par, deep && i % 3 == 0 ? RN_DIR : RN_FILE, i % 40, 0); }
  rom_build(&im, nd, nn, "vol");
  mount(mem);
  check_tree(mem, true, 1);
  mc_state(mc_hash(mem + 1, im.d, (size_t)im.n));
  finish();
}

/* interleaved handles, directories and the current directory */
static void s_handles(void) {
  int mem = mc_choose(2);
  begin();
  add_node("a.txt", 0, RN_FILE, 5, 0); add_node("d", 0, RN_DIR, 0, 0); add_node("f", 2, RN_FILE, 600, 0); add_node("e", 2, RN_DIR, 0, 0); add_node("ln", 4, RN_LINK, 0, 3);
  rom_build(&im, nd, nn, "vol"); mount(mem);
  EvfsFile *h[2] = {0}; EvfsDir *dh = NULL; int which[2] = {0}, pos[2] = {0}, dcount = 0, ddir = 0; char cwd[64] = "/";
  static const char *dirs[] = {"/", "/d", "/d/e"}; static const int dn[] = {4, 4, 3};
  int depth = mc_tier(4, 5);
  for(int d = 0; d < depth; d++) {
    int s = mc_choose(3);
    if(s == 2) {
      if(!dh) {
        int k = mc_choose(4);
        if(k == 3) { /* change directory */
          const char *to = mc_choose(2) ? ".." : "/d/e"; char want[REF_MAX]; ref_absolute(cwd, to, false, want);
          mc_op("chdir %s", to);
          MC_CHECK(evfs_set_cur_dir(to) == EVFS_OK, "changing to '%s' fails", to); strcpy(cwd, want);
          char b[100]; StringRange r; range_init(&r, b, sizeof b);
          MC_CHECK(evfs_get_cur_dir(&r) == EVFS_OK && !strcmp(b, cwd), "current directory is '%s' instead of '%s'", b, cwd);
          MC_CHECK(evfs_set_cur_dir("nodir") < 0 && evfs_set_cur_dir("/a.txt") < 0, "changing to a missing directory or file succeeds");
          continue;
        }
        mc_op("open directory %s", dirs[k]);
        MC_CHECK(evfs_open_dir(dirs[k], &dh) == EVFS_OK, "cannot open directory"); ddir = k; dcount = 0;
      } else switch(mc_choose(3)) {
        case 0: { EvfsInfo inf; mc_op("read directory"); int st = evfs_dir_read(dh, &inf); if(dcount < dn[ddir]) { dcount++; MC_CHECK(st == EVFS_OK, "directory read %d of %s gives %s", dcount, dirs[ddir], EN(st)); } else MC_CHECK(st == EVFS_DONE, "directory end gives %s", EN(st)); break; }
        case 1: mc_op("rewind"); evfs_dir_rewind(dh); dcount = 0; break;
        default: mc_op("close directory"); evfs_dir_close(dh); dh = NULL;
      }
      continue;
    }
    if(!h[s]) {
      int k = mc_choose(3); static const char *fp[] = {"/a.txt", "/d/f", "/d/e/ln"}; static const int ix[] = {1, 3, 3};
      char p[80]; strcpy(p, fp[k]);
      if(strcmp(cwd, "/")) snprintf(p, sizeof p, "%s..%s", strcmp(cwd, "/d") ? "../" : "", fp[k]);
      mc_op("handle %d: open %s", s, p);
      int st = evfs_open(p, &h[s], EVFS_READ); MC_CHECK(st == EVFS_OK, "open of '%s' fails: %s", p, EN(st));
      which[s] = ix[k]; pos[s] = 0;
    } else {
      int size = nd[which[s]].size, op = mc_choose(6);
      if(op < 3) {
        int k = (int[]){1, 4, 700}[op], want = size - pos[s] < k ? size - pos[s] : k; unsigned char b[700];
        mc_op("handle %d: read %d at %d", s, k, pos[s]);
        ptrdiff_t r = evfs_file_read(h[s], b, (size_t)k);
        MC_CHECK(r == want && !memcmp(b, (const char *)nd[which[s]].data + pos[s], (size_t)want), "read of %d at %d gives %d or wrong bytes", k, pos[s], (int)r);
        pos[s] += want;
      } else if(op < 5) {
        int to = op == 3 ? 2 : size;
        mc_op("handle %d: seek %d", s, to);
        MC_CHECK(evfs_file_seek(h[s], to, EVFS_SEEK_TO) == EVFS_OK, "seek fails"); pos[s] = to;
      } else { mc_op("handle %d: close", s); evfs_file_close(h[s]); h[s] = NULL; }
    }
    for(int i = 0; i < 2; i++) if(h[i]) MC_CHECK(evfs_file_tell(h[i]) == pos[i] && evfs_file_size(h[i]) == nd[which[i]].size, "handle %d disturbed", i);
    mc_state(mc_hash(mc_hash(MC_HASH0 + mem, pos, sizeof pos), cwd, strlen(cwd)) + dcount);
  }
  for(int i = 0; i < 2; i++) if(h[i]) evfs_file_close(h[i]);
  if(dh) evfs_dir_close(dh);
  finish();
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P15");
  mc_set_cleanup(std_cleanup);
  evfs_init();
  memset(n31, 'm', NL); n31[NL] = 0; (void)N31;
  for(int i = 0; i < (int)sizeof pat; i++) pat[i] = (unsigned char)(i * 31 + i / 251 * 7 + 1);
  mem_init(&g_m, "mem");
  mc_note("every tree of up to %d nodes (files, directories, hard links to files, symbolic links; names of 1..31 characters) x volume names x both back ends x dot entries x 7 spellings; wide and deep trees up to %d nodes; all sequences of %d operations on two files, a directory and the current directory",
          mc_tier(3, 4), mc_tier(30, 60), mc_tier(4, 5));
  mc_note("file names of 32 characters and more are outside the configured EVFS_ROMFS_MAX_NAME_LEN and not covered");
  mc_explore_depth("trees by node", s_trees, 6);
  mc_explore("wide and deep trees", s_wide);
  mc_explore_depth("interleaved handles", s_handles, 3);
  return mc_main_finish();
}
