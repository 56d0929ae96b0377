/* A base file system of a few very large files, of which only the pages that were written exist. */
#ifndef SPARSE_H
#define SPARSE_H
#include "common.h"
enum { SP_PAGE = 4096, SP_SLOTS = 1 << 15, SP_FILES = 24 };
typedef struct { uint64_t key; unsigned char *p; } SpSlot;
typedef struct { char name[40]; int used; int64_t size; } SpFile;
typedef struct { SpFile f[SP_FILES]; SpSlot s[SP_SLOTS]; int pages, open; Evfs vfs; } Sp;
typedef struct { EvfsFile base; int i, flags, live; int64_t pos; } SpHandle;
static Sp sp;
static unsigned char *sp_pool; static int sp_used;
static void sp_reset(void) { memset(sp.s, 0, sizeof sp.s); memset(sp.f, 0, sizeof sp.f); sp.pages = sp.open = 0; sp_used = 0; if(!sp_pool) sp_pool = mc_real_malloc((size_t)SP_PAGE * (SP_SLOTS / 2 + 1)); }
static unsigned char *sp_page(int f, int64_t page, bool make) {
  uint64_t key = ((uint64_t)(f + 1) << 48) | (uint64_t)page, h = key * 0x9E3779B97F4A7C15ull >> 49;
  for(;; h = (h + 1) & (SP_SLOTS - 1)) {
    if(sp.s[h].key == key) return sp.s[h].p;
    if(!sp.s[h].key) {
      if(!make) return NULL;
      if(sp_used >= SP_SLOTS / 2) { printf("harness error: sparse store full\n"); fflush(stdout); _Exit(3); }
      sp.s[h].key = key; sp.s[h].p = sp_pool + (size_t)SP_PAGE * sp_used++; memset(sp.s[h].p, 0, SP_PAGE); return sp.s[h].p;
    }
  }
}
static bool sp_zero(const unsigned char *b, int64_t n) { return n == 0 || (b[0] == 0 && (n == 1 || !memcmp(b, b + 1, (size_t)n - 1))); }
static int sp_find(const char *name, bool make) {
  for(int i = 0; i < SP_FILES; i++) if(sp.f[i].used && !strcmp(sp.f[i].name, name)) return i;
  if(!make) return -1;
  for(int i = 0; i < SP_FILES; i++) if(!sp.f[i].used) { memset(&sp.f[i], 0, sizeof sp.f[i]); sp.f[i].used = 1; snprintf(sp.f[i].name, sizeof sp.f[i].name, "%s", name); return i; }
  printf("harness error: too many sparse files\n"); fflush(stdout); _Exit(3);
}
static void sp_get(int f, int64_t at, void *buf, int64_t n) { /* holes and what lies behind the end read as zero */
  unsigned char *b = buf;
  while(n > 0) { int64_t o = at % SP_PAGE, k = SP_PAGE - o < n ? SP_PAGE - o : n; unsigned char *p = sp_page(f, at / SP_PAGE, false); if(p) memcpy(b, p + o, (size_t)k); else memset(b, 0, (size_t)k); b += k; at += k; n -= k; }
}
static void sp_set(int f, int64_t at, const void *buf, int64_t n) {
  const unsigned char *b = buf; if(at + n > sp.f[f].size) sp.f[f].size = at + n;
  while(n > 0) { int64_t o = at % SP_PAGE, k = SP_PAGE - o < n ? SP_PAGE - o : n; unsigned char *p = sp_page(f, at / SP_PAGE, false); if(!p && !sp_zero(b, k)) p = sp_page(f, at / SP_PAGE, true); if(p) memcpy(p + o, b, (size_t)k); b += k; at += k; n -= k; }
}
static void sp_cut(int f, int64_t size) {
  for(int h = 0; h < SP_SLOTS; h++) if(sp.s[h].key >> 48 == (uint64_t)(f + 1)) { int64_t a = (int64_t)(sp.s[h].key & 0xffffffffffffull) * SP_PAGE; if(a >= size) memset(sp.s[h].p, 0, SP_PAGE); else if(a + SP_PAGE > size) memset(sp.s[h].p + (size - a), 0, (size_t)(a + SP_PAGE - size)); }
  sp.f[f].size = size;
}
static SpHandle *sph(EvfsFile *f) { SpHandle *h = (SpHandle *)f; if(h->live != 0x5A) mc_fail("underlying handle used after close"); mc_tick(); return h; }
static int spf_ctrl(EvfsFile *f, int c, void *a) { (void)f; (void)c; (void)a; return EVFS_ERR_NO_SUPPORT; }
static int spf_close(EvfsFile *f) { sph(f)->live = 0; sp.open--; return EVFS_OK; }
static ptrdiff_t spf_read(EvfsFile *f, void *b, size_t n) { SpHandle *h = sph(f); int64_t left = sp.f[h->i].size - h->pos; if(left <= 0) return 0; if((int64_t)n > left) n = (size_t)left; sp_get(h->i, h->pos, b, (int64_t)n); h->pos += (int64_t)n; return (ptrdiff_t)n; }
static ptrdiff_t spf_write(EvfsFile *f, const void *b, size_t n) { SpHandle *h = sph(f); if(h->flags & EVFS_APPEND) h->pos = sp.f[h->i].size; sp_set(h->i, h->pos, b, (int64_t)n); h->pos += (int64_t)n; return (ptrdiff_t)n; }
static int spf_trunc(EvfsFile *f, evfs_off_t n) { SpHandle *h = sph(f); if(n < 0) return EVFS_ERR_BAD_ARG; sp_cut(h->i, n); return EVFS_OK; }
static int spf_sync(EvfsFile *f) { sph(f); return EVFS_OK; }
static evfs_off_t spf_size(EvfsFile *f) { return sp.f[sph(f)->i].size; }
static int spf_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { SpHandle *h = sph(f); int64_t p = d == EVFS_SEEK_TO ? o : d == EVFS_SEEK_REL ? h->pos + o : sp.f[h->i].size - o; if(p < 0) p = 0; h->pos = p; return EVFS_OK; }
static evfs_off_t spf_tell(EvfsFile *f) { return sph(f)->pos; }
static bool spf_eof(EvfsFile *f) { SpHandle *h = sph(f); return h->pos >= sp.f[h->i].size; }
static const EvfsFileMethods sp_fm = { spf_ctrl, spf_close, spf_read, spf_write, spf_trunc, spf_sync, spf_size, spf_seek, spf_tell, spf_eof };
static const char *sp_abs(const char *p) { static char b[100]; while(*p == '/') p++; snprintf(b, sizeof b, "/%s", p); for(char *c = b; *c; c++) if(*c == '/' && c > b) *c = ':'; return b; }
static int spv_open(Evfs *v, const char *p, EvfsFile *f, int flags) {
  SpHandle *h = (SpHandle *)f; (void)v; const char *a = sp_abs(p); int i = sp_find(a, false);
  if(!a[1] || (i >= 0 && sp.f[i].size < 0)) return EVFS_ERR_IS_DIR;
  if(i >= 0 && (flags & EVFS_NO_EXIST)) return EVFS_ERR_EXISTS;
  if(i < 0 && !(flags & (EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))) return EVFS_ERR_NO_FILE;
  if(i < 0) i = sp_find(a, true); else if(flags & EVFS_OVERWRITE) sp_cut(i, 0);
  memset(h, 0, sizeof *h); h->base.methods = &sp_fm; h->i = i; h->flags = flags; h->live = 0x5A; sp.open++; return EVFS_OK;
}
static int spv_stat(Evfs *v, const char *p, EvfsInfo *inf) { (void)v; memset(inf, 0, sizeof *inf); const char *a = sp_abs(p); if(!a[1]) { inf->type = EVFS_FILE_DIR; return EVFS_OK; } int i = sp_find(a, false);
  if(i < 0) { size_t l = strlen(a); for(int k = 0; k < SP_FILES; k++) if(sp.f[k].used && !strncmp(sp.f[k].name, a, l) && sp.f[k].name[l] == ':') { inf->type = EVFS_FILE_DIR; return EVFS_OK; } return EVFS_ERR_NO_FILE; }
  if(sp.f[i].size < 0) inf->type = EVFS_FILE_DIR; else inf->size = sp.f[i].size; return EVFS_OK; }
static int spv_delete(Evfs *v, const char *p) { (void)v; int i = sp_find(sp_abs(p), false); if(i < 0) return EVFS_ERR_NO_FILE; if(sp.f[i].size > 0) sp_cut(i, 0); sp.f[i].used = 0; return EVFS_OK; }
static int spv_mkdir(Evfs *v, const char *p) { (void)v; const char *a = sp_abs(p); if(sp_find(a, false) >= 0) return EVFS_ERR_EXISTS; sp.f[sp_find(a, true)].size = -1; return EVFS_OK; }
typedef struct { EvfsDir base; char pre[100]; int at; char name[60]; } SpDir;
static int spd_close(EvfsDir *d) { (void)d; sp.open--; return EVFS_OK; }
static int spd_read(EvfsDir *d, EvfsInfo *inf) { SpDir *x = (SpDir *)d; size_t l = strlen(x->pre); memset(inf, 0, sizeof *inf);
  for(; x->at < SP_FILES; x->at++) { SpFile *f = &sp.f[x->at]; if(f->used && !strncmp(f->name, x->pre, l) && f->name[l] && !strchr(f->name + l, ':')) { snprintf(x->name, sizeof x->name, "%s", f->name + l); inf->name = x->name; if(f->size < 0) inf->type = EVFS_FILE_DIR; else inf->size = f->size; x->at++; return EVFS_OK; } }
  return EVFS_DONE; }
static int spd_rewind(EvfsDir *d) { ((SpDir *)d)->at = 0; return EVFS_OK; }
static const EvfsDirMethods sp_dm = { spd_close, spd_read, spd_rewind };
static int spv_opendir(Evfs *v, const char *p, EvfsDir *d) { (void)v; SpDir *x = (SpDir *)d; memset(x, 0, sizeof *x); x->base.methods = &sp_dm; const char *a = sp_abs(p); snprintf(x->pre, sizeof x->pre, "%s%s", a, a[1] ? ":" : ""); sp.open++; return EVFS_OK; }
static int spv_ctrl(Evfs *v, int c, void *a) { (void)v; if(c == EVFS_CMD_UNREGISTER) return EVFS_OK; if(c == EVFS_CMD_GET_STAT_FIELDS || c == EVFS_CMD_GET_DIR_FIELDS) { *(unsigned *)a = EVFS_INFO_NAME | EVFS_INFO_SIZE | EVFS_INFO_TYPE; return EVFS_OK; } return EVFS_ERR_NO_SUPPORT; }
static int spv_getcwd(Evfs *v, StringRange *r) { (void)v; strcpy((char *)r->start, "/"); return EVFS_OK; }
static int spv_setcwd(Evfs *v, const char *p) { (void)v; (void)p; return EVFS_OK; }
static int spv_rename(Evfs *v, const char *a, const char *b) { (void)v; int i = sp_find(sp_abs(a), false); if(i < 0) return EVFS_ERR_NO_FILE; if(sp_find(sp_abs(b), false) >= 0) return EVFS_ERR_EXISTS; snprintf(sp.f[i].name, sizeof sp.f[i].name, "%s", sp_abs(b)); return EVFS_OK; }
static bool spv_root(Evfs *v, const char *p, StringRange *r) { (void)v; int n = (int)strspn(p, "/\\"); range_init(r, (char *)p, (size_t)n); return n > 0; }
static void sp_up(const char *name, bool dflt) {
  sp_reset(); memset(&sp.vfs, 0, sizeof sp.vfs);
  sp.vfs = (Evfs){ .vfs_name = name, .vfs_file_size = sizeof(SpHandle), .vfs_dir_size = sizeof(SpDir), .m_open = spv_open, .m_stat = spv_stat, .m_delete = spv_delete, .m_rename = spv_rename, .m_make_dir = spv_mkdir, .m_open_dir = spv_opendir, .m_get_cur_dir = spv_getcwd, .m_set_cur_dir = spv_setcwd, .m_vfs_ctrl = spv_ctrl, .m_path_root_component = spv_root };
  MC_CHECK(evfs_register(&sp.vfs, dflt) == EVFS_OK, "register");
}
#endif
