/* The littlefs API over a block device: see lfsmodel/lfs.h. */
#include <stdio.h>
#include <string.h>
#include "mc.h"
#include "lfsmodel/lfs.h"
#define NODES 40
#define SLOTS 8
#define CAP (1 << 16)
int lfsm_open_files, lfsm_open_dirs;
typedef struct { char path[280]; uint8_t dir; uint32_t n, at; } Node;
static Node nd[NODES]; static int nn;
static unsigned char store[CAP], fbuf[SLOTS][CAP], raw[CAP]; static uint32_t used; static bool busy[SLOTS];
static uint32_t rev; static int area;
#define LFS_ASSERT(c) MC_CHECK(c, "littlefs is called with its precondition violated: %s", #c)
static uint32_t sum(const unsigned char *p, uint32_t n) { uint32_t h = 2166136261u; while(n--) h = (h ^ *p++) * 16777619u; return h; }
static uint32_t area_size(const struct lfs_config *c) { uint32_t n = c->block_count / 2 * c->block_size; return n > CAP ? CAP : n; }
/* transfers in pieces of the cache size that never cross a block, aligned like littlefs does */
static int dev(const struct lfs_config *c, int a, uint32_t off, unsigned char *p, uint32_t n, bool wr) {
  while(n) {
    uint32_t blk = off / c->block_size, in = off % c->block_size, k = c->block_size - in;
    if(k > c->cache_size) k = c->cache_size;
    if(k > n) k = n;
    lfs_block_t b = (lfs_block_t)a * (c->block_count / 2) + blk;
    int st = 0;
    if(wr && in == 0) st = c->erase(c, b);
    if(!st) st = wr ? c->prog(c, b, in, p, k) : c->read(c, b, in, p, k);
    if(st) return st;
    off += k; p += k; n -= k;
  }
  return 0;
}
#define HDR 32
static uint32_t align(const struct lfs_config *c, uint32_t n) { uint32_t g = c->prog_size > c->read_size ? c->prog_size : c->read_size; return (n + g - 1) / g * g; }
static int fetch(lfs_t *l) {
  const struct lfs_config *c = l->cfg; uint32_t h[2][HDR / 4]; int st, best = -1;
  LFS_ASSERT(l->mounted == 0x11f5);
  for(int a = 0; a < 2; a++) { st = dev(c, a, 0, (unsigned char *)h[a], HDR, false); if(st) return st; }
  for(int k = 0; k < 2; k++) {
    int a = h[1][0] == 0x4c4d5346 && (h[0][0] != 0x4c4d5346 || h[1][1] > h[0][1]) ? 1 : 0; if(k) a = !a;
    if(h[a][0] != 0x4c4d5346 || h[a][2] > area_size(c) - HDR || h[a][4] != sum((unsigned char *)h[a], 16)) continue;
    st = dev(c, a, HDR, raw, align(c, h[a][2]), false); if(st) return st;
    if(sum(raw, h[a][2]) != h[a][3]) continue;
    best = a; break;
  }
  if(best < 0) return LFS_ERR_CORRUPT;
  area = best; rev = h[best][1];
  uint32_t at = 0; nn = 0; used = 0;
  while(at < h[best][2]) {
    Node *x = &nd[nn++]; uint8_t pl = raw[at++];
    memcpy(x->path, raw + at, pl); x->path[pl] = 0; at += pl; x->dir = raw[at++];
    memcpy(&x->n, raw + at, 4); at += 4; x->at = used; memcpy(store + used, raw + at, x->n); used += x->n; at += x->n;
  }
  return 0;
}
static int commit(lfs_t *l) {
  const struct lfs_config *c = l->cfg; uint32_t at = 0, need = 0;
  for(int i = 0; i < nn; i++) need += 6 + (uint32_t)strlen(nd[i].path) + nd[i].n;
  if(align(c, need) > area_size(c) - HDR) return LFS_ERR_NOSPC;
  memset(raw, 0xff, align(c, need));
  for(int i = 0; i < nn; i++) {
    Node *x = &nd[i]; uint8_t pl = (uint8_t)strlen(x->path);
    raw[at++] = pl; memcpy(raw + at, x->path, pl); at += pl; raw[at++] = x->dir;
    memcpy(raw + at, &x->n, 4); at += 4; memcpy(raw + at, store + x->at, x->n); at += x->n;
  }
  uint32_t h[HDR / 4] = { 0x4c4d5346, rev + 1, at, sum(raw, at) }; h[4] = sum((unsigned char *)h, 16);
  int a = !area, st = dev(c, a, HDR, raw, align(c, at), true);
  if(!st) st = dev(c, a, 0, (unsigned char *)h, HDR, true);
  if(!st) st = c->sync(c);
  if(!st) { area = a; rev++; }
  return st;
}
static Node *get(const char *p) { for(int i = 0; i < nn; i++) if(!strcmp(nd[i].path, p)) return &nd[i]; return NULL; }
static const char *base(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
/* resolve the way littlefs does: names looked up one after another, dots without looking; *last: only the last name is missing */
static int resolve(const char *path, char *out, bool *last) {
  char comp[64][256]; int n = 0; bool longname = false;
  *last = false;
  LFS_ASSERT(strlen(path) < 500);
  for(const char *p = path; *p;) {
    p += strspn(p, "/"); size_t k = strcspn(p, "/"); if(!k) break;
    if(k == 1 && p[0] == '.') ;
    else if(k == 2 && p[0] == '.' && p[1] == '.') { if(n) n--; }
    else { if(k > LFS_NAME_MAX) { longname = true; k = LFS_NAME_MAX; memcpy(comp[n], p, k); comp[n++][k] = 0; p += strcspn(p, "/"); continue; } LFS_ASSERT(n < 60); memcpy(comp[n], p, k); comp[n++][k] = 0; }
    p += k;
  }
  strcpy(out, "/");
  for(int i = 0; i < n; i++) {
    Node *x = out[1] ? get(out) : NULL;
    if(out[1] && !x) return LFS_ERR_NOENT;
    if(x && !x->dir) return LFS_ERR_NOTDIR;
    if(out[1]) strcat(out, "/");
    if(strlen(out) + strlen(comp[i]) > 250) { *last = false; return i == n - 1 && longname ? LFS_ERR_NAMETOOLONG : LFS_ERR_NOENT; }
    strcat(out, comp[i]);
  }
  if(!out[1]) return 0;
  if(!get(out)) { *last = true; return longname ? LFS_ERR_NAMETOOLONG : LFS_ERR_NOENT; }
  return 0;
}
static Node *add(const char *p, bool dir) { LFS_ASSERT(nn < NODES); Node *x = &nd[nn++]; memset(x, 0, sizeof *x); strcpy(x->path, p); x->dir = dir; x->at = used; return x; }
static bool below(const char *p, const char *d) { size_t n = strlen(d); return !strncmp(p, d, n) && p[n] == '/'; }
static bool child(const char *p, const char *d) { if(!d[1]) return !strchr(p + 1, '/'); return below(p, d) && !strchr(p + strlen(d) + 1, '/'); }
int lfs_format(lfs_t *l, const struct lfs_config *c) {
  memset(l, 0, sizeof *l); l->cfg = c; l->mounted = 0x11f5; nn = 0; used = 0; rev = 0; area = 1;
  int st = commit(l);
  if(!st) st = commit(l);
  l->mounted = 0; return st;
}
int lfs_mount(lfs_t *l, const struct lfs_config *c) {
  memset(l, 0, sizeof *l); l->cfg = c; l->mounted = 0x11f5; memset(busy, 0, sizeof busy); lfsm_open_files = lfsm_open_dirs = 0;
  int st = fetch(l); if(st) l->mounted = 0; return st;
}
int lfs_unmount(lfs_t *l) { LFS_ASSERT(l->mounted == 0x11f5); l->mounted = 0; return 0; }
int lfs_remove(lfs_t *l, const char *path) {
  char p[512]; bool last; int st = fetch(l); if(st) return st;
  if((st = resolve(path, p, &last))) return st;
  if(!p[1]) return LFS_ERR_INVAL;
  Node *x = get(p); if(x->dir) for(int i = 0; i < nn; i++) if(below(nd[i].path, p)) return LFS_ERR_NOTEMPTY;
  memmove(x, x + 1, (size_t)(&nd[nn] - (x + 1)) * sizeof *x); nn--;
  return commit(l);
}
int lfs_rename(lfs_t *l, const char *o, const char *n) {
  char p[512], q[512]; bool last; int st = fetch(l); if(st) return st;
  if((st = resolve(o, p, &last))) return st;
  if(!p[1]) return LFS_ERR_INVAL;
  st = resolve(n, q, &last); if(st && !(st == LFS_ERR_NOENT && last)) return st;
  if(!q[1]) return LFS_ERR_INVAL;
  Node *x = get(p), *y = get(q);
  if(below(q, p)) return LFS_ERR_INVAL;
  if(y == x) return 0;
  if(y) {
    if(y->dir != x->dir) return y->dir ? LFS_ERR_ISDIR : LFS_ERR_NOTDIR;
    if(y->dir) for(int i = 0; i < nn; i++) if(below(nd[i].path, q)) return LFS_ERR_NOTEMPTY;
    memmove(y, y + 1, (size_t)(&nd[nn] - (y + 1)) * sizeof *y); nn--;
  }
  for(int i = 0; i < nn; i++) if(!strcmp(nd[i].path, p) || below(nd[i].path, p)) {
    char t[1100]; snprintf(t, sizeof t, "%s%s", q, nd[i].path + strlen(p)); if(strlen(t) > 250) return LFS_ERR_NAMETOOLONG; strcpy(nd[i].path, t); }
  return commit(l);
}
static void info_of(Node *x, struct lfs_info *i) {
  memset(i, 0, sizeof *i);
  if(!x) { i->type = LFS_TYPE_DIR; strcpy(i->name, "/"); return; }
  i->type = x->dir ? LFS_TYPE_DIR : LFS_TYPE_REG; i->size = x->dir ? 0 : x->n; strcpy(i->name, base(x->path));
}
int lfs_stat(lfs_t *l, const char *path, struct lfs_info *info) {
  char p[512]; bool last; int st = fetch(l); if(st) return st;
  if((st = resolve(path, p, &last))) return st;
  info_of(get(p), info); return 0;
}
#define OK_FILE(f) LFS_ASSERT(l->mounted == 0x11f5 && (f)->open == 0xf11e)
int lfs_file_open(lfs_t *l, lfs_file_t *f, const char *path, int flags) {
  char p[512]; bool last; int st = fetch(l); if(st) return st;
  st = resolve(path, p, &last);
  if(st && !(st == LFS_ERR_NOENT && last)) return st;
  if(st) {
    if(!(flags & LFS_O_CREAT)) return LFS_ERR_NOENT;
    add(p, false); if((st = commit(l))) return st;
  } else {
    if(flags & LFS_O_EXCL) return LFS_ERR_EXIST;
    if(!p[1] || get(p)->dir) return LFS_ERR_ISDIR;
  }
  uint32_t s; for(s = 0; s < SLOTS && busy[s]; s++) ;
  LFS_ASSERT(s < SLOTS);
  memset(f, 0, sizeof *f); busy[s] = true; f->slot = s; f->flags = (uint32_t)flags; strcpy(f->path, p); f->open = 0xf11e;
  Node *x = get(p); f->size = x->n; memcpy(fbuf[s], store + x->at, x->n);
  if(flags & LFS_O_TRUNC) { f->dirty = true; f->size = 0; }
  lfsm_open_files++;
  return 0;
}
static int fsync_(lfs_t *l, lfs_file_t *f) {
  if(f->errored || !f->dirty) return 0;
  int st = fetch(l); if(st) { f->errored = true; return st; }
  Node *x = get(f->path); if(!x || x->dir) { f->dirty = false; return 0; }   /* removed meanwhile */
  if(used + f->size > CAP) { f->errored = true; return LFS_ERR_NOSPC; }
  x->at = used; x->n = f->size; memcpy(store + used, fbuf[f->slot], f->size); used += f->size;
  st = commit(l); if(st) f->errored = true; else f->dirty = false;
  return st;
}
int lfs_file_sync(lfs_t *l, lfs_file_t *f) { OK_FILE(f); return fsync_(l, f); }
int lfs_file_close(lfs_t *l, lfs_file_t *f) { OK_FILE(f); int st = fsync_(l, f); f->open = 0; busy[f->slot] = false; lfsm_open_files--; return st; }
lfs_ssize_t lfs_file_read(lfs_t *l, lfs_file_t *f, void *b, lfs_size_t n) {
  OK_FILE(f); LFS_ASSERT(f->flags & LFS_O_RDONLY);
  if(f->pos >= f->size || !n) return 0;
  int st = fetch(l); if(st) return st;
  if(n > f->size - f->pos) n = f->size - f->pos;
  memcpy(b, fbuf[f->slot] + f->pos, n); f->pos += n; return (lfs_ssize_t)n;
}
static void grow(lfs_file_t *f, uint32_t to) { if(to > f->size) { memset(fbuf[f->slot] + f->size, 0, to - f->size); f->size = to; } }
static uint32_t room(lfs_t *l, lfs_file_t *f) { uint32_t o = 0; for(int i = 0; i < nn; i++) { o += 6 + (uint32_t)strlen(nd[i].path); if(strcmp(nd[i].path, f->path)) o += nd[i].n; } uint32_t a = area_size(l->cfg) - HDR - 64; return o < a ? a - o : 0; }
lfs_ssize_t lfs_file_write(lfs_t *l, lfs_file_t *f, const void *b, lfs_size_t n) {
  OK_FILE(f); LFS_ASSERT(f->flags & LFS_O_WRONLY);
  if((f->flags & LFS_O_APPEND) && f->pos < f->size) f->pos = f->size;
  if((uint64_t)f->pos + n > LFS_FILE_MAX) return LFS_ERR_FBIG;
  int st = fetch(l); if(st) { f->errored = true; return st; }
  if((uint64_t)f->pos + n > room(l, f)) { f->errored = true; return LFS_ERR_NOSPC; }
  if(n) { grow(f, f->pos); memcpy(fbuf[f->slot] + f->pos, b, n); f->pos += n; if(f->pos > f->size) f->size = f->pos; f->dirty = true; }
  f->errored = false; return (lfs_ssize_t)n;
}
lfs_soff_t lfs_file_seek(lfs_t *l, lfs_file_t *f, lfs_soff_t off, int whence) {
  OK_FILE(f); int64_t to = off;
  if(whence == LFS_SEEK_CUR) to += f->pos; else if(whence == LFS_SEEK_END) to += f->size;
  if(to < 0 || to > LFS_FILE_MAX) return LFS_ERR_INVAL;
  f->pos = (uint32_t)to; return (lfs_soff_t)to;
}
int lfs_file_truncate(lfs_t *l, lfs_file_t *f, lfs_off_t n) {
  OK_FILE(f); LFS_ASSERT(f->flags & LFS_O_WRONLY);
  if(n > LFS_FILE_MAX) return LFS_ERR_INVAL;
  int st = fetch(l); if(st) return st;
  if(n > f->size) { if(n > room(l, f)) { f->errored = true; return LFS_ERR_NOSPC; } grow(f, n); f->dirty = true; }
  else if(n < f->size) { f->size = n; f->dirty = true; }
  return 0;
}
lfs_soff_t lfs_file_tell(lfs_t *l, lfs_file_t *f) { OK_FILE(f); return (lfs_soff_t)f->pos; }
int lfs_file_rewind(lfs_t *l, lfs_file_t *f) { lfs_soff_t r = lfs_file_seek(l, f, 0, LFS_SEEK_SET); return r < 0 ? (int)r : 0; }
lfs_soff_t lfs_file_size(lfs_t *l, lfs_file_t *f) { OK_FILE(f); return (lfs_soff_t)f->size; }
int lfs_mkdir(lfs_t *l, const char *path) {
  char p[512]; bool last; int st = fetch(l); if(st) return st;
  st = resolve(path, p, &last); if(!st) return LFS_ERR_EXIST;
  if(!(st == LFS_ERR_NOENT && last)) return st;
  add(p, true); return commit(l);
}
#define OK_DIR(d) LFS_ASSERT(l->mounted == 0x11f5 && (d)->open == 0xd14)
int lfs_dir_open(lfs_t *l, lfs_dir_t *d, const char *path) {
  char p[512]; bool last; int st = fetch(l); if(st) return st;
  if((st = resolve(path, p, &last))) return st;
  if(p[1] && !get(p)->dir) return LFS_ERR_NOTDIR;
  memset(d, 0, sizeof *d); strcpy(d->path, p); d->open = 0xd14; lfsm_open_dirs++; return 0;
}
int lfs_dir_close(lfs_t *l, lfs_dir_t *d) { OK_DIR(d); d->open = 0; lfsm_open_dirs--; return 0; }
int lfs_dir_read(lfs_t *l, lfs_dir_t *d, struct lfs_info *info) {
  OK_DIR(d); memset(info, 0, sizeof *info);
  if(d->pos < 2) { info->type = LFS_TYPE_DIR; strcpy(info->name, d->pos++ ? ".." : "."); return 1; }
  int st = fetch(l); if(st) return st;
  /* in order of the names */
  uint32_t k = d->pos - 2; const char *prev = NULL; Node *b = NULL;
  for(uint32_t j = 0; j <= k; j++) { b = NULL; for(int i = 0; i < nn; i++) if(child(nd[i].path, d->path) && (!prev || strcmp(nd[i].path, prev) > 0) && (!b || strcmp(nd[i].path, b->path) < 0)) b = &nd[i]; if(!b) return 0; prev = b->path; }
  info_of(b, info); d->pos++; return 1;
}
int lfs_dir_rewind(lfs_t *l, lfs_dir_t *d) { OK_DIR(d); int st = fetch(l); if(st) return st; d->pos = 0; return 0; }
