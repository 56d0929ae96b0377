#include "memfs.h"
#include <stdarg.h>

typedef struct { EvfsFile base; Mem *m; int node; evfs_off_t pos; int flags; int live; bool lost; } MemFile;
typedef struct { EvfsDir base; Mem *m; char path[MEM_PATH]; int cur; int dotpos; char name[MEM_PATH]; int live; } MemDir;

static const char *op_names[] = { "?", "open", "stat", "delete", "rename", "make_dir", "open_dir", "get_cur_dir", "set_cur_dir", "vfs_ctrl", "root",
  "read", "write", "truncate", "sync", "size", "seek", "tell", "eof", "file_ctrl", "close", "dir_read", "dir_rewind", "dir_close" };
const char *mem_op_name(int op) { return op_names[op]; }

static void logf_(Mem *m, const char *fmt, ...) {
  if(!m->logging) return;
  char t[900]; va_list ap; va_start(ap, fmt); int n = vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
  if(n >= (int)sizeof t) n = sizeof t - 1;
  m->log_hash = mc_hash(m->log_hash, t, (size_t)n);
  if(m->log_len + n + 2 > m->log_cap) { m->log_cap = (m->log_len + n + 2) * 2; m->log = mc_real_realloc(m->log, (size_t)m->log_cap); }
  memcpy(m->log + m->log_len, t, (size_t)n); m->log_len += n; m->log[m->log_len++] = '\n'; m->log[m->log_len] = 0;
}
void mem_log(Mem *m, bool on) { m->logging = on; m->log_len = 0; if(m->log) m->log[0] = 0; m->log_hash = MC_HASH0; }

static int step(Mem *m, int op) {
  m->ops++; m->kind_count[op]++;
  mc_tick();
  if(m->op_limit && m->ops > m->op_limit) mc_fail("endless loop of underlying operations (last: %s)", op_names[op]);
  if(m->dead) return EVFS_ERR_IO;
  if(m->fail_at && (m->fail_mask & MF_BIT(op))) {
    m->fault_seen++;
    if(m->fault_seen == m->fail_at || (m->fail_second && m->fault_seen == m->fail_at + m->fail_second) || (m->fail_forever && m->fault_seen > m->fail_at)) {
      if(!m->fired) m->fired_op = op;
      m->fired = true; m->fired_set |= MF_BIT(op);
      if(m->crash) m->dead = true;
      return m->fail_err;
    }
  }
  return EVFS_OK;
}

void sched_touch(const void *p, size_t n, bool write, const char *what) __attribute__((weak));
static void absp(Mem *m, const char *path, char *out) { if(sched_touch) sched_touch(path, strlen(path) + 1, false, "a path given to the underlying file system"); ref_absolute(m->cwd, path, m->dos, out); }

static void hook(Mem *m, int op, const char *raw, const char *abs) { if(m->path_hook) m->path_hook(m, op, raw, abs); }

MemNode *mem_find(Mem *m, const char *abs) {
  for(int i = 0; i < m->nhigh; i++) if(m->n[i].used && !m->n[i].unlinked && !strcmp(m->n[i].path, abs)) return &m->n[i];
  return NULL;
}
static MemNode *add(Mem *m, const char *abs, bool dir) {
  for(int i = 0; i < MEM_NODES; i++) if(!m->n[i].used) {
    MemNode *n = &m->n[i];
    n->used = true; n->dir = dir; n->unlinked = false; n->size = n->shown = 0; n->opens = 0; n->mtime = 1000 + i;
    snprintf(n->path, MEM_PATH, "%s", abs);
    if(i >= m->nhigh) m->nhigh = i + 1;
    return n;
  }
  printf("harness error: memfs full\n"); fflush(stdout); _Exit(3);
}
static bool is_root(Mem *m, const char *abs) { bool a; int r = ref_root(abs, m->dos, &a); return a && !abs[r]; }
static bool parent_ok(Mem *m, const char *abs) {
  char p[REF_MAX]; strcpy(p, abs);
  char *s = strrchr(p, '/');
  if(!s) return false;
  s[1] = 0;
  if(is_root(m, p)) return true;
  *s = 0;
  MemNode *n = mem_find(m, p);
  return n && n->dir;
}
static bool under_file(Mem *m, const char *abs) { /* some ancestor is a regular file */
  char p[REF_MAX]; strcpy(p, abs);
  for(char *s; (s = strrchr(p, '/')) && s > p;) { *s = 0; MemNode *n = mem_find(m, p); if(n) return !n->dir; }
  return false;
}
MemNode *mem_mkdir(Mem *m, const char *abs) { MemNode *n = mem_find(m, abs); return n ? n : add(m, abs, true); }
/* big blocks are kept: the allocator would map and unmap them every time */
enum { NPOOL = 6, POOL_MIN = 40000 };
static struct { unsigned char *p; int cap; } pool[NPOOL];
static void data_free(MemNode *n) {
  if(n->cap > POOL_MIN) for(int i = 0; i < NPOOL; i++) if(!pool[i].p) { pool[i].p = n->data; pool[i].cap = n->cap; n->data = NULL; n->cap = 0; return; }
  mc_real_free(n->data); n->data = NULL; n->cap = 0;
}
static void setsize(MemNode *n, int size) {
  if(size > n->cap && !n->data) for(int i = 0; i < NPOOL; i++) if(pool[i].p && pool[i].cap >= size && size > POOL_MIN) { n->data = pool[i].p; n->cap = pool[i].cap; pool[i].p = NULL; break; }
  if(size > n->cap) { n->cap = size * 2 + 64; n->data = mc_real_realloc(n->data, (size_t)n->cap); }
  if(size > n->size) memset(n->data + n->size, 0, (size_t)(size - n->size));
  n->size = size;
}
MemNode *mem_put(Mem *m, const char *abs, const void *d, int size) {
  MemNode *n = mem_find(m, abs); if(!n) n = add(m, abs, false);
  n->size = 0; setsize(n, size); n->shown = size; if(size) memcpy(n->data, d, (size_t)size);
  return n;
}

/* file and directory handles belong to one thread at a time */
static void own(const void *p) { if(sched_touch) sched_touch((const char *)p + sizeof(EvfsFile), 4, true, "an underlying file handle"); }
/* ---- files ---- */
static MemFile *MFp(EvfsFile *fh) {
  MemFile *f = (MemFile *)fh;
  own(f);
  if(f->live != 0x11FE) mc_fail("underlying file handle used after close or without open");
  return f;
}
static int mf_ctrl(EvfsFile *fh, int cmd, void *arg) {
  MemFile *f = MFp(fh); logf_(f->m, "ctrl %s %d", f->m->n[f->node].path, cmd);
  f->m->kind_count[MF_FCTRL]++;
  if(mem_user_cmd(cmd)) { *(int *)arg += 5; return EVFS_OK; }
  return EVFS_ERR_NO_SUPPORT;
}
static int mf_close(EvfsFile *fh) {
  MemFile *f = MFp(fh); Mem *m = f->m;
  int st = step(m, MF_CLOSE);
  logf_(m, "close %s", m->n[f->node].path);
  f->live = 0xDEAD;
  m->open_files--;
  MemNode *n = &m->n[f->node];
  if(st != EVFS_OK && m->close_loses && !m->dead && n->size > n->shown) { m->lost_bytes += n->size - n->shown; setsize(n, n->shown); }
  n->shown = n->size;
  if(--n->opens == 0 && n->unlinked) n->used = false;
  return st;
}
static ptrdiff_t mf_read(EvfsFile *fh, void *buf, size_t size) {
  if(sched_touch) sched_touch(buf, size, true, "a read buffer");
  MemFile *f = MFp(fh); Mem *m = f->m; MemNode *n = &m->n[f->node];
  logf_(m, "read %s @%d %d", n->path, (int)f->pos, (int)size);
  int st = step(m, MF_READ);
  if(st != EVFS_OK && !(m->short_io && m->fired && !m->dead)) return st;
  if(!(f->flags & EVFS_READ) && !m->no_rw_check) return EVFS_ERR_AUTH;
  int left = n->size - f->pos; if(left < 0) left = 0;
  if((size_t)left > size) left = (int)size;
  if(st != EVFS_OK && left > m->short_len) left = m->short_len;
  if(left) memcpy(buf, n->data + f->pos, (size_t)left);
  f->pos += left;
  return left;
}
static ptrdiff_t mf_write(EvfsFile *fh, const void *buf, size_t size) {
  if(sched_touch) sched_touch(buf, size, false, "a write buffer");
  MemFile *f = MFp(fh); Mem *m = f->m; MemNode *n = &m->n[f->node];
  logf_(m, "write %s @%d %d %s", n->path, (int)f->pos, (int)size, mc_bytes(buf, size > 40 ? 40 : size));
  if(m->strict_seek && f->lost) mc_fail("data is written to '%s' at an unknown position after a failed seek", n->path);
  bool was_dead = m->dead;
  int st = step(m, MF_WRITE);
  if(st != EVFS_OK) {
    if(m->dead && !was_dead) { /* torn write */
      int k = m->torn < 0 ? (int)size + m->torn : m->torn;
      if(k < 0) k = 0;
      if(k > (int)size) k = (int)size;
      if(f->flags & EVFS_APPEND) f->pos = n->size;
      if(k > 0) { if(f->pos + k > n->size) setsize(n, f->pos + k); memcpy(n->data + f->pos, buf, (size_t)k); m->mutations++; }
      return st;
    }
    if(!(m->short_io && !m->dead)) return st;
    if((int)size > m->short_len) size = (size_t)m->short_len;
  }
  if(!(f->flags & (EVFS_WRITE | EVFS_APPEND | EVFS_OVERWRITE)) && !m->no_rw_check) return EVFS_ERR_AUTH;
  if(m->readonly) return EVFS_ERR_DISABLED;
  if(f->flags & EVFS_APPEND) f->pos = n->size;
  if(size) {
    m->mutations++;
    if(f->pos + (int)size > n->size) setsize(n, f->pos + (int)size);
    memcpy(n->data + f->pos, buf, size);
  }
  f->pos += (evfs_off_t)size;
  return (ptrdiff_t)size;
}
static int mf_truncate(EvfsFile *fh, evfs_off_t size) {
  MemFile *f = MFp(fh); Mem *m = f->m; MemNode *n = &m->n[f->node];
  logf_(m, "truncate %s %d", n->path, (int)size);
  int st = step(m, MF_TRUNC); if(st != EVFS_OK) return st;
  if(m->readonly) return EVFS_ERR_DISABLED;
  if(size < 0) return EVFS_ERR_BAD_ARG;
  if(!(f->flags & (EVFS_WRITE | EVFS_APPEND | EVFS_OVERWRITE)) && !m->no_rw_check) return EVFS_ERR_AUTH;
  m->mutations++;
  setsize(n, size);
  return EVFS_OK;
}
static int mf_sync(EvfsFile *fh) {
  MemFile *f = MFp(fh); MemNode *n = &f->m->n[f->node]; logf_(f->m, "sync %s", n->path);
  int st = step(f->m, MF_SYNC); if(st == EVFS_OK) n->shown = n->size;
  return st;
}
static evfs_off_t mf_size(EvfsFile *fh) { MemFile *f = MFp(fh); f->m->kind_count[MF_SIZE]++; return f->m->n[f->node].size; }
static int mf_seek(EvfsFile *fh, evfs_off_t off, EvfsSeekDir org) {
  MemFile *f = MFp(fh); Mem *m = f->m;
  logf_(m, "seek %s %d %d", m->n[f->node].path, (int)off, (int)org);
  int st = step(m, MF_SEEK); f->lost = st != EVFS_OK; if(st != EVFS_OK) return st;
  evfs_off_t p = off;
  if(org == EVFS_SEEK_REL) p = f->pos + off;
  else if(org == EVFS_SEEK_REV) p = m->n[f->node].size - off;
  if(p < 0) p = 0;
  f->pos = p;
  return EVFS_OK;
}
static evfs_off_t mf_tell(EvfsFile *fh) { MemFile *f = MFp(fh); f->m->kind_count[MF_TELL]++; return f->pos; }
static bool mf_eof(EvfsFile *fh) { MemFile *f = MFp(fh); f->m->kind_count[MF_EOF]++; return f->pos >= f->m->n[f->node].size; }
static const EvfsFileMethods mf_methods = { mf_ctrl, mf_close, mf_read, mf_write, mf_truncate, mf_sync, mf_size, mf_seek, mf_tell, mf_eof };

/* ---- directories ---- */
static MemDir *MDp(EvfsDir *dh) {
  MemDir *d = (MemDir *)dh;
  own(d);
  if(d->live != 0x11FE) mc_fail("underlying directory handle used after close or without open");
  return d;
}
static int md_close(EvfsDir *dh) {
  MemDir *d = MDp(dh); int st = step(d->m, MF_DCLOSE); logf_(d->m, "dir_close %s", d->path);
  d->live = 0xDEAD; d->m->open_dirs--; return st;
}
static int slot(Mem *m, int k) { int i = m->reverse ? m->nhigh - 1 - k : k; return (i + m->shuffle) % m->nhigh; }
static int md_read(EvfsDir *dh, EvfsInfo *info) {
  MemDir *d = MDp(dh); Mem *m = d->m;
  memset(info, 0, sizeof *info);
  logf_(m, "dir_read %s", d->path);
  int st = step(m, MF_DREAD); if(st != EVFS_OK) return st;
  if(m->dots && d->dotpos < 2) {
    strcpy(d->name, d->dotpos ? ".." : "."); d->dotpos++;
    info->name = d->name; info->type = EVFS_FILE_DIR; return EVFS_OK;
  }
  size_t pl = strlen(d->path); if(is_root(m, d->path)) pl--;
  while(d->cur < m->nhigh) {
    MemNode *n = &m->n[slot(m, d->cur++)];
    if(!n->used || n->unlinked) continue;
    if(strncmp(n->path, d->path, pl) || n->path[pl] != '/' || !n->path[pl+1] || strchr(n->path + pl + 1, '/')) continue;
    strcpy(d->name, n->path + pl + 1);
    info->name = d->name; info->size = n->dir ? 0 : m->lazy_size ? n->shown : n->size; info->mtime = n->mtime; info->type = n->dir ? EVFS_FILE_DIR : 0;
    return EVFS_OK;
  }
  return EVFS_DONE;
}
static int md_rewind(EvfsDir *dh) { MemDir *d = MDp(dh); logf_(d->m, "dir_rewind %s", d->path); int st = step(d->m, MF_DREWIND); if(st != EVFS_OK) return st; d->cur = 0; d->dotpos = 0; return EVFS_OK; }
static const EvfsDirMethods md_methods = { md_close, md_read, md_rewind };

/* ---- file system ---- */
static int m_open(Evfs *v, const char *path, EvfsFile *fh, int flags) {
  Mem *m = v->fs_data; MemFile *f = (MemFile *)fh; char abs[REF_MAX]; absp(m, path, abs);
  hook(m, MF_OPEN, path, abs); logf_(m, "open %s %x", path, flags);
  memset(f, 0, sizeof *f);
  int st = step(m, MF_OPEN); if(st != EVFS_OK) return st;
  if(m->max_path && (int)strlen(path) > m->max_path) return EVFS_ERR_TOO_LONG;
  if((flags & (EVFS_WRITE|EVFS_OPEN_OR_NEW|EVFS_OVERWRITE|EVFS_APPEND|EVFS_NO_EXIST)) && m->readonly) return EVFS_ERR_DISABLED;
  if(is_root(m, abs)) return EVFS_ERR_IS_DIR;
  MemNode *n = mem_find(m, abs);
  if(n && n->dir) return EVFS_ERR_IS_DIR;
  if(n && (flags & EVFS_NO_EXIST)) return EVFS_ERR_EXISTS;
  if(!n) {
    if(under_file(m, abs) || !parent_ok(m, abs)) return EVFS_ERR_NO_PATH;
    if(!(flags & (EVFS_OPEN_OR_NEW|EVFS_NO_EXIST|EVFS_OVERWRITE|EVFS_APPEND))) return EVFS_ERR_NO_FILE;
    n = add(m, abs, false); m->mutations++;
  } else if(flags & EVFS_OVERWRITE) { if(n->size) m->mutations++; n->size = 0; n->shown = 0; }
  f->base.methods = &mf_methods; f->m = m; f->node = (int)(n - m->n); f->flags = flags; f->live = 0x11FE;
  n->opens++; m->open_files++;
  return EVFS_OK;
}
static int m_stat(Evfs *v, const char *path, EvfsInfo *info) {
  Mem *m = v->fs_data; char abs[REF_MAX]; absp(m, path, abs);
  hook(m, MF_STAT, path, abs); logf_(m, "stat %s", path);
  memset(info, 0, sizeof *info);
  int st = step(m, MF_STAT); if(st != EVFS_OK) return st;
  if(is_root(m, abs)) { info->type = EVFS_FILE_DIR; return EVFS_OK; }
  MemNode *n = mem_find(m, abs);
  if(!n) return under_file(m, abs) ? EVFS_ERR_NO_PATH : EVFS_ERR_NO_FILE;
  info->type = n->dir ? EVFS_FILE_DIR : 0; info->size = n->dir ? 0 : m->lazy_size ? n->shown : n->size; info->mtime = n->mtime;
  return EVFS_OK;
}
static bool has_children(Mem *m, const char *abs) {
  size_t l = strlen(abs);
  for(int i = 0; i < m->nhigh; i++) if(m->n[i].used && !m->n[i].unlinked && !strncmp(m->n[i].path, abs, l) && m->n[i].path[l] == '/') return true;
  return false;
}
static int m_delete(Evfs *v, const char *path) {
  Mem *m = v->fs_data; char abs[REF_MAX]; absp(m, path, abs);
  hook(m, MF_DELETE, path, abs); logf_(m, "delete %s", path);
  int st = step(m, MF_DELETE); if(st != EVFS_OK) return st;
  if(m->readonly) return EVFS_ERR_DISABLED;
  if(is_root(m, abs)) return EVFS_ERR_AUTH;
  MemNode *n = mem_find(m, abs);
  if(!n) return EVFS_ERR_NO_FILE;
  if(n->dir && has_children(m, abs)) return EVFS_ERR_NOT_EMPTY;
  if(n->opens && m->refuse_open_delete) return EVFS_ERR_AUTH;
  m->mutations++;
  if(n->opens) n->unlinked = true; else n->used = false;
  return EVFS_OK;
}
static int m_rename(Evfs *v, const char *a, const char *b) {
  Mem *m = v->fs_data; char aa[REF_MAX], ab[REF_MAX]; absp(m, a, aa); absp(m, b, ab);
  hook(m, MF_RENAME, a, aa); hook(m, MF_RENAME, b, ab); logf_(m, "rename %s %s", a, b);
  int st = step(m, MF_RENAME); if(st != EVFS_OK) return st;
  if(m->readonly) return EVFS_ERR_DISABLED;
  if(is_root(m, aa) || is_root(m, ab)) return EVFS_ERR_AUTH;
  MemNode *n = mem_find(m, aa);
  if(!n) return EVFS_ERR_NO_FILE;
  if(mem_find(m, ab)) return EVFS_ERR_EXISTS;
  if(!parent_ok(m, ab)) return EVFS_ERR_NO_PATH;
  size_t l = strlen(aa);
  if(!strncmp(ab, aa, l) && ab[l] == '/') return EVFS_ERR_BAD_ARG;
  m->mutations++;
  for(int i = 0; i < m->nhigh; i++) {
    MemNode *c = &m->n[i];
    if(c->used && !c->unlinked && !strncmp(c->path, aa, l) && (c->path[l] == '/' || !c->path[l])) {
      char t[MEM_PATH * 2]; snprintf(t, sizeof t, "%s%s", ab, c->path + l); snprintf(c->path, MEM_PATH, "%s", t);
    }
  }
  return EVFS_OK;
}
static int m_make_dir(Evfs *v, const char *path) {
  Mem *m = v->fs_data; char abs[REF_MAX]; absp(m, path, abs);
  hook(m, MF_MKDIR, path, abs); logf_(m, "make_dir %s", path);
  int st = step(m, MF_MKDIR); if(st != EVFS_OK) return st;
  if(m->readonly) return EVFS_ERR_DISABLED;
  if(is_root(m, abs) || mem_find(m, abs)) return EVFS_ERR_EXISTS;
  if(!parent_ok(m, abs)) return EVFS_ERR_NO_PATH;
  m->mutations++;
  add(m, abs, true);
  return EVFS_OK;
}
static int m_open_dir(Evfs *v, const char *path, EvfsDir *dh) {
  Mem *m = v->fs_data; MemDir *d = (MemDir *)dh; char abs[REF_MAX]; absp(m, path, abs);
  hook(m, MF_OPENDIR, path, abs); logf_(m, "open_dir %s", path);
  memset(d, 0, sizeof *d);
  int st = step(m, MF_OPENDIR); if(st != EVFS_OK) return st;
  MemNode *n = mem_find(m, abs);
  if(!is_root(m, abs)) {
    if(!n) return EVFS_ERR_NO_FILE;
    if(!n->dir) return EVFS_ERR_NO_PATH;
  }
  d->base.methods = &md_methods; d->m = m; d->live = 0x11FE; snprintf(d->path, MEM_PATH, "%s", abs);
  m->open_dirs++;
  return EVFS_OK;
}
static int m_get_cur_dir(Evfs *v, StringRange *r) {
  Mem *m = v->fs_data; logf_(m, "get_cur_dir");
  int st = step(m, MF_GETCWD); if(st != EVFS_OK) return st;
  if((ptrdiff_t)strlen(m->cwd) + 1 > r->end - r->start) return EVFS_ERR_OVERFLOW;
  strcpy((char *)r->start, m->cwd);
  return EVFS_OK;
}
static int m_set_cur_dir(Evfs *v, const char *path) {
  Mem *m = v->fs_data; char abs[REF_MAX]; absp(m, path, abs);
  hook(m, MF_SETCWD, path, abs); logf_(m, "set_cur_dir %s", path);
  int st = step(m, MF_SETCWD); if(st != EVFS_OK) return st;
  if(!is_root(m, abs)) { MemNode *n = mem_find(m, abs); if(!n) return EVFS_ERR_NO_FILE; if(!n->dir) return EVFS_ERR_NO_PATH; }
  snprintf(m->cwd, MEM_PATH, "%s", abs);
  return EVFS_OK;
}
static int m_vfs_ctrl(Evfs *v, int cmd, void *arg) {
  Mem *m = v->fs_data; m->last_cmd = cmd; logf_(m, "vfs_ctrl %d", cmd);
  m->kind_count[MF_CTRL]++;
  switch(cmd) {
    case EVFS_CMD_UNREGISTER: m->unregistered++; return EVFS_OK;
    case EVFS_CMD_SET_READONLY: m->readonly = !!*(unsigned *)arg; return EVFS_OK;
    case EVFS_CMD_SET_NO_DIR_DOTS: m->dots = !*(unsigned *)arg; return EVFS_OK;
    case EVFS_CMD_GET_STAT_FIELDS: *(unsigned *)arg = EVFS_INFO_SIZE|EVFS_INFO_MTIME|EVFS_INFO_TYPE; return EVFS_OK;
    case EVFS_CMD_GET_DIR_FIELDS: *(unsigned *)arg = EVFS_INFO_NAME|EVFS_INFO_SIZE|EVFS_INFO_MTIME|EVFS_INFO_TYPE; return EVFS_OK;
    default: if(mem_user_cmd(cmd)) { *(int *)arg += 3; return EVFS_OK; } return EVFS_ERR_NO_SUPPORT;
  }
}
static bool m_root(Evfs *v, const char *path, StringRange *root) {
  Mem *m = v->fs_data; bool abs; int r = ref_root(path, m->dos, &abs);
  m->kind_count[MF_ROOT]++;
  range_init(root, path, r);
  return abs;
}

void mem_init(Mem *m, const char *name) {
  mem_free(m);
  char *log = m->log; int cap = m->log_cap;
  memset(m, 0, sizeof *m);
  m->log = log; m->log_cap = cap; m->log_hash = MC_HASH0;
  snprintf(m->name, sizeof m->name, "%s", name);
  m->vfs.vfs_name = m->name; m->vfs.fs_data = m;
  m->vfs.vfs_file_size = sizeof(MemFile); m->vfs.vfs_dir_size = sizeof(MemDir);
  m->vfs.m_open = m_open; m->vfs.m_stat = m_stat; m->vfs.m_delete = m_delete; m->vfs.m_rename = m_rename;
  m->vfs.m_make_dir = m_make_dir; m->vfs.m_open_dir = m_open_dir; m->vfs.m_get_cur_dir = m_get_cur_dir;
  m->vfs.m_set_cur_dir = m_set_cur_dir; m->vfs.m_vfs_ctrl = m_vfs_ctrl; m->vfs.m_path_root_component = m_root;
  strcpy(m->cwd, "/");
  m->op_limit = 20000; m->fail_err = EVFS_ERR_IO;
}
void mem_free(Mem *m) {
  for(int i = 0; i < m->nhigh && i < MEM_NODES; i++) if(m->n[i].data) data_free(&m->n[i]);
}
static int cmpn(const void *a, const void *b) { return strcmp((*(MemNode *const *)a)->path, (*(MemNode *const *)b)->path); }
static int sorted(Mem *m, MemNode **o) {
  int k = 0; for(int i = 0; i < m->nhigh; i++) if(m->n[i].used && !m->n[i].unlinked) o[k++] = &m->n[i];
  qsort(o, (size_t)k, sizeof *o, cmpn); return k;
}
uint64_t mem_hash(Mem *m) {
  MemNode *o[MEM_NODES]; int k = sorted(m, o); uint64_t h = MC_HASH0;
  for(int i = 0; i < k; i++) {
    h = mc_hash(h, o[i]->path, strlen(o[i]->path) + 1); h = mc_hash(h, &o[i]->dir, 1); h = mc_hash(h, &o[i]->size, sizeof(int));
    if(!o[i]->dir && o[i]->size) h = mc_hash(h, o[i]->data, (size_t)o[i]->size);
  }
  return mc_hash(h, m->cwd, strlen(m->cwd));
}
bool mem_same(Mem *a, Mem *b, char *why, size_t n) {
  MemNode *x[MEM_NODES], *y[MEM_NODES]; int i = 0, j = 0, kx = sorted(a, x), ky = sorted(b, y);
  while(i < kx || j < ky) {
    int c = i >= kx ? 1 : j >= ky ? -1 : strcmp(x[i]->path, y[j]->path);
    if(c) { snprintf(why, n, "'%s' exists on one side only", c < 0 ? x[i]->path : y[j]->path); return false; }
    if(x[i]->dir != y[j]->dir || x[i]->size != y[j]->size || (x[i]->size && memcmp(x[i]->data, y[j]->data, (size_t)x[i]->size))) { snprintf(why, n, "'%s' differs", x[i]->path); return false; }
    i++; j++;
  }
  return true;
}
void mem_fault(Mem *m, unsigned mask, int at, int err, bool forever) {
  m->fail_second = 0; m->fail_mask = mask; m->fail_at = at; m->fail_err = err; m->fail_forever = forever; m->fired = false; m->fired_set = 0; m->fault_seen = 0;
}
void mem_clear_fault(Mem *m) { m->fail_at = 0; m->fail_second = 0; m->fail_mask = 0; m->fired = false; m->fail_forever = false; m->short_io = false; m->crash = false; m->dead = false; }
void mem_revive(Mem *m) {
  mem_clear_fault(m);
  for(int i = 0; i < m->nhigh; i++) { m->n[i].opens = 0; if(m->n[i].used && m->n[i].unlinked) m->n[i].used = false; }
  m->open_files = m->open_dirs = 0;
}
int mem_count_prefix(Mem *m, const char *p) {
  int k = 0; for(int i = 0; i < m->nhigh; i++) if(m->n[i].used && !m->n[i].unlinked && !strncmp(m->n[i].path, p, strlen(p))) k++;
  return k;
}
void mem_dump(Mem *m) {
  MemNode *o[MEM_NODES]; int k = sorted(m, o);
  for(int i = 0; i < k; i++) mc_op("    [%s] %s %d %s", m->name, o[i]->path, o[i]->size, o[i]->dir ? "<dir>" : mc_bytes(o[i]->data, (size_t)(o[i]->size > 60 ? 60 : o[i]->size)));
}
