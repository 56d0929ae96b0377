/* A plain in-memory file tree: the oracle for whole back ends. */
#ifndef TREE_H
#define TREE_H
#include <string.h>
#include <stdbool.h>
#define TR_MAX 24
#define TR_DATA 80000
typedef struct { char path[64]; bool dir; int n; unsigned char *d; } TNode;
typedef struct { TNode t[TR_MAX]; int n; } Tree;
static unsigned char *tr_pool[32]; static int tr_np;
static void tr_free(unsigned char *d) { if(!d) return; if(tr_np < 32) tr_pool[tr_np++] = d; else mc_real_free(d); }
static int tr_find(Tree *t, const char *p) { for(int i = 0; i < t->n; i++) if(!strcmp(t->t[i].path, p)) return i; return -1; }
static TNode *tr_get(Tree *t, const char *p) { int i = tr_find(t, p); return i < 0 ? NULL : &t->t[i]; }
static void tr_init(Tree *t) { for(int i = 0; i < TR_MAX; i++) tr_free(t->t[i].d); memset(t, 0, sizeof *t); strcpy(t->t[0].path, "/"); t->t[0].dir = true; t->n = 1; }
static void tr_parent(const char *p, char *out) { strcpy(out, p); char *s = strrchr(out, '/'); if(s == out) s[1] = 0; else *s = 0; }
static bool tr_parent_ok(Tree *t, const char *p) { char b[64]; tr_parent(p, b); TNode *n = tr_get(t, b); return n && n->dir; }
static TNode *tr_add(Tree *t, const char *p, bool dir) { TNode *n = &t->t[t->n++]; memset(n, 0, sizeof *n); strcpy(n->path, p); n->dir = dir; return n; }
static void tr_set(TNode *n, int at, const void *d, int len) {   /* write into a file, zero filling gaps */
  if(!n->d) { n->d = tr_np ? tr_pool[--tr_np] : mc_real_malloc(TR_DATA); }
  if(at > n->n) memset(n->d + n->n, 0, (size_t)(at - n->n));
  if(d) memcpy(n->d + at, d, (size_t)len);
  if(at + len > n->n) n->n = at + len;
}
static bool tr_below(const char *p, const char *dir) { size_t l = strlen(dir); if(l == 1) return p[1] != 0; return !strncmp(p, dir, l) && p[l] == '/'; }
static bool tr_empty(Tree *t, const char *p) { for(int i = 0; i < t->n; i++) if(tr_below(t->t[i].path, p)) return false; return true; }
static void tr_del(Tree *t, const char *p) { int i = tr_find(t, p); if(i < 0) return; tr_free(t->t[i].d); t->t[i] = t->t[--t->n]; memset(&t->t[t->n], 0, sizeof(TNode)); }
static void tr_rename(Tree *t, const char *a, const char *b) {
  size_t la = strlen(a); char s[128];
  for(int i = 0; i < t->n; i++) if(!strcmp(t->t[i].path, a) || tr_below(t->t[i].path, a)) { snprintf(s, sizeof s, "%s%s", b, t->t[i].path + la); strcpy(t->t[i].path, s); }
}
static uint64_t tr_hash(Tree *t) { uint64_t h = 0; for(int i = 0; i < t->n; i++) { uint64_t x = mc_hash(MC_HASH0, t->t[i].path, strlen(t->t[i].path)); if(t->t[i].n) x = mc_hash(x, t->t[i].d, (size_t)t->t[i].n); h += x * 31 + t->t[i].dir; } return h; }
/* the flag rules of the documentation */
typedef struct { bool ok, create, trunc, can_write, can_read; int err; } OpenRule;
static OpenRule open_rule(int fl, bool exists, bool write_truncates) {
  OpenRule r = { .can_read = !!(fl & EVFS_READ), .can_write = !!(fl & (EVFS_WRITE)) };
  bool wt = write_truncates && (fl & EVFS_WRITE) && !(fl & (EVFS_READ | EVFS_OPEN_OR_NEW | EVFS_APPEND));
  if(exists) {
    if(fl & EVFS_NO_EXIST) { r.err = EVFS_ERR_EXISTS; return r; }
    r.ok = true; r.trunc = (fl & EVFS_OVERWRITE) || wt;
  } else {
    if(!(fl & (EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && !wt) { r.err = EVFS_ERR_NO_FILE; return r; }
    r.ok = r.create = true;
  }
  return r;
}
static const char *flag_str(int f) {
  static char b[4][64]; static int k; char *s = b[k = (k + 1) & 3];
  sprintf(s, "%s%s%s%s%s%s", f & 1 ? "READ " : "", f & 2 ? "WRITE " : "", f & 4 ? "OPEN_OR_NEW " : "", f & 8 ? "NO_EXIST " : "", f & 16 ? "OVERWRITE " : "", f & 32 ? "APPEND " : "");
  if(!*s) strcpy(s, "none "); s[strlen(s) - 1] = 0; return s;
}
static __attribute__((unused)) void tr_unused(void) { (void)tr_init; (void)tr_hash; (void)tr_parent_ok; (void)tr_add; (void)tr_set; (void)tr_empty; (void)tr_del; (void)tr_rename; (void)open_rule; (void)flag_str; }
#endif
