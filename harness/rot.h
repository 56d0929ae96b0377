/* Reference model of a rotating log: a byte run that loses its oldest chunk when a byte
   would need one chunk more than configured. */
#ifndef ROT_H
#define ROT_H
#include "common.h"
#include "evfs/shim/shim_rotate.h"
#ifndef RM_CAP
#define RM_CAP 4096
#endif
typedef struct { int C, M, n, pos; long dropped; unsigned char d[RM_CAP]; } RM;
/* the appended stream: no two 3-byte windows of the first few thousand bytes are alike */
static inline unsigned char rot_byte(long i) { uint32_t x = (uint32_t)i * 2654435761u; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; return (unsigned char)x; }
static inline void rm_drop(RM *m) { memmove(m->d, m->d + m->C, (size_t)(m->n - m->C)); m->n -= m->C; m->dropped += m->C; m->pos = m->pos > m->C ? m->pos - m->C : 0; }
static inline void rm_append(RM *m, const unsigned char *b, int k) { for(int i = 0; i < k; i++) { if(m->n == m->C * m->M) rm_drop(m); m->d[m->n++] = b[i]; } }
static inline void rm_write(RM *m, const unsigned char *b, int k) { for(int i = 0; i < k; i++) { if(m->pos == m->n) rm_append(m, b + i, 1); else m->d[m->pos] = b[i]; m->pos++; } }
static inline void rm_trunc(RM *m, int t) { if(t < m->n) { m->n = t; if(m->pos > t) m->pos = t; } }
static inline int rm_trim(RM *m, int t) { int k = t / m->C * m->C; if(k > m->n) k = m->n; memmove(m->d, m->d + k, (size_t)(m->n - k)); m->n -= k; m->pos = m->pos > k ? m->pos - k : 0; m->dropped += k; return k; }
/* chunk files: at most M, none longer than C, nothing else but the geometry file */
static inline void rot_files(Mem *m, const char *dir, int C, int M) {
  int k = 0, other = 0; char p[200]; size_t l = (size_t)snprintf(p, sizeof p, "%s/", dir);
  for(int i = 0; i < m->nhigh; i++) {
    MemNode *n = &m->n[i];
    if(!n->used || n->unlinked || strncmp(n->path, p, l)) continue;
    if(!strcmp(n->path + l, "geom.dat")) continue;
    if(n->size > C) mc_fail("chunk file %s has %d bytes, more than the chunk size %d", n->path, n->size, C);
    if(n->path[l] == 'c') k++; else other++;
  }
  if(k > M) mc_fail("the log uses %d chunk files, more than the maximum %d", k, M);
  if(other) mc_fail("the log's container has %d foreign files", other);
}
static inline void rot_same(EvfsFile *f, const unsigned char *d, int n, const char *when) {
  static unsigned char b[RM_CAP + 64];
  int sz = (int)evfs_file_size(f);
  if(sz != n) mc_fail("%s: the log reports %d bytes instead of %d", when, sz, n);
  int st = evfs_file_seek(f, 0, EVFS_SEEK_TO);
  if(st != EVFS_OK) mc_fail("%s: rewinding fails: %s", when, EN(st));
  int r = (int)evfs_file_read(f, b, (size_t)n + 40);
  if(r != n) mc_fail("%s: reading everything gives %d bytes instead of %d", when, r, n);
  for(int i = 0; i < n; i++) if(b[i] != d[i]) mc_fail("%s: byte %d of %d differs from what was written", when, i, n);
}
#endif
