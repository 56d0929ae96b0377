#include "images.h"
#include <stdio.h>
#include <string.h>

void tar_start(Img *t) { if(sizeof t->d > 1 << 16) t->n = 0; else memset(t, 0, sizeof *t); }
void tar_fix(unsigned char *h) {
  unsigned sum = 0;
  memset(h + 148, ' ', 8);
  for(int i = 0; i < 512; i++) sum += h[i];
  snprintf((char *)h + 148, 8, "%06o", sum);
  h[155] = ' ';
}
int tar_add(Img *t, const char *name, const char *prefix, char type, const void *data, int size, unsigned mtime) {
  unsigned char *h = t->d + t->n; int off = t->n;
  memset(h, 0, 512);
  memcpy(h, name, strlen(name) > 100 ? 100 : strlen(name));
  memcpy(h + 100, "0000644", 7); memcpy(h + 108, "0001750", 7); memcpy(h + 116, "0001750", 7);
  snprintf((char *)h + 124, 12, "%011o", (unsigned)size);
  snprintf((char *)h + 136, 12, "%011o", mtime);
  h[156] = (unsigned char)type;
  memcpy(h + 257, "ustar  ", 8);
  strcpy((char *)h + 265, "user"); strcpy((char *)h + 297, "group");
  if(prefix) memcpy(h + 345, prefix, strlen(prefix));
  tar_fix(h);
  t->n += 512;
  if(size > 0) { memcpy(t->d + t->n, data, (size_t)size); int w = (size + 511) / 512 * 512; memset(t->d + t->n + size, 0, (size_t)(w - size)); t->n += w; }
  return off;
}
void tar_end(Img *t, int blocks) { memset(t->d + t->n, 0, (size_t)blocks * 512); t->n += blocks * 512; }

static void put(unsigned char *p, uint32_t v) { p[0] = (unsigned char)(v >> 24); p[1] = (unsigned char)(v >> 16); p[2] = (unsigned char)(v >> 8); p[3] = (unsigned char)v; }
static uint32_t get(const unsigned char *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static int pad16(int n) { return (n + 15) & ~15; }
void rom_fix_header(unsigned char *h) {
  int len = 16 + pad16((int)strlen((char *)h + 16) + 1);
  put(h + 12, 0);
  uint32_t s = 0; for(int i = 0; i < len; i += 4) s += get(h + i);
  put(h + 12, (uint32_t)-(int32_t)s);
}
void rom_fix_super(Img *im) {
  int len = im->n < 512 ? im->n : 512;
  put(im->d + 12, 0);
  uint32_t s = 0; for(int i = 0; i < len; i += 4) s += get(im->d + i);
  put(im->d + 12, (uint32_t)-(int32_t)s);
}
static int entry(Img *im, const char *name, int mode, uint32_t spec, const void *data, int size) {
  int off = im->n;
  unsigned char *h = im->d + off;
  int hl = 16 + pad16((int)strlen(name) + 1);
  memset(h, 0, (size_t)hl);
  put(h, (uint32_t)mode); put(h + 4, spec); put(h + 8, (uint32_t)size);
  strcpy((char *)h + 16, name);
  im->n += hl;
  if(size) { memcpy(im->d + im->n, data, (size_t)size); memset(im->d + im->n + size, 0, (size_t)(pad16(size) - size)); im->n += pad16(size); }
  return off;
}
static void link_next(Img *im, int prev, int next) {
  if(prev < 0) return;
  unsigned char *h = im->d + prev;
  put(h, (get(h) & 15) | (uint32_t)next);
}
static void dir_body(Img *im, RomNode *n, int count, int d, int hdr, int parent_hdr) {
  int prev, cur;
  if(d == 0) {
    n[0].hdr = im->n;
    prev = entry(im, ".", RN_DIR | 8, (uint32_t)im->n, 0, 0);
    cur = entry(im, "..", RN_LINK, (uint32_t)n[0].hdr, 0, 0);
    hdr = n[0].hdr;
  } else {
    prev = entry(im, ".", RN_LINK, (uint32_t)hdr, 0, 0);
    cur = entry(im, "..", RN_LINK, (uint32_t)parent_hdr, 0, 0);
  }
  link_next(im, prev, cur); prev = cur;
  for(int i = 1; i < count; i++) if(n[i].parent == d) {
    int mode = n[i].type | (n[i].exec ? 8 : 0);
    cur = n[i].hdr = entry(im, n[i].name, mode, 0, n[i].data, n[i].type == RN_FILE || n[i].type == RN_SYM ? n[i].size : 0);
    link_next(im, prev, cur); prev = cur;
    if(n[i].type == RN_DIR) { put(im->d + cur + 4, (uint32_t)im->n); dir_body(im, n, count, i, cur, hdr); }
  }
}
int rom_build(Img *im, RomNode *n, int count, const char *vol) {
  if(sizeof im->d > 1 << 16) memset(im->d, 0, 256); else memset(im, 0, sizeof *im);
  memcpy(im->d, "-rom1fs-", 8);
  strcpy((char *)im->d + 16, vol);
  im->n = 16 + pad16((int)strlen(vol) + 1);
  dir_body(im, n, count, 0, 0, 0);
  for(int i = 1; i < count; i++) if(n[i].type == RN_LINK) put(im->d + n[i].hdr + 4, (uint32_t)n[n[i].target].hdr);
  /* all header checksums: walk every header through the chains */
  { int stack[256], sp = 0; stack[sp++] = n[0].hdr;
    while(sp) {
      int h = stack[--sp];
      while(h) {
        rom_fix_header(im->d + h);
        uint32_t w = get(im->d + h);
        if((w & 7) == RN_DIR && (int)get(im->d + h + 4) > h) stack[sp++] = (int)get(im->d + h + 4);
        h = (int)(w & ~15u);
      }
    } }
  put(im->d + 8, (uint32_t)im->n);
  rom_fix_super(im);
  { int e = (im->n + 1023) / 1024 * 1024; memset(im->d + im->n, 0, (size_t)(e - im->n)); im->n = e; }
  return im->n;
}
