/* Builders for tar archives and romfs images, following the formats' own documentation. */
#ifndef IMAGES_H
#define IMAGES_H
#include <stdint.h>
#ifndef IMG_CAP
#define IMG_CAP (1 << 16)
#endif
typedef struct { unsigned char d[IMG_CAP]; int n; } Img;
void tar_start(Img *t);
int  tar_add(Img *t, const char *name, const char *prefix, char type, const void *data, int size, unsigned mtime); /* header offset */
void tar_fix(unsigned char *hdr);                      /* recompute the checksum */
void tar_end(Img *t, int zero_blocks);

enum { RN_LINK = 0, RN_DIR = 1, RN_FILE = 2, RN_SYM = 3 };
typedef struct { const char *name; int type, parent, target, exec; const void *data; int size; int hdr; } RomNode;
/* node 0 is the root directory; hdr is filled in. Returns the image size */
int  rom_build(Img *im, RomNode *n, int count, const char *vol);
void rom_fix_header(unsigned char *hdr);                /* recompute the checksum of a file header */
void rom_fix_super(Img *im);
#endif
