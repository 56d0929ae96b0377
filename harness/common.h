#ifndef COMMON_H
#define COMMON_H
#include "mc.h"
#include "memfs.h"
#include "ref.h"
#include "evfs.h"
#ifdef MC_MSAN   /* built with MemorySanitizer instead */
#define __asan_poison_memory_region(p, n) ((void)0)
#define __asan_unpoison_memory_region(p, n) ((void)0)
#else
#include <sanitizer/asan_interface.h>
#endif

/* A string placed so that any access before it or after its NUL is a sanitizer error. */
typedef struct { char *arena; size_t cap; } Fence;
#ifndef FENCE_CAP
#define FENCE_CAP (1 << 16)
#endif
static inline char *fence_put(Fence *f, const void *data, size_t n) {
  if(!f->arena) { f->cap = FENCE_CAP; f->arena = mc_real_malloc(f->cap); }
  __asan_unpoison_memory_region(f->arena, f->cap);
  char *p = f->arena + 64;
  p = (char *)(((uintptr_t)p + 15) & ~(uintptr_t)15);
  if(data) memcpy(p, data, n);
  __asan_poison_memory_region(f->arena, (size_t)(p - f->arena));
  __asan_poison_memory_region(p + n, f->cap - (size_t)(p + n - f->arena));
  return p;
}
static inline char *fence_str(Fence *f, const char *s) { return fence_put(f, s, strlen(s) + 1); }
static inline void fence_off(Fence *f) { if(f->arena) __asan_unpoison_memory_region(f->arena, f->cap); }
#define POSIX_DOS(b) ((b) ? "drive-letter" : "POSIX")

/* registry reset between executions */
static inline void std_cleanup(void) {
  mc_alloc_track(false);
  evfs_unregister_all();
  mc_alloc_reset();
}
const char *evfs_err_name(int);
#define EN(e) evfs_err_name(e)
#endif
