/* P25: bounded string builders and range helpers, every small source x destination size, fenced. */
#include "common.h"
#include <stdarg.h>
#include <ctype.h>
#include "evfs/util/range_strings.h"
#include "evfs/bsd/string.h"

static Fence fd, fs, f2;
#define FILL '#'
static char *dest(int n) { char *d = fence_put(&fd, NULL, (size_t)n); memset(d, FILL, (size_t)n); return d; }
static void off(void) { fence_off(&fd); fence_off(&fs); fence_off(&f2); }
static int pick(char *out, const char *alpha, int max) {
  int n = 0, na = (int)strlen(alpha);
  while(n < max) { int c = mc_choose(na + 1); if(c == 0) break; out[n++] = alpha[c - 1]; }
  out[n] = 0; return n;
}

/* ---- append family ---- */
enum { STR, STR_NN, RNG, RNG_NN, CH, CH_NN, UINT, INT, FMT, VFMT, NKIND };
static const char *kname[] = { "cat_str", "cat_str_no_nul", "cat_range", "cat_range_no_nul", "cat_char", "cat_char_no_nul", "cat_uint", "cat_int", "cat_fmt", "cat_vfmt" };
static int vf(AppendRange *r, const char *fmt, ...) { va_list a; va_start(a, fmt); int v = range_cat_vfmt(r, fmt, a); va_end(a); return v; }
typedef struct { int kind; char text[24]; int32_t num; int extra; } Item;   /* text = the full result */
static int append(AppendRange *r, const Item *it) {
  switch(it->kind) {
    case STR: return range_cat_str(r, fence_str(&fs, it->text));
    case STR_NN: return range_cat_str_no_nul(r, fence_str(&fs, it->text));
    case RNG: case RNG_NN: {
      /* extra 0: bare sub-range; 1: terminated; 2: terminated and followed by junk inside the range; 3: more text after the range */
      char b[40]; int l = (int)strlen(it->text); memcpy(b, it->text, (size_t)l); memcpy(b + l, "\0xy", 4);
      if(it->extra == 3) b[l] = 'z';
      char *s = fence_put(&fs, b, (size_t)l + (it->extra == 0 ? 0 : it->extra == 1 ? 1 : 3));
      StringRange q; range_init(&q, s, l + (it->extra == 1 ? 1 : it->extra == 2 ? 3 : 0));
      int v = it->kind == RNG ? range_cat_range(r, &q) : range_cat_range_no_nul(r, &q);
      return v;
    }
    case CH: return range_cat_char(r, it->text[0]);
    case CH_NN: return range_cat_char_no_nul(r, it->text[0]);
    case UINT: return range_cat_uint(r, (uint32_t)it->num);
    case INT: return range_cat_int(r, it->num);
    case FMT: return range_cat_fmt(r, "%s", fence_str(&fs, it->text));
    default: return vf(r, "%s", fence_str(&fs, it->text));
  }
}
static const int32_t nums[] = { 0, 1, 9, 10, 99, 100, 12345, 999999999, 1000000000, INT32_MAX, -1, -9, -10, -100, -12345, -1000000000, INT32_MIN, INT32_MIN + 1 };
static void pick_item(Item *it) {
  memset(it, 0, sizeof *it);
  it->kind = mc_choose(NKIND);
  switch(it->kind) {
    case CH: case CH_NN: it->text[0] = mc_choose(2) ? 'q' : '-'; break;
    case UINT: it->num = nums[mc_choose(18)]; sprintf(it->text, "%u", (unsigned)it->num); break;
    case INT: it->num = nums[mc_choose(18)]; sprintf(it->text, "%d", it->num); break;
    case RNG: case RNG_NN: it->extra = mc_choose(4); /* fall through */
    default: { static const char *t[] = { "", "a", "ab", "abc", "a b", "abcd" }; strcpy(it->text, t[mc_choose(6)]); }
  }
}
/* a sequence of appends into one range of any size */
static void s_append(void) {
  Item it[4]; int k = mc_tier(2, 3), n = 0;
  int size = mc_choose(mc_tier(14, 16));
  char full[128] = "";
  char *d = dest(size); AppendRange r; range_init(&r, d, size);
  mc_op("range of %d bytes", size);
  while(n < k) {
    if(n && mc_choose(2) == 0) break;
    pick_item(&it[n]);
    int at = (int)strlen(full), l = (int)strlen(it[n].text), room = size - at;
    bool nn = it[n].kind == STR_NN || it[n].kind == RNG_NN || it[n].kind == CH_NN;
    char *before = r.start;
    char snap[32]; memcpy(snap, d, (size_t)size);
    int v = append(&r, &it[n]);
    mc_op("%s '%s' -> %d", kname[it[n].kind], mc_str(it[n].text), v);
    bool fits = l < room;
    bool any = (nn && l == room) || (!l && room == 0);           /* not specified */
    bool ok = any ? (l ? v > 0 : v == 0 && r.start == before) : fits;
    if(!any) MC_CHECK((v >= 0) == ok && (l == 0 || v != 0), "%s of '%s' with %d bytes left %s", kname[it[n].kind], mc_str(it[n].text), room, ok ? "reports it does not fit" : "does not report truncation");
    MC_CHECK(!memcmp(d, full, (size_t)at), "%s changes what was already in the range", kname[it[n].kind]);
    if(ok) {
      MC_CHECK(v == l, "%s of '%s' returns %d", kname[it[n].kind], mc_str(it[n].text), v);
      MC_CHECK(r.start == before + l, "%s moves the start by %d instead of %d", kname[it[n].kind], (int)(r.start - before), l);
      MC_CHECK(!memcmp(before, it[n].text, (size_t)l), "%s writes the wrong text", kname[it[n].kind]);
      strcat(full, it[n].text);
      if(nn) { for(int i = (int)strlen(full); i < size; i++) MC_CHECK(d[i] == snap[i], "%s touches bytes after its text", kname[it[n].kind]); }
      else { MC_CHECK(room == 0 || *r.start == 0, "%s does not terminate", kname[it[n].kind]); }
    } else {
      MC_CHECK(r.start == before, "a failed %s moves the start of the range", kname[it[n].kind]);
      if(it[n].kind == CH || it[n].kind == CH_NN) MC_CHECK(v == -1, "a failed %s returns %d", kname[it[n].kind], v);
      else {
        MC_CHECK(any || v == -l, "a failed %s of '%s' returns %d instead of %d", kname[it[n].kind], mc_str(it[n].text), v, -l);
        MC_CHECK(room == 0 || *before == 0, "a failed %s leaves text behind", kname[it[n].kind]);
      }
    }
    MC_CHECK(r.end == d + size, "%s moves the end", kname[it[n].kind]);
    n++;
    fence_off(&fs);
  }
  if(n > 1) mc_sample("append %s '%s' then %s '%s' into %d bytes", kname[it[0].kind], it[0].text, kname[it[1].kind], it[1].text, size);
  mc_state(mc_hash(MC_HASH0 + (unsigned)size, full, strlen(full)));
  off();
}
static void s_ints(void) {
  int block = mc_choose(mc_tier(64, 1024));
  mc_op("integers, block %d", block);
  for(int i = 0; i < 4096; i++) {
    uint32_t n = i < 2048 ? (uint32_t)(block * 2048 + i) : ~(uint32_t)(block * 2048 + i - 2048);
    if(i % 16 == 15) n = (uint32_t)(block * 4096 + i) * 2654435761u;
    char u[16], s[16]; int ul = sprintf(u, "%u", n), sl = sprintf(s, "%d", (int32_t)n);
    AppendRange r; char *d = dest(12); range_init(&r, d, 12);
    MC_CHECK(range_cat_uint(&r, n) == ul && !strcmp(d, u), "range_cat_uint(%s) writes '%s'", u, mc_str(d));
    d = dest(12); range_init(&r, d, 12);
    MC_CHECK(range_cat_int(&r, (int32_t)n) == sl && !strcmp(d, s), "range_cat_int(%s) writes '%s'", s, mc_str(d));
    d = dest(sl); range_init(&r, d, sl);
    MC_CHECK(range_cat_int(&r, (int32_t)n) == -sl && r.start == d, "range_cat_int(%s) does not report that %d bytes are too few", s, sl);
    mc_tick();
  }
  off();
}
static void s_copy(void) {
  char src[16]; int l = pick(src, "ab", mc_tier(5, 7));
  for(int size = 0; size <= l + 3; size++) for(int trunc = 0; trunc < 2; trunc++) {
    char *d = dest(size), *s = fence_str(&fs, src); AppendRange r; range_init(&r, d, size);
    int v = range_copy_str(&r, s, trunc);
    mc_op("copy '%s' into %d bytes%s -> %d", mc_str(src), size, trunc ? " truncating" : "", v);
    MC_CHECK(r.start == d && r.end == d + size, "copy moves the range");
    if(l < size) MC_CHECK(v == l && !strcmp(d, src), "copy returns %d and gives '%s'", v, mc_str(d));
    else if(l || size) {
      MC_CHECK(v < 0, "a truncated copy returns %d", v);
      if(trunc) { MC_CHECK(v == -(size ? size - 1 : 0) - 1, "a truncated copy into %d bytes returns %d", size, v); if(size) MC_CHECK(!d[size - 1] && !memcmp(d, src, (size_t)size - 1), "a truncated copy gives '%s'", mc_bytes(d, (size_t)size)); }
      else { MC_CHECK(v == -l, "a failed copy returns %d instead of %d", v, -l); if(size) MC_CHECK(!*d, "a failed copy leaves text behind"); }
    }
  }
  off();
}
static void s_bsd(void) {
  char src[16], init[16]; int l = pick(src, "ab", mc_tier(4, 6)), il = pick(init, "xy", mc_tier(4, 5));
  for(int size = 0; size <= l + il + 3; size++) {
    mc_op("size %d", size);
    char *d = dest(size), *s = fence_str(&fs, src);
    size_t v = strlcpy(d, s, (size_t)size);
    MC_CHECK(v == (size_t)l, "strlcpy('%s') into %d bytes returns %zu", mc_str(src), size, v);
    if(size) { int k = l < size ? l : size - 1; MC_CHECK(!memcmp(d, src, (size_t)k) && !d[k], "strlcpy('%s') into %d bytes gives '%s'", mc_str(src), size, mc_bytes(d, strnlen(d, (size_t)size))); for(int i = k + 1; i < size; i++) MC_CHECK(d[i] == FILL, "strlcpy writes past its terminator"); }
    /* strxcpy: a sub-string of at most size-1 characters that need not be terminated */
    for(int term = 0; term < 2; term++) {
      d = dest(size); int have = l < size - 1 || term ? l + 1 : (size ? size - 1 : 0);
      s = fence_put(&fs, src, (size_t)have);
      v = strxcpy(d, s, (size_t)size);
      int k = size == 0 ? 0 : l < size ? l : size - 1;
      MC_CHECK(v == (size_t)k, "strxcpy('%s') into %d bytes returns %zu", mc_str(src), size, v);
      if(size) MC_CHECK(!memcmp(d, src, (size_t)k) && !d[k], "strxcpy gives the wrong text");
      for(int i = k + 1; i < size; i++) MC_CHECK(d[i] == FILL, "strxcpy writes past its terminator");
    }
    /* strlcat */
    for(int hasnul = 0; hasnul < 2; hasnul++) {
      if(hasnul ? il >= size : il < size) continue;
      d = dest(size); s = fence_str(&fs, src); memcpy(d, init, (size_t)(hasnul ? il + 1 : size));
      int dl = hasnul ? il : size;
      v = strlcat(d, s, (size_t)size);
      if(size) MC_CHECK(v == (size_t)(dl + l), "strlcat('%s','%s') in %d bytes returns %zu", mc_bytes(init, (size_t)dl), mc_str(src), size, v);
      else MC_CHECK(v >= (size_t)size, "strlcat into nothing does not report truncation");
      MC_CHECK(!memcmp(d, init, (size_t)dl), "strlcat changes the text before");
      if(hasnul) { int k = l < size - dl ? l : size - dl - 1; MC_CHECK(!memcmp(d + dl, src, (size_t)k) && !d[dl + k], "strlcat gives '%s'", mc_bytes(d, strnlen(d, (size_t)size))); }
    }
  }
  off();
}

/* ---- views of a range: text over an alphabet that includes NUL, so ranges may be partly occupied ---- */
static int pick_range(char *buf, const char *alpha, int na, int max) { int n = 0; while(n < max) { int c = mc_choose(na + 1); if(!c) break; buf[n++] = alpha[c - 1]; } return n; }
static void s_trim(void) {
  char b[16]; int n = pick_range(b, "a \t\0", 4, mc_tier(6, 8));
  int l = (int)strnlen(b, (size_t)n);
  char c[16]; memcpy(c, b, (size_t)l); c[l] = 0;
  mc_op("trim '%s'", mc_bytes(b, (size_t)n));
  int lo = 0; while(lo < l && isspace((unsigned char)c[lo])) lo++;
  int hi = l; while(hi > lo && isspace((unsigned char)c[hi - 1])) hi--;
  int hr = l; while(hr > 0 && isspace((unsigned char)c[hr - 1])) hr--;
  char *d; StringRange r; AppendRange a;
  d = fence_put(&fd, b, (size_t)n); range_init(&r, d, n);
  MC_CHECK(range_strlen(&r) == (size_t)l, "range_strlen gives %zu", range_strlen(&r));
  MC_CHECK(r.start == d && r.end == d + n, "range_strlen changes the range");
  range_ltrim(&r); MC_CHECK(r.start == d + lo, "left trim drops %d characters instead of %d", (int)(r.start - d), lo);
  range_init(&r, d, n); range_rtrim(&r); MC_CHECK(r.start == d && r.end == d + hr, "right trim keeps %d characters instead of %d", (int)(r.end - d), hr);
  range_init(&r, d, n); range_trim(&r); MC_CHECK((int)range_strlen(&r) == hi - lo && (hi == lo || r.start == d + lo) && r.end - r.start == hi - lo, "trim gives '%s'", mc_bytes(r.start, range_strlen(&r)));
  MC_CHECK(n == 0 || !memcmp(d, b, (size_t)n), "trimming changes the text");
  range_init(&a, d, n); range_terminate(&a);
  if(n) { int e = l < n ? l : n - 1; MC_CHECK(d[e] == 0 && !memcmp(d, b, (size_t)e) && (int)strlen(d) == e, "terminate gives '%s'", mc_bytes(d, (size_t)n)); }
  for(int len = 0; len <= n + 1; len++) {
    d = fence_put(&fd, b, (size_t)n); range_init(&r, d, n); range_set_len(&r, (size_t)len);
    int want = l < len ? l : len;
    MC_CHECK((int)range_strlen(&r) == want && !memcmp(d, b, (size_t)want), "set_len(%d) gives length %zu", len, range_strlen(&r));
  }
  d = fence_put(&fd, b, (size_t)n); range_init(&r, d, n);
  int v = range_pad_right(&r, '.');
  int want = n > 0 && l < n - 1 ? n - 1 - l : 0;
  MC_CHECK(v == want, "pad_right of '%s' returns %d instead of %d", mc_bytes(b, (size_t)n), v, want);
  MC_CHECK(n == 0 || !memcmp(d, b, (size_t)l), "pad_right changes the text");
  if(want) { for(int i = l; i < n - 1; i++) MC_CHECK(d[i] == '.', "pad_right does not pad"); MC_CHECK(!d[n - 1], "pad_right does not terminate"); }
  off();
}
static void s_eq(void) {
  char a[16], b[16]; int na = pick_range(a, "a\1""1\0", 4, mc_tier(4, 5)), nb = pick_range(b, "a\1\0", 3, mc_tier(4, 5));
  char ca[16], cb[16]; int la = (int)strnlen(a, (size_t)na), lb = (int)strnlen(b, (size_t)nb);
  memcpy(ca, a, (size_t)la); ca[la] = 0; memcpy(cb, b, (size_t)lb); cb[lb] = 0;
  bool eq = !strcmp(ca, cb);
  mc_op("compare '%s' and '%s'", mc_bytes(a, (size_t)na), mc_bytes(b, (size_t)nb));
  StringRange ra, rb; range_init(&ra, fence_put(&fs, a, (size_t)na), na); range_init(&rb, fence_put(&f2, b, (size_t)nb), nb);
  MC_CHECK(range_eq_range(&ra, &rb) == eq && range_eq_range(&rb, &ra) == eq, "comparing ranges '%s' and '%s' gives %d", ca, cb, !eq);
  MC_CHECK(range_eq(&ra, fence_str(&f2, cb)) == eq, "comparing range '%s' and string '%s' gives %d", ca, cb, !eq);
  bool dig = la > 0; for(int i = 0; i < la; i++) if(!isdigit((unsigned char)ca[i])) dig = false;
  if(la) MC_CHECK(range_is_int(&ra) == dig, "range_is_int('%s') gives %d", ca, !dig);
  char *ms = NULL; size_t ml = 0; FILE *f = open_memstream(&ms, &ml);
  if(f) { range_fputs(&ra, f); fclose(f); bool same = ml == (size_t)la && !memcmp(ms, ca, ml); free(ms); MC_CHECK(same, "range_fputs prints the wrong text"); }
  ms = NULL; f = open_memstream(&ms, &ml);
  if(f) { FILE *o = stdout; stdout = f; range_puts(&ra); stdout = o; fclose(f); bool same = ml == (size_t)la && !memcmp(ms, ca, ml); free(ms); MC_CHECK(same, "range_puts prints the wrong text"); }
  off();
}
static void s_token(void) {
  char str[16]; int n = pick(str, "ab/,", mc_tier(6, 8));
  static const char *dl[] = { "/", "/,", ",b", "" };
  const char *delim = dl[mc_choose(4)];
  mc_op("tokens of '%s' by '%s'", mc_str(str), delim);
  /* whole string; then every limit, with the string cut off right there */
  for(int lim = -1; lim <= n + 1; lim++) {
    char c[16]; strcpy(c, str); if(lim >= 0 && lim < n) c[lim] = 0;
    char *s; size_t limit = (size_t)(lim < 0 ? 0 : lim);
    s = lim < 0 || lim > n ? fence_str(&fs, str) : fence_put(&fs, str, (size_t)lim);
    StringRange t; memset(&t, 0, sizeof t);
    const char *p = c; int k = 0;
    for(;; k++) {
      bool got = lim < 0 ? range_token(k ? NULL : s, delim, &t) : range_token_limit(k ? NULL : s, delim, &t, &limit);
      p += strspn(p, delim);
      mc_tick();
      if(!*p) { MC_CHECK(!got, "limit %d: an extra token '%s'", lim, mc_bytes(t.start, (size_t)range_size(&t))); break; }
      size_t tl = strcspn(p, delim);
      MC_CHECK(got && t.start == s + (p - c) && t.end == t.start + tl, "limit %d: token %d of '%s' is '%s' instead of '%s'", lim, k, mc_str(c), got ? mc_bytes(t.start, (size_t)range_size(&t)) : "<none>", mc_bytes(p, tl));
      p += tl;
      MC_CHECK(lim < 0 || (int)limit <= lim - (int)(p - c), "limit %d: %zu characters are said to remain after token %d", lim, limit, k);
    }
  }
  if(n > 4) mc_sample("tokens of '%s' by '%s' for every limit", str, delim);
  mc_state(mc_hash(MC_HASH0 + 9, str, (size_t)n));
  off();
}
/* fixed point output: whatever it prints with room to spare, it either prints exactly that or reports failure and leaves nothing */
static void s_fixed(void) {
  static const int vals[] = { 0, 1, 5, 9, 10, 99, 127, 128, 255, 256, 999, 1000, 1001, 12345, 65535, 1000000, -1, -5, -128, -255, -256, -1000, -12345 };
  static const unsigned sc[] = { 1, 2, 10, 16, 100, 256, 1000 };
  int v = vals[mc_choose(23)]; unsigned s = sc[mc_choose(7)]; int places = mc_choose(6) - 1, pad = mc_choose(25) - 12; bool uns = v >= 0 && mc_choose(2);
  if(uns && places < 0) mc_prune();
  char big[80]; AppendRange r = RANGE_FROM_ARRAY(big);
  int l = uns ? range_cat_ufixed_padded(&r, (unsigned)v, s, (unsigned)places, pad) : range_cat_fixed_padded(&r, v, s, places, pad);
  mc_op("%s %d / %u, %d places, pad %d -> '%s' %d", uns ? "ufixed" : "fixed", v, s, places, pad, l >= 0 ? mc_str(big) : "?", l);
  MC_CHECK(l >= 0 && l == (int)strlen(big) && r.start == big + l, "fixed point output returns %d for '%s'", l, mc_str(big));
  MC_CHECK(l >= abs(pad), "fixed point output is not padded to %d", abs(pad));
  for(int size = 0; size <= l + 2; size++) {
    char *d = dest(size); AppendRange q; range_init(&q, d, size);
    int w = uns ? range_cat_ufixed_padded(&q, (unsigned)v, s, (unsigned)places, pad) : range_cat_fixed_padded(&q, v, s, places, pad);
    if(l < size) MC_CHECK(w == l && !strcmp(d, big) && q.start == d + l, "fixed point output into %d bytes gives '%s' (%d)", size, mc_str(d), w);
    else { MC_CHECK(w == -l, "fixed point output of '%s' into %d bytes returns %d", mc_str(big), size, w); MC_CHECK(q.start == d && (size == 0 || *d == 0), "failed fixed point output leaves text behind"); }
  }
  off();
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P25");
  mc_note("Every sequence of up to %d appends (10 kinds) into ranges of 0..%d bytes; every source up to %d characters for the copy functions against every destination size; ranges with and without an embedded NUL; every token limit", mc_tier(2, 3), mc_tier(13, 15), mc_tier(5, 7));
  mc_note("Oracle: the C string functions on the equivalent terminated string; ASan-poisoned fences around source and destination. An empty result for an empty range, and a no-NUL append that fits exactly, may go either way. Fixed point output is checked for bounds, padding and truncation, not for its rounding");
  mc_explore("append", s_append);
  mc_explore("ints", s_ints);
  mc_explore("copy", s_copy);
  mc_explore("bsd", s_bsd);
  mc_explore("trim", s_trim);
  mc_explore("eq", s_eq);
  mc_explore("token", s_token);
  mc_explore("fixed", s_fixed);
  return mc_main_finish();
}
