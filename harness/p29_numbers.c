/* P29: numbers in, numbers out: fixed-point text and conversion, integer logarithms and roots, byte order access, nearest search. */
#include "common.h"
#include <stddef.h>
#include "evfs/util/range_strings.h"
#include "evfs/util/intmath.h"
#include "evfs/util/search.h"
#include "evfs/util/unaligned_access.h"

typedef __int128 wide;
static wide p10(int n) { wide r = 1; while(n-- > 0) r *= 10; return r; }
static wide wabs(wide a) { return a < 0 ? -a : a; }

static const unsigned scales[] = { 1, 2, 3, 4, 7, 8, 10, 16, 60, 99, 100, 101, 127, 255, 256, 999, 1000, 1001, 1024, 4096, 10000, 32768, 65535, 65536, 99999, 1000000, 1u << 24, 10000000, 1000000000, 1u << 30, 1u << 31, 4294967295u };
#define NSCALE ((int)(sizeof scales / sizeof *scales))
/* interesting numerators for a scale: all small ones, and those around every multiple and fraction of the scale */
static long numer(int i, long s, int small) {
  if(i < small) return i;
  i -= small;
  static const int mul[] = { 1, 2, 9, 10, 11, 99, 100, 999 };
  static const int num[] = { 1, 1, 1, 1, 4, 5, 9, 19, 99, 199, 499, 999, 1999, 9999, 19999, 99999, 999999 }, den[] = { 2, 3, 4, 10, 10, 10, 10, 20, 100, 200, 1000, 1000, 2000, 10000, 20000, 100000, 1000000 };
  if(i < 8 * 5) return mul[i / 5] * s + (i % 5 - 2);
  i -= 40;
  if(i < 17 * 7 * 3) { long base = (long)((wide)s * num[i / 21] / den[i / 21]); return base + (i % 7 - 3) + (long[]){0, 9, 41}[i / 7 % 3] * s; }
  i -= 357;
  return (long[]){ 2147483647, 2147483646, 4294967295L, 1999999999, 3000000000L }[i];
}
#define NNUM(small) ((small) + 40 + 357 + 5)

/* the text must denote the value to within one unit of the last place asked for (or of the precision of the scale), rounded at most */
static void judge(const char *t, const char *fn, wide value, unsigned scale, int places) {
  const char *p = t; bool neg = *p == '-'; p += neg;
  MC_CHECK(*p >= '0' && *p <= '9', "%s prints '%s'", fn, mc_str(t));
  wide v = 0; int d = 0;
  while(*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0');
  if(*p == '.') { p++; while(*p >= '0' && *p <= '9') { v = v * 10 + (*p++ - '0'); d++; } MC_CHECK(d > 0, "%s prints '%s'", fn, mc_str(t)); }
  MC_CHECK(*p == 0, "%s prints '%s'", fn, mc_str(t));
  MC_CHECK(places < 0 || d <= places, "%s prints '%s', more than %d places", fn, mc_str(t), places);
  MC_CHECK(!neg || value < 0, "%s prints '%s' for a value that is not negative", fn, mc_str(t));
  MC_CHECK(neg || value >= 0 || v == 0, "%s prints '%s' for a negative value", fn, mc_str(t));
  if(neg) v = -v;
  int prec = 0; while(p10(prec) < scale && prec < 9) prec++;
  if(places >= 0 && places < prec) prec = places;
  wide err = wabs(v * scale * p10(12 - d) - value * p10(12));
  MC_CHECK(err <= (wide)scale * p10(12 - prec), "%s prints '%s' for %ld / %u with %d places", fn, mc_str(t), (long)value, scale, places);
}
static void s_text(void) {
  int si = mc_choose(NSCALE), neg = mc_choose(3); unsigned s = scales[si];
  int small = mc_tier(2100, 70000);
  int places = mc_choose(13) - 1;
  if(neg == 2 && places < 0) mc_prune();
  if(neg == 1 && s > 2147483647u) mc_prune();
  for(int i = 0; i < NNUM(small); i++) {
    long v = numer(i, s, small); char b[100]; AppendRange r = RANGE_FROM_ARRAY(b);
    if(v < 0) continue;
    if(neg == 2) { if(v > 4294967295L) continue; mc_tick(); int l = range_cat_ufixed(&r, (unsigned)v, s, (unsigned)places); MC_CHECK(l == (int)strlen(b), "length"); judge(b, "range_cat_ufixed", v, s, places); continue; }
    if(neg) v = -v;
    mc_tick();
    int l = range_cat_fixed(&r, v, s, places);
    MC_CHECK(l == (int)strlen(b), "range_cat_fixed returns %d for '%s'", l, mc_str(b));
    judge(b, "range_cat_fixed", v, s, places);
    /* the numeric conversion agrees with the text */
    int ex = 77; long q = to_fixed_base10(v, s, places, &ex);
    char c[100]; wide m = wabs(q); int d = -ex;
    MC_CHECK(ex <= 0 && d <= 9, "to_fixed_base10 gives exponent %d", ex);
    if(d) snprintf(c, sizeof c, "%s%lld.%0*lld", q < 0 ? "-" : "", (long long)(m / p10(d)), d, (long long)(m % p10(d))); else snprintf(c, sizeof c, "%ld", q);
    MC_CHECK(!strcmp(b, c), "to_fixed_base10(%ld, %u, %d) gives %ld e%d but the text is '%s'", v, s, places, q, ex, mc_str(b));
    long ip, fp; int fd = to_fixed_base10_parts(v, s, &ip, &fp);
    MC_CHECK(fd >= 0 && fd <= 9 && wabs(fp) < p10(fd) && !(v >= 0 && (ip < 0 || fp < 0)) && !(v <= 0 && (ip > 0 || fp > 0)), "to_fixed_base10_parts(%ld, %u) gives %ld, %ld, %d", v, s, ip, fp, fd);
    wide e = wabs(((wide)ip * p10(fd) + fp) * s * 2 - (wide)v * p10(fd) * 2);
    MC_CHECK(e <= s, "to_fixed_base10_parts(%ld, %u) gives %ld, %ld, %d", v, s, ip, fp, fd);
  }
  mc_op("every numerator for scale %u, %s, %d places", s, neg == 2 ? "unsigned" : neg ? "negative" : "positive", places);
  mc_state((uint64_t)(si * 100 + places * 3 + neg));
}
static void s_round(void) {
  int si = mc_choose(NSCALE), neg = mc_choose(3); unsigned s = scales[si];
  int small = mc_tier(2100, 70000);
  for(int i = 0; i < NNUM(small); i++) {
    long v = numer(i, s, small); if(v < 0) continue;
    mc_tick();
    if(neg == 2) {
      if(v > 4294967295L) continue;
      unsigned g = ufixed_to_uint((unsigned)v, s);
      MC_CHECK(g == (v + s / 2) / s, "ufixed_to_uint(%ld, %u) gives %u", v, s, g);
    } else {
      if(v > 2147483647L || s > 2147483647u) continue;
      long w = (v + s / 2) / s; if(neg) { v = -v; w = -w; }
      int g = fixed_to_int((int)v, s);
      MC_CHECK(g == w, "fixed_to_int(%ld, %u) gives %d", v, s, g);
    }
  }
  mc_op("every numerator for scale %u", s); mc_state((uint64_t)(si * 3 + neg));
}
static void s_si(void) {
  static const char pre[] = "afpnum kMGTPE";
  int ex = mc_choose(31) - 15, pow2 = mc_choose(2), neg = mc_choose(2); unsigned sc = (unsigned[]){1, 10, 100, 1000}[mc_choose(4)];
  int small = mc_tier(3000, 70000);
  for(int i = 0; i < small + 200; i++) {
    long v = i;
    if(i >= small) { int k = i - small; v = 1; for(int j = 0; j < k / 20; j++) v *= pow2 ? 8 : 10; v = v * (long[]){1, 2, 5, 9}[k / 5 % 4] + (k % 5 - 2); if(v < 0 || v > 2147483647L) continue; }
    if(neg) v = -v;
    mc_tick();
    char c = '!'; long g = to_fixed_si(v, ex, sc, &c, pow2);
    const char *w = strchr(pre, c ? c : ' ');
    MC_CHECK(w && *w, "to_fixed_si(%ld e%d) gives prefix %02x", v, ex, c);
    int k = (int)(w - pre) - 6;
    MC_CHECK(*w == 'E' || labs(g) <= 1000L * sc + (pow2 && ex == 0 ? 24L * sc : 0), "to_fixed_si(%ld e%d, scale %u) gives %ld%c, not below 1000", v, ex, sc, g, c);
    MC_CHECK((g <= 0 || v > 0) && (g >= 0 || v < 0), "to_fixed_si(%ld e%d) gives %ld", v, ex, g);
    /* g/sc * base^k == v * 10^ex, to half a unit */
    wide a = g, b = v; long double base = pow2 && ex == 0 ? 1024 : 1000, lhs = a, rhs = (long double)b * sc;
    for(int j = 0; j < (k < 0 ? 0 : k); j++) rhs /= base;
    for(int j = 0; j < (k < 0 ? -k : 0); j++) rhs *= base;
    for(int j = 0; j < (ex < 0 ? -ex : ex); j++) rhs = ex < 0 ? rhs / 10 : rhs * 10;
    long double e = lhs - rhs; if(e < 0) e = -e;
    MC_CHECK(e <= 0.5L + 1e-9L, "to_fixed_si(%ld e%d, scale %u%s) gives %ld with prefix '%c'", v, ex, sc, pow2 ? ", powers of 1024" : "", g, *w);
  }
  mc_op("values with exponent %d", ex); mc_state((uint64_t)(ex * 64 + pow2 * 32 + neg * 16) + sc);
}
/* every 32-bit value in a block, or the neighbourhood of every power */
static void int_one(uint32_t n) {
  mc_tick();
  if(n) {
    unsigned lg = 0; for(uint64_t p = 10; p <= n; p *= 10) lg++;
    unsigned g = ilog10(n); MC_CHECK(g == lg, "ilog10(%u) gives %u", n, g);
    unsigned l2 = 0; while((uint64_t)2 << l2 <= n) l2++;
    uint32_t f = floor_pow2(n); MC_CHECK(f == 1u << l2, "floor_pow2(%u) gives %u", n, f);
    if(n <= 0x80000000u) { uint32_t c = ceil_pow2(n), w = f == n ? n : f << 1; MC_CHECK(c == w, "ceil_pow2(%u) gives %u", n, c); }
    for(unsigned b = 2; b < 40; b += b < 17 ? 1 : 11) { unsigned w = 0; for(uint64_t p = b; p <= n; p *= b) w++; unsigned q = ilog_b(n, b); MC_CHECK(q == w, "ilog_b(%u, %u) gives %u", n, b, q); }
  }
  unsigned dg = 1; for(uint64_t p = 10; p <= n; p *= 10) dg++;
  MC_CHECK(base10_digits(n) == dg, "base10_digits(%u) gives %u", n, base10_digits(n));
}
static void s_int(void) {
  int blk = mc_choose(32 + 10 + 64);
  if(blk < 32) { for(int d = -600; d <= 600; d++) int_one((1u << blk) + (uint32_t)d); }
  else if(blk < 42) { uint32_t p = (uint32_t)p10(blk - 32); for(int d = -600; d <= 600; d++) int_one(p + (uint32_t)d); }
  else { uint32_t lo = (uint32_t)(blk - 42) * (uint32_t)mc_tier(2000, 100000); for(uint32_t i = 0; i < (uint32_t)mc_tier(2000, 100000); i++) int_one(lo + i); }
  mc_op("block %d of integers", blk); mc_state((uint64_t)blk);
}
static void s_root(void) {
  int e = mc_choose(17) * 2, blk = mc_choose(64 + 16);
  for(int d = -300; d <= 300; d++) {
    unsigned long v = blk < 64 ? (1ul << blk) + (unsigned long)(long)d : (unsigned long)(blk - 64) * 601 + (unsigned long)(d + 300);
    if(blk >= 64 - e && blk < 64) continue;                       /* the integer part must fit */
    if(blk == 0 && d < 0) continue;
    mc_tick();
    unsigned long r = isqrt_fixed(v, (unsigned)e);
    /* r = sqrt(v * 2^e), to one unit */
    unsigned __int128 x = (unsigned __int128)v << e, lo = r ? (unsigned __int128)(r - 1) * (r - 1) : 0, hi = (unsigned __int128)(r + 1) * (r + 1);
    if(v >> 62 || v >> (63 - e) >> 1) continue;                       /* the property speaks of values below 2^62 */
    MC_CHECK(x >= lo && x <= hi, "isqrt_fixed(%lu, %d) gives %lu", v, e, r);
  }
  mc_op("roots near 2^%d, %d fraction bits", blk, e); mc_state((uint64_t)(e * 100 + blk));
}
static long double log2_ref(uint64_t n) { long double m = (long double)n, r = 0; while(m >= 2) { m /= 2; r++; } long double bit = 0.5L; for(int i = 0; i < 40; i++) { m *= m; if(m >= 2) { m /= 2; r += bit; } bit /= 2; } return r; }
static void s_log(void) {
  int e = mc_choose(32), blk = mc_choose(32);
  for(int d = -200; d <= 200; d++) {
    uint32_t n = (1u << blk) + (uint32_t)(d * (d < 0 ? 1 : 1 + (blk > 12 ? 1 << (blk - 10) : 0)));
    if(!n) continue;
    mc_tick();
    int32_t g = log2_fixed(n, (unsigned)e);
    long double w = (log2_ref(n) - e) * 32768, err = g - w; if(err < 0) err = -err;
    MC_CHECK(err <= 8, "log2_fixed(%u, %d) gives %d, not %.1Lf", n, e, g, w);
  }
  mc_op("logarithms near 2^%d, %d fraction bits", blk, e); mc_state((uint64_t)(e * 100 + blk));
}
static ptrdiff_t near_int(const void *k, const void *e) { return (ptrdiff_t)*(const int *)k - *(const int *)e; }
static inline int cmp_int(const void *k, const void *e) { return *(const int *)k - *(const int *)e; }
static GEN_BSEARCH_FUNC(bs, cmp_int)
/* wide records whose keys lie further apart than an int can tell, ascending or descending */
typedef struct { char pad[3]; int64_t key; } Rec;
static ptrdiff_t near_rec(const void *k, const void *e) { return (ptrdiff_t)(((const Rec *)k)->key - ((const Rec *)e)->key); }
static ptrdiff_t near_dsc(const void *k, const void *e) { return near_rec(e, k); }
static inline ptrdiff_t cmp_rec(const void *k, const void *e) { return near_rec(k, e); }
static inline ptrdiff_t cmp_dsc(const void *k, const void *e) { return near_rec(e, k); }
static GEN_BSEARCH_FUNC(bs_rec, cmp_rec)
static GEN_BSEARCH_FUNC(bs_dsc, cmp_dsc)
static void s_records(void) {
  static const int64_t STEP[] = {1, 3, 0x7fffffff, 0x80000000ll, 0x100000000ll, 0x100000001ll, 0x300000000ll};
  int n = mc_choose(mc_tier(5, 6)), dsc = mc_choose(2), steps = mc_tier(5, 7); Rec a[8] = {0}; int64_t cur = -0x200000000ll;
  for(int i = 0; i < n; i++) { cur += STEP[mc_choose(steps)]; a[i].key = cur; }
  if(dsc) for(int i = 0; i < n / 2; i++) { Rec t = a[i]; a[i] = a[n - 1 - i]; a[n - 1 - i] = t; }
  static Fence f; Rec *x = (Rec *)fence_put(&f, a, (size_t)n * sizeof *a);
  CompareNearFunc cmp = dsc ? near_dsc : near_rec;
  for(int i = -1; i < n; i++) for(int j = 0; j < 12; j++) {
    static const int64_t OFF[] = {0, 1, -1, 2, -2, 0x7fffffff, 0x80000000ll, -0x80000000ll, 0x100000000ll, -0x100000000ll, 0x200000000ll, -0x200000000ll};
    Rec k = {.key = (i < 0 ? 0 : a[i].key) + OFF[j]}; mc_tick();
    bool have = false; int64_t best = INT64_MAX;
    for(int m = 0; m < n; m++) { int64_t d = a[m].key > k.key ? a[m].key - k.key : k.key - a[m].key; if(!d) have = true; if(d < best) best = d; }
    ptrdiff_t e = search_exact(&k, x, (size_t)n, sizeof *x, cmp);
    MC_CHECK(have ? e >= 0 && e < n && a[e].key == k.key : e == -1, "search_exact of %lld among %d records gives %ld", (long long)k.key, n, (long)e);
    Rec *b = dsc ? bs_dsc(&k, x, (size_t)n, sizeof *x) : bs_rec(&k, x, (size_t)n, sizeof *x);
    MC_CHECK(have ? b && b >= x && b < x + n && b->key == k.key : !b, "GEN_BSEARCH_FUNC of %lld among %d records", (long long)k.key, n);
    if(!n) continue;
    size_t m = search_nearest(&k, x, (size_t)n, sizeof *x, cmp);
    MC_CHECK(m < (size_t)n && (a[m].key > k.key ? a[m].key - k.key : k.key - a[m].key) == best, "search_nearest of %lld among %d records gives index %ld", (long long)k.key, n, (long)m);
  }
  mc_op("%d %s records", n, dsc ? "descending" : "ascending"); mc_state(mc_hash(MC_HASH0 + (unsigned)dsc, a, (size_t)n * sizeof *a)); fence_off(&f);
}
static void s_search(void) {
  int n = 1 + mc_choose(mc_tier(9, 11)), a[16], cur = 0, span = mc_tier(3, 4);
  for(int i = 0; i < n; i++) { cur += mc_choose(span) + (i == 0); a[i] = cur; }    /* ascending, repeats allowed */
  static Fence f; int *x = (int *)fence_put(&f, a, (size_t)n * sizeof *a);
  for(int k = 0; k <= cur + 2; k++) {
    mc_tick();
    bool have = false; int best = 1 << 20; for(int i = 0; i < n; i++) { if(a[i] == k) have = true; if(abs(a[i] - k) < best) best = abs(a[i] - k); }
    ptrdiff_t e = search_exact(&k, x, (size_t)n, sizeof *x, near_int);
    MC_CHECK(have ? e >= 0 && e < n && a[e] == k : e == -1, "search_exact of %d among %d gives %ld", k, n, (long)e);
    int *b = bs(&k, x, (size_t)n, sizeof *x);
    MC_CHECK(have ? b && *b == k : !b, "GEN_BSEARCH_FUNC of %d among %d", k, n);
    size_t m = search_nearest(&k, x, (size_t)n, sizeof *x, near_int);
    MC_CHECK(m < (size_t)n && abs(a[m] - k) == best, "search_nearest of %d among %d gives index %ld", k, n, (long)m);
    size_t u = search_nearest_above(&k, x, (size_t)n, sizeof *x, near_int);
    MC_CHECK(u < (size_t)n && (a[n - 1] < k ? a[u] == a[n - 1] : a[u] >= k), "search_nearest_above of %d gives index %ld", k, (long)u);
    for(int i = 0; i < n; i++) MC_CHECK(!(a[i] >= k && a[i] < a[u]), "search_nearest_above of %d gives %d although %d is there", k, a[u], a[i]);
    size_t l = search_nearest_below(&k, x, (size_t)n, sizeof *x, near_int);
    MC_CHECK(l < (size_t)n && (a[0] > k ? a[l] == a[0] : a[l] <= k), "search_nearest_below of %d gives index %ld", k, (long)l);
    for(int i = 0; i < n; i++) MC_CHECK(!(a[i] <= k && a[i] > a[l]), "search_nearest_below of %d gives %d although %d is there", k, a[l], a[i]);
  }
  mc_op("%d sorted numbers up to %d", n, cur);
  mc_state(mc_hash(MC_HASH0, a, (size_t)n * sizeof *a)); fence_off(&f);
}
static void s_bytes(void) {
  static Fence f, g; int width = (int[]){2, 4, 8}[mc_choose(3)], off = mc_choose(8), pat = mc_choose(mc_tier(64 + 64, 64 + 256));
  unsigned char b[16];
  for(int i = 0; i < 8; i++) b[i] = (unsigned char)(pat < 64 ? (pat / 8 == i ? 1u << pat % 8 : 0) : pat < 128 ? ((pat - 64) >> i % 6 & 1 ? 0xff - i : 0x80 >> i) : (pat * 37 + i * 89) ^ (pat >> 2));
  unsigned char raw[24]; memset(raw, 0x5a, sizeof raw); memcpy(raw + off, b, (size_t)width);
  unsigned char *s = (unsigned char *)fence_put(&f, raw, (size_t)(off + width)) + off, *d = (unsigned char *)fence_put(&g, raw, (size_t)(off + width)) + off;
  uint64_t be = 0, le = 0, ne = 0; for(int i = 0; i < width; i++) { be = be << 8 | b[i]; le |= (uint64_t)b[i] << 8 * i; } memcpy(&ne, b, (size_t)width);
  unsigned char want[8];
#define ORDER(sfx, val) do { \
    if(width == 2) { MC_CHECK(get_unaligned_u16##sfx(s) == (uint16_t)(val) && get_unaligned_s16##sfx(s) == (int16_t)(val), "16-bit " #sfx " read"); } \
    if(width == 4) { MC_CHECK(get_unaligned_u32##sfx(s) == (uint32_t)(val) && get_unaligned_s32##sfx(s) == (int32_t)(val), "32-bit " #sfx " read"); } \
    if(width == 8) { MC_CHECK(get_unaligned_u64##sfx(s) == (uint64_t)(val) && get_unaligned_s64##sfx(s) == (int64_t)(val), "64-bit " #sfx " read"); } \
    for(int sg = 0; sg < 2; sg++) { memset(d, 0, (size_t)width); \
      if(width == 2) { if(sg) set_unaligned_s16##sfx((int16_t)(val), d); else set_unaligned_u16##sfx((uint16_t)(val), d); } \
      if(width == 4) { if(sg) set_unaligned_s32##sfx((int32_t)(val), d); else set_unaligned_u32##sfx((uint32_t)(val), d); } \
      if(width == 8) { if(sg) set_unaligned_s64##sfx((int64_t)(val), d); else set_unaligned_u64##sfx((uint64_t)(val), d); } \
      MC_CHECK(!memcmp(d, b, (size_t)width), "%d-bit " #sfx " write at offset %d", width * 8, off); \
      for(int i = 0; i < off; i++) MC_CHECK(d[i - off] == 0x5a, "%d-bit " #sfx " write touches its neighbour", width * 8); } } while(0)
  (void)want;
  ORDER(be, be); ORDER(le, le); ORDER(, ne);
  /* the generic forms */
  if(width == 2) { uint16_t v; set_unaligned_be((uint16_t)be, d); MC_CHECK(!memcmp(d, b, 2), "generic write"); v = get_unaligned_le((uint16_t *)(void *)s); MC_CHECK(v == (uint16_t)le, "generic read"); MC_CHECK(get_unaligned_be((uint16_t *)(void *)s) == (uint16_t)be, "generic read"); set_unaligned_le((uint16_t)le, d); MC_CHECK(!memcmp(d, b, 2), "generic write"); }
  if(width == 4) { uint32_t v; set_unaligned_be((uint32_t)be, d); MC_CHECK(!memcmp(d, b, 4), "generic write"); v = get_unaligned_le((uint32_t *)(void *)s); MC_CHECK(v == (uint32_t)le, "generic read"); MC_CHECK(get_unaligned_be((uint32_t *)(void *)s) == (uint32_t)be, "generic read"); set_unaligned_le((uint32_t)le, d); MC_CHECK(!memcmp(d, b, 4), "generic write"); }
  if(width == 8) { uint64_t v; set_unaligned_be((uint64_t)be, d); MC_CHECK(!memcmp(d, b, 8), "generic write"); v = get_unaligned_le((uint64_t *)(void *)s); MC_CHECK(v == le, "generic read"); MC_CHECK(get_unaligned_be((uint64_t *)(void *)s) == be, "generic read"); set_unaligned_le((uint64_t)le, d); MC_CHECK(!memcmp(d, b, 8), "generic write"); v = get_unaligned((uint64_t *)(void *)s); MC_CHECK(v == ne, "generic native read"); }
  mc_op("%d bytes at offset %d, pattern %d", width, off, pat); mc_tick(); mc_state(mc_hash(mc_hash(MC_HASH0, b, (size_t)width), &off, sizeof off));
  fence_off(&f); fence_off(&g);
}
/* points on a line or a quadratic curve, and the parameter that belongs to one */
static const int16_t crd[] = { -32768, -32767, -20011, -4, -1, 0, 1, 3, 777, 16384, 25001, 32766, 32767 };
#define NCRD ((int)(sizeof crd / sizeof *crd))
static long double bez(int a, int b, int c, long double t) { return (1 - t) * (1 - t) * a + 2 * t * (1 - t) * b + t * t * c; }
static void s_curve(void) {
  int16_t a = crd[mc_choose(NCRD)], b = crd[mc_choose(NCRD)], c = crd[mc_choose(NCRD)], ya = crd[mc_choose(mc_tier(3, NCRD)) * mc_tier(6, 1)], yc = crd[mc_choose(mc_tier(3, NCRD)) * mc_tier(6, 1)];
  Point16 p0 = { .x = a, .y = ya }, p1 = { .x = b, .y = c }, p2 = { .x = c, .y = yc };
  mc_op("curve %d,%d %d,%d %d,%d", p0.x, p0.y, p1.x, p1.y, p2.x, p2.y);
  for(int i = 0; i < 256 + 16; i++) {
    uint16_t t = (uint16_t)(i < 8 ? i : i < 16 ? 65535 - (i - 8) : (i - 16) * 257);
    long double u = t / 65536.0L; mc_tick();
    Point16 l = interpolate_points(p0, p1, t), q = quadratic_bezier(p0, p1, p2, t);
    long double lx = a + (b - a) * u, ly = ya + (c - ya) * u, qx = bez(a, b, c, u), qy = bez(ya, c, yc, u);
    MC_CHECK(l.x - lx < 1.01L && lx - l.x < 1.01L && l.y - ly < 1.01L && ly - l.y < 1.01L, "interpolate_points at %d/65536 gives %d,%d, not %.1Lf,%.1Lf", t, l.x, l.y, lx, ly);
    MC_CHECK(q.x - qx < 4 && qx - q.x < 4 && q.y - qy < 4 && qy - q.y < 4, "quadratic_bezier at %d/65536 gives %d,%d, not %.1Lf,%.1Lf", t, q.x, q.y, qx, qy);
  }
  if(a > b || b > c) return;                                            /* the search asks for points in order */
  for(int i = 0; i < 64 + 13; i++) {
    int x = i < 64 ? a + (c - a) * i / 63 : crd[i - 64]; mc_tick();
    uint16_t t = bezier_search_t(p0, p1, p2, (int16_t)x), s = bezier_solve_t(a, b, c, (int16_t)x);
    long double at = bez(a, b, c, t / 65536.0L);
    if(x < a) MC_CHECK(at - a < 12, "bezier_search_t of %d, before the curve, gives %d", x, t);
    else if(x > c) MC_CHECK(c - at < 12, "bezier_search_t of %d, beyond the curve, gives %d", x, t);
    else {
      long double gx = at, sx = bez(a, b, c, s / 65536.0L);
      MC_CHECK(gx - x < 12 && x - gx < 12, "bezier_search_t of %d gives %d, which is at %.1Lf", x, t, gx);
      int A = a - 2 * b + c, B = 2 * (b - a);
      if(A == 0 || A > 2000 || A < -2000 || (B == 0 && A == 0)) MC_CHECK(sx - x < 100 && x - sx < 100, "bezier_solve_t of %d gives %d, which is at %.1Lf", x, s, sx);
    }
  }
  mc_state(mc_hash(mc_hash(mc_hash(MC_HASH0, &p0, sizeof p0), &p1, sizeof p1), &p2, sizeof p2));
}
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P29");
  mc_note("%d scales from 1 to 2^32-1 x every numerator below %d and the neighbourhood of every multiple, tenth and half unit x -1..11 places; SI prefixes for exponents -15..15; integer functions on every value below %d and around every power of 2 and 10; roots and logarithms around every power of 2 for every exponent; every sorted array of up to %d numbers with repeats; every byte order access at 8 alignments; every line and quadratic curve through %d coordinates per axis",
          NSCALE, mc_tier(2100, 70000), 64 * mc_tier(2000, 100000), mc_tier(9, 11), NCRD);
  mc_explore("fixed point text", s_text);
  mc_explore("rounding", s_round);
  mc_explore("SI prefixes", s_si);
  mc_explore("integer logarithms and powers", s_int);
  mc_explore("roots", s_root);
  mc_explore("logarithms", s_log);
  mc_explore("search", s_search);
  mc_explore("search of records", s_records);
  mc_explore("byte order", s_bytes);
  mc_explore("curves", s_curve);
  return mc_main_finish();
}
