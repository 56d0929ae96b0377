/* P24: every operation sequence on the hash table against a map model. */
#include "mc.h"
#include "evfs/util/dhash.h"
#include "common.h"

enum { NK = 24 };
static int vsize;
static uint32_t khash[NK];
static char kcopy[NK][64][4];            /* distinct key storage per insertion */
static int  kver[NK];                    /* next copy */
/* ownership: every (key copy, value) given to the table must be destroyed exactly once */
typedef struct { bool in; int ver; unsigned val; } Ent;
static Ent model[NK];
static bool expect_destroy; static int ed_key, ed_ver; static unsigned ed_val; static int destroyed;
static unsigned next_val;
static dhash H; static bool have;
static unsigned char *ext; static size_t ext_size;

static void val_make(unsigned char *b, unsigned v) { for(int i = 0; i < vsize; i++) b[i] = (unsigned char)(v * 7 + (unsigned)i * 13 + (v >> 8)); }
static bool val_is(const void *b, unsigned v) { unsigned char t[64]; val_make(t, v); return !memcmp(b, t, (size_t)vsize); }

static int key_of(dhKey k) { return (int)(k.length - 1); }  /* key index is coded in the length */
static dhKey mk(int i, bool fresh) {
  dhKey k; if(fresh) kver[i]++;
  k.data = kcopy[i][kver[i] % 64]; k.length = (size_t)i + 1; return k;
}
static uint32_t my_hash(dhKey k) { return khash[key_of(k)]; }
static bool my_eq(dhKey a, dhKey b, void *ctx) { (void)ctx; return a.length == b.length; }
static void my_destroy(dhKey k, void *value, void *ctx) {
  MC_CHECK(ctx == &H, "destroy callback gets a wrong context");
  MC_CHECK(k.length >= 1 && k.length <= NK && k.data, "an item is destroyed with an empty key");
  int i = key_of(k);
  if(expect_destroy) {
    MC_CHECK(i == ed_key && k.data == kcopy[i][ed_ver % 64], "the wrong key is destroyed (key %d instead of %d)", i, ed_key);
    MC_CHECK(val_is(value, ed_val), "key %d is destroyed with a wrong value", i);
    destroyed++;
  } else {  /* dh_free */
    MC_CHECK(model[i].in, "an item that is not in the table is destroyed");
    MC_CHECK(k.data == kcopy[i][model[i].ver % 64] && val_is(value, model[i].val), "dh_free destroys a wrong key or value");
    model[i].in = false; destroyed++;
  }
}
static bool refuse_replace; static int replaced;
static bool my_replace(dhKey k, void *ov, void *nv, void *ctx) { (void)ctx; int i = key_of(k); replaced++;
  MC_CHECK(i == ed_key && val_is(ov, ed_val) && val_is(nv, next_val), "the replace callback sees wrong values"); return !refuse_replace; }
static int grows;
static bool my_grow(size_t n, void *ctx) { (void)ctx; (void)n; grows++; return true; }

static int count(void) { int n = 0; for(int i = 0; i < NK; i++) n += model[i].in; return n; }
static bool visit_fn(dhKey k, void *v, void *ctx) { int *seen = ctx; int i = key_of(k); MC_CHECK(i >= 0 && i < NK && model[i].in && val_is(v, model[i].val), "dh_foreach visits a wrong entry"); MC_CHECK(!seen[i]++, "dh_foreach visits an entry twice"); return true; }
static void verify(int nk) {
  unsigned char *buf; static unsigned char arena[256];
  MC_CHECK((int)dh_num_items(&H) == count(), "the table reports %d items instead of %d", (int)dh_num_items(&H), count());
  for(int i = 0; i < nk; i++) {
    __asan_unpoison_memory_region(arena, sizeof arena);
    buf = arena + 64; memset(arena, 0xee, sizeof arena);
    __asan_poison_memory_region(arena, 64); __asan_poison_memory_region(buf + vsize, sizeof arena - 64 - (size_t)vsize);
    bool f = dh_lookup(&H, mk(i, false), buf);
    MC_CHECK(f == model[i].in, "key %d is %s", i, f ? "found although it was removed or never inserted" : "lost");
    if(f) MC_CHECK(val_is(buf, model[i].val), "lookup of key %d gives a wrong value", i);
    void *p = NULL; bool g = dh_lookup_in_place(&H, mk(i, false), &p);
    MC_CHECK(g == f && (!g || val_is(p, model[i].val)) && (g || !p), "in-place lookup of key %d differs", i);
    MC_CHECK(dh_exists(&H, mk(i, false)) == f, "dh_exists differs");
  }
  __asan_unpoison_memory_region(arena, sizeof arena);
  int seen[NK] = {0}, n = 0; dhIter it; dhKey k; void *v;
  dh_iter_init(&H, &it);
  while(dh_iter_next(&it, &k, &v)) {
    int i = key_of(k);
    MC_CHECK(i >= 0 && i < NK && model[i].in && k.data == kcopy[i][model[i].ver % 64] && val_is(v, model[i].val), "iteration visits a wrong entry");
    MC_CHECK(!seen[i]++, "iteration visits key %d twice", i);
    n++; MC_CHECK(n <= NK, "iteration does not end");
  }
  MC_CHECK(n == count(), "iteration visits %d of %d entries", n, count());
  MC_CHECK(!dh_iter_next(&it, &k, &v), "iteration resumes after its end");
  if(H.num_buckets) { long lf = dh_load_factor(&H), nb = (long)H.num_buckets; MC_CHECK(lf * nb >= count() * 100L - nb && lf * nb <= count() * 100L + 50 + nb, "the load factor of %d entries in %ld buckets is %ld", count(), nb, lf);
    MC_CHECK((size_t)count() <= (size_t)nb && dh_mean_probe_count(&H) >= 0, "impossible statistics"); }
  memset(seen, 0, sizeof seen); dh_foreach(&H, visit_fn, seen);
  for(int i = 0; i < NK; i++) MC_CHECK(seen[i] == model[i].in, "dh_foreach misses key %d", i);
}
static uint64_t model_hash(void) { uint64_t h = MC_HASH0 + (uint64_t)H.num_buckets; for(int i = 0; i < NK; i++) h = mc_hash(h, &model[i].in, 1); 
  size_t st = 0; (void)st; return h; }

static void cleanup(void) {
  mc_alloc_track(false);
  if(have) { H.buckets = NULL; have = false; }
  mc_alloc_reset();
}
static bool do_insert(int i) {
  static unsigned char arena[256]; unsigned char copy[64];
  next_val++;
  __asan_unpoison_memory_region(arena, sizeof arena);
  unsigned char *buf = arena + 64; val_make(buf, next_val); memcpy(copy, buf, (size_t)vsize);
  __asan_poison_memory_region(arena, 64); __asan_poison_memory_region(buf + vsize, sizeof arena - 64 - (size_t)vsize);
  dhKey k = mk(i, true);
  expect_destroy = model[i].in; ed_key = i; ed_ver = model[i].ver; ed_val = model[i].val; destroyed = 0; replaced = 0;
  if(!model[i].in) { ed_key = -1; expect_destroy = true; }
  bool ok = dh_insert(&H, k, buf);
  MC_CHECK(!memcmp(buf, copy, (size_t)vsize), "insertion changes the caller's value");
  __asan_unpoison_memory_region(arena, sizeof arena);
  if(ok) {
    MC_CHECK(destroyed == (model[i].in ? 1 : 0), "inserting key %d destroys %d items", i, destroyed);
    model[i].in = true; model[i].ver = kver[i]; model[i].val = next_val;
  } else MC_CHECK(destroyed == 0, "a failed insertion destroys an item");
  return ok;
}
static void do_remove(int i, bool want) {
  static unsigned char arena[256];
  __asan_unpoison_memory_region(arena, sizeof arena);
  unsigned char *buf = arena + 64;
  __asan_poison_memory_region(arena, 64); __asan_poison_memory_region(buf + vsize, sizeof arena - 64 - (size_t)vsize);
  expect_destroy = true; ed_key = model[i].in ? i : -1; ed_ver = model[i].ver; ed_val = model[i].val; destroyed = 0;
  bool ok = dh_remove(&H, mk(i, false), want ? buf : NULL);
  MC_CHECK(ok == model[i].in, "removing key %d returns %d", i, ok);
  if(ok) {
    if(want) MC_CHECK(val_is(buf, model[i].val), "removal of key %d hands back a wrong value", i);
    MC_CHECK(destroyed == (want ? 0 : 1), "removing key %d destroys %d items", i, destroyed);
    model[i].in = false;
  } else MC_CHECK(destroyed == 0, "removing a missing key destroys an item");
  __asan_unpoison_memory_region(arena, sizeof arena);
}
static void finish(void) {
  expect_destroy = false; destroyed = 0; int n = count();
  dh_free(&H); have = false;
  MC_CHECK(destroyed == n, "dh_free destroys %d of %d items", destroyed, n);
  MC_CHECK(mc_alloc_live() == 0, "the table leaks %d allocations", mc_alloc_live());
  dh_free(&H);
}
static size_t cfg_limit;
static void start(int vs, size_t init, unsigned char *storage, size_t ssize, bool rep) {
  vsize = vs; memset(model, 0, sizeof model); memset(kver, 0, sizeof kver); next_val = 0; grows = 0; refuse_replace = false;
  memset(&H, 0xa5, sizeof H);
  dhConfig c = {.init_buckets = init, .value_size = (size_t)vs, .max_storage = storage ? ssize : cfg_limit, .ext_storage = storage, .destroy_item = my_destroy, .gen_hash = my_hash, .is_equal = my_eq,
                .replace_item = rep ? my_replace : NULL, .grow_hash = my_grow};
  mc_alloc_track(true);
  bool ok = dh_init(&H, &c, &H);
  if(!ok && cfg_limit) { MC_CHECK(cfg_limit < 13 * ((size_t)vs + 48), "dh_init fails within its storage limit"); cfg_limit = 0; mc_prune(); }
  if(!ok && storage) { MC_CHECK(ssize / (24 + ((size_t)vs + 7) / 8 * 8) < 12, "dh_init refuses caller-supplied storage of %d bytes", (int)ssize); mc_prune(); }
  MC_CHECK(ok, "dh_init fails");
  if(storage) MC_CHECK((size_t)H.num_buckets * ((size_t)vs + 16) <= ssize, "dh_init uses more buckets than fit the caller's storage");
  have = true;
}
static const int vsizes[] = {1, 4, 8, 12, 24, 20};

static void ops(int nk, int depth, bool faults) {
  int fail_op = faults ? mc_choose(depth + 1) : depth;
  for(int d = 0; d < depth; d++) {
    int o = mc_choose(nk * 2 + 1);
    if(o == nk * 2) break;
    int i = o >> 1;
    mc_op("%s key %d (hash %u)%s", (o & 1) ? "remove" : "insert", i, khash[i], d == fail_op ? " with failing allocation" : "");
    if(d == fail_op) mc_alloc_fail_at(1);
    if(!(o & 1)) {
      bool was = model[i].in; int cap = (int)dh_cur_capacity(&H), used = count();
      bool ok = do_insert(i);
      if(!ok) MC_CHECK(mc_alloc_failed() || (ext && used >= cap), "insertion of key %d fails (%d of %d used, was %d)", i, used, cap, was);
    } else do_remove(i, (d + i) & 1);
    if(d == fail_op) mc_alloc_fail_at(0);
    verify(nk);
    mc_state(model_hash());
  }
  finish();
}

/* hot keys with every collision pattern on top of a prefilled table (growth inside the sequence) */
static void s_seq(void) {
  ext = NULL;
  int nk = mc_tier(4, 4), depth = mc_tier(4, 5);
  int pre = mc_choose(4); static const int pres[] = {0, 6, 8, 9};
  int pat = mc_choose(mc_tier(15, 27));
  static const unsigned spread[] = {0, 1, 2};
  int fill = pres[pre];
  /* hash values map to buckets after a fixed multiplicative mix; equal values always collide */
  for(int i = 0; i < NK; i++) khash[i] = 0;
  if(pat < 15) { /* set partitions of 4 keys: every equality pattern of hashes */
    static const char *parts[] = {"0000","0001","0010","0100","1000","0011","0101","0110","0012","0102","0120","1002","1020","1200","0123"};
    for(int i = 0; i < nk; i++) khash[i] = (uint32_t)(parts[pat][i] - '0');
  } else for(int i = 0, p = pat; i < nk; i++, p /= 3) khash[i] = spread[p % 3] * 3;
  int vs = vsizes[(pat + pre) % 6];
  for(int i = nk; i < NK; i++) khash[i] = (uint32_t)((i % 3 == 0) ? 0 : i);
  start(vs, (size_t)(pre & 1), NULL, 0, false);
  for(int i = nk; i < nk + fill && i < NK; i++) MC_CHECK(do_insert(i), "prefill fails");
  mc_op("%d other keys present, value size %d", fill, vs);
  ops(nk, depth, true);
  if(fill) mc_sample("%d-operation sequences over 4 keys with hash equality pattern %d, %d other keys, value size %d", depth, pat, fill, vs);
}

/* keys whose hashes land in chosen buckets of the smallest table: every displacement order */
static uint32_t hash_for_bucket(int b, int nbuckets, int nth) {
  for(uint32_t h = 0;; h++) {
    uint64_t m = (uint64_t)h * 0x9e3779b97f4a7c15ULL;
    uint32_t k = (uint32_t)(m >> 32);
    if((int)(k % (uint32_t)nbuckets) == b && nth-- == 0) return h;
  }
}
static void s_displace(void) {
  int use_ext = mc_choose(2);
  ext = NULL;
  int nk = 5;
  int vs = mc_thorough() ? vsizes[mc_choose(3) + 1] : use_ext ? 8 : 12;
  static unsigned char store[4096] __attribute__((aligned(16)));
  khash[0] = 0;
  if(use_ext) { ext = store; ext_size = 700; start(vs, 0, store, ext_size, false); }
  else start(vs, 0, NULL, 0, false);
  int nb = (int)H.num_buckets;
  if(nb > 13) mc_prune();
  int base = nb - 2;  /* wrap around the end too */
  for(int i = 0; i < nk; i++) khash[i] = hash_for_bucket((base + mc_choose(3)) % nb, nb, i);
  for(int i = nk; i < NK; i++) khash[i] = hash_for_bucket((base + i) % nb, nb, i);
  mc_op("%s table of %d buckets", use_ext ? "caller-supplied" : "allocated", nb);
  /* all insertion orders then all removals, reinsertion */
  int left[8], n = nk; for(int i = 0; i < nk; i++) left[i] = i;
  int ins = mc_tier(4, 5);
  for(int d = 0; d < ins; d++) { int c = mc_choose(n); int k = left[c]; left[c] = left[--n]; mc_op("insert key %d", k); MC_CHECK(do_insert(k), "insertion fails"); }
  verify(nk);
  for(int d = 0; d < mc_tier(1, 2); d++) { int k = mc_choose(nk); mc_op("remove key %d", k); do_remove(k, d); verify(nk); }
  int k = mc_choose(nk); mc_op("insert key %d", k); do_insert(k); verify(nk);
  mc_state(mc_hash(model_hash(), khash, sizeof(uint32_t) * (size_t)nk));
  finish();
}

/* grow far, with reserve and with a full caller-supplied table */
static void s_bulk(void) {
  int kind = mc_choose(4); int vs = vsizes[mc_choose(6)]; int n = 1 + mc_choose(NK - 1);
  static unsigned char store[4096] __attribute__((aligned(16)));
  int slack = mc_choose(3);
  int spread = mc_choose(4);
  for(int i = 0; i < NK; i++) khash[i] = spread == 0 ? 1 : spread == 1 ? (uint32_t)i : spread == 2 ? (uint32_t)i % 3 : (uint32_t)i * 0x10001u;
  ext = NULL;
  if(kind == 3) { ext = store; size_t sz = 100 + (size_t)n * 40 + (size_t)slack * 300; __asan_unpoison_memory_region(store, sizeof store); __asan_poison_memory_region(store + sz, sizeof store - sz); start(vs, 0, store, sz, false); }
  else { if(slack) mc_prune(); start(vs, (size_t)(kind == 1 ? n : 0), NULL, 0, kind == 2); }
  mc_op("%s table, %d keys, value size %d", kind == 3 ? "caller-supplied" : "allocated", n, vs);
  if(kind == 2) { size_t add = (size_t)n; bool ok = dh_reserve_capacity(&H, add); MC_CHECK(ok, "reserve fails"); MC_CHECK(dh_cur_capacity(&H) - dh_num_items(&H) >= add, "reserving %d entries gives capacity %d", n, (int)dh_cur_capacity(&H)); }
  for(int i = 0; i < n; i++) { int cap = (int)dh_cur_capacity(&H), used = count(); bool ok = do_insert(i); if(!ok) { MC_CHECK(ext && used >= cap, "insertion %d fails", i); break; } verify(n); }
  for(int i = 0; i < n; i += 2) { do_remove(i, false); verify(n); }
  for(int i = 0; i < n; i++) { int cap = (int)dh_cur_capacity(&H), used = count(); if(model[i].in && kind == 2) refuse_replace = i % 3 == 0;
    bool in = model[i].in; unsigned ov = model[i].val; bool ok = do_insert(i);
    if(in && kind == 2 && refuse_replace) MC_CHECK(!ok && model[i].val == ov, "a refused replacement happens");
    else if(!ok) MC_CHECK(ext && used >= cap, "insertion %d fails", i);
    refuse_replace = false; verify(n); }
  mc_state(model_hash());
  finish();
}

/* reserving room at any moment: either there is room afterwards or nothing changed */
static void s_reserve(void) {
  static const size_t adds[] = {0, 1, 2, 3, 5, 8, 13, 40, 1000, 70000, (size_t)1 << 33, ((size_t)1 << 57) + 3, (size_t)-1 / 128, (size_t)-1 / 2, (size_t)-1};
  ext = NULL; int vs = vsizes[mc_choose(6)], n = mc_choose(NK), rem = mc_choose(3); size_t add = adds[mc_choose(15)]; int fail = mc_choose(2);
  size_t store = mc_choose(3); static const size_t limits[] = {0, 2000, 600};
  for(int i = 0; i < NK; i++) khash[i] = (uint32_t)i % 7;
  cfg_limit = limits[store]; start(vs, 0, NULL, 0, false); cfg_limit = 0;
  mc_op("%d keys, value size %d, storage limit %d, reserve %zu%s", n, vs, (int)limits[store], add, fail ? " with failing allocation" : "");
  for(int i = 0; i < n; i++) if(!do_insert(i)) { MC_CHECK(limits[store], "insertion fails"); n = i; break; }
  if(rem) for(int i = 0; i < n; i += rem) do_remove(i, false);
  size_t cap = dh_cur_capacity(&H), used = (size_t)count();
  if(fail) mc_alloc_fail_at(1);
  bool ok = dh_reserve_capacity(&H, add);
  mc_alloc_fail_at(0);
  if(ok) MC_CHECK(dh_cur_capacity(&H) - used >= add, "reserving %zu entries succeeds with room for %zu", add, dh_cur_capacity(&H) - used);
  else { MC_CHECK(dh_cur_capacity(&H) == cap, "a failed reservation changes the capacity"); MC_CHECK(add > cap - used, "reserving %zu entries fails although there is room for %zu", add, cap - used);
    if(!fail && !limits[store]) MC_CHECK(add > 1000000, "reserving %zu entries fails", add); }
  if(limits[store]) MC_CHECK((size_t)H.num_buckets * (sizeof(dhKey) + (size_t)vs) <= limits[store], "the table of %d buckets exceeds the storage limit", (int)H.num_buckets);
  verify(NK);
  if(ok && add <= 40 && !limits[store]) { mc_alloc_fail_at(1); for(size_t a = 0, i = 0; a < add && i < NK; i++) if(!model[i].in) { MC_CHECK(do_insert((int)i), "insertion %zu of %zu reserved ones fails", a, add); a++; } MC_CHECK(!mc_alloc_failed(), "a reserved insertion allocates"); mc_alloc_fail_at(0); }
  verify(NK); mc_state(model_hash());
  finish();
}

/* library key helpers */
static bool eq_nocase(dhKey a, dhKey b, void *ctx) { (void)ctx; return a.length == b.length && !strncasecmp(a.data, b.data, a.length); }
static void s_keys(void) {
  vsize = 4; mc_alloc_track(true);
  int mode = mc_choose(3);   /* strings, integers, strings without case */
  int a = mc_choose(14), b = mc_choose(14), c = mc_choose(14);
  static const char *strs[] = {"", "a", "b", "aa", "ab", "ba", "a/b", "A", "aaa", "b/", "/", "abcdefgh", "AB", "Aa"};
  static const uintptr_t ints[] = {0, 1, 2, 3, 5, 7, 11, 13, 0xffffffffu, 0x10000, 12345, 8, 100, 99};
  int idx[3] = {a, b, c}; unsigned vals[14]; bool in[14] = {0}; int rep[14];
  for(int q = 0; q < 14; q++) { rep[q] = q; for(int j = 0; mode == 2 && j < q; j++) if(!strcasecmp(strs[j], strs[q])) { rep[q] = j; break; } }
  dhash h; dhConfig cfg = {.value_size = sizeof(unsigned), .destroy_item = (ItemDestructor)mc_state, .gen_hash = mode == 1 ? dh_gen_hash_int : mode == 2 ? dh_gen_hash_string_no_case : dh_gen_hash_string, .is_equal = mode == 1 ? dh_equal_hash_keys_int : mode == 2 ? eq_nocase : dh_equal_hash_keys_string};
  extern void nop_destroy(dhKey, void *, void *); cfg.destroy_item = nop_destroy;
  MC_CHECK(dh_init(&h, &cfg, NULL), "dh_init fails");
  for(int round = 0; round < 2; round++) {
    for(int j = 0; j < 3; j++) {
      int i = idx[j]; dhKey k = {.data = mode == 1 ? (void *)ints[i] : (void *)strs[i], .length = mode == 1 ? 0 : strlen(strs[i])};
      unsigned v = (unsigned)(i + 100 * j + 1000 * round); MC_CHECK(dh_insert(&h, k, &v), "insert fails"); in[rep[i]] = true; vals[rep[i]] = v;
      for(int q = 0; q < 14; q++) { dhKey kq = {.data = mode == 1 ? (void *)ints[q] : (void *)strs[q], .length = mode == 1 ? 0 : strlen(strs[q])}; unsigned g = 0; bool f = dh_lookup(&h, kq, &g);
        MC_CHECK(f == in[rep[q]] && (!f || g == vals[rep[q]]), "%s key %d lookup is wrong", mode == 1 ? "integer" : mode ? "caseless string" : "string", q); }
    }
    for(int j = 0; j < 2; j++) { int i = idx[j]; dhKey k = {.data = mode == 1 ? (void *)ints[i] : (void *)strs[i], .length = mode == 1 ? 0 : strlen(strs[i])};
      bool r = dh_remove(&h, k, NULL); MC_CHECK(r == in[rep[i]], "remove returns %d", r); in[rep[i]] = false; }
  }
  mc_op("%s keys %d %d %d", mode == 1 ? "integer" : mode ? "caseless string" : "string", a, b, c); mc_state((uint64_t)(a * 196 + b * 14 + c) * 3 + (uint64_t)mode);
  dh_free(&h); MC_CHECK(mc_alloc_live() == 0, "leak");
}
void nop_destroy(dhKey k, void *v, void *ctx) { (void)k; (void)v; (void)ctx; }

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P24");
  mc_set_cleanup(cleanup);
  mc_note("every sequence of up to %d insertions and removals over 4 keys, for every equality pattern of their hashes, over 4 prefill levels, allocation failure at each step", mc_tier(4, 5));
  mc_note("every assignment of 5 keys to 3 adjacent buckets (wrapping), every insertion order, removals, 1 reinsertion; growth and fixed tables to %d keys", NK - 1);
  mc_explore("sequences over colliding keys", s_seq);
  mc_explore("displacement in adjacent buckets", s_displace);
  mc_explore("growth, reservation, fixed storage", s_bulk);
  mc_explore("reservation and storage limits", s_reserve);
  mc_explore("library key helpers", s_keys);
  return mc_main_finish();
}
