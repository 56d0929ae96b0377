/* P23: glob matching against an independent definition, for every short pattern and name. */
#include "common.h"
#include "evfs/util/glob.h"

static Fence fp, fs;
#define SEPS "/\\"
static bool sep(char c) { return c == '/' || c == '\\'; }

/* parse the set starting at p[0]=='['; 0 = malformed or unspecified, else its length; members in set[] */
static int set_parse(const char *p, bool *set) {
  int i = 1; bool inv = false;
  memset(set, 0, 256);
  if(p[i] == '!') { inv = true; i++; }
  if(p[i] == ']') return 0;           /* "[]", "[!]": not specified */
  for(; p[i] && p[i] != ']'; ) {
    if(p[i + 1] == '-') {
      if(!p[i + 2] || p[i + 2] == ']') return 0;
      for(int c = (unsigned char)p[i]; c <= (unsigned char)p[i + 2]; c++) set[c] = true;
      i += 3;
    } else set[(unsigned char)p[i++]] = true;
  }
  if(!p[i]) return 0;
  if(inv) for(int c = 0; c < 256; c++) set[c] = !set[c];
  set[0] = false;                     /* the end of the name is not a character */
  return i + 1;
}
static bool well_formed(const char *p) { bool set[256]; while(*p) { if(*p == '[') { int n = set_parse(p, set); if(!n) return false; p += n; } else p++; } return true; }

static bool cross_set;                /* may a set match a separator? not documented: both readings are accepted */
static bool rmatch(const char *p, const char *s) {
  bool set[256]; int n;
  switch(*p) {
    case 0: return !*s;
    case '*': for(;; s++) { if(rmatch(p + 1, s)) return true; if(!*s || sep(*s)) return false; }
    case '?': return *s && !sep(*s) && rmatch(p + 1, s + 1);
    case '[': n = set_parse(p, set); return *s && set[(unsigned char)*s] && (cross_set || !sep(*s)) && rmatch(p + n, s + 1);
    default: return *p == *s && rmatch(p + 1, s + 1);
  }
}
static void check(const char *pat, bool wf, const char *name) {
  char *p = fence_str(&fp, pat), *s = fence_str(&fs, name);
  bool got = glob_match(p, s, SEPS);
  mc_tick(); mc_exec_done();
  if(!wf) return;
  cross_set = true; bool a = rmatch(pat, name);
  cross_set = false; bool b = rmatch(pat, name);
  if(a != b) return;
  MC_CHECK(got == a, "pattern '%s' %s '%s'", mc_str(pat), got ? "matches" : "does not match", mc_str(name));
  if(got) mc_state(mc_hash(mc_hash(MC_HASH0, pat, strlen(pat) + 1), name, strlen(name)));
}
static int pick(char *out, const char *alpha, int max) {
  int n = 0, na = (int)strlen(alpha);
  while(n < max) { int c = mc_choose(na + 1); if(c == 0) break; out[n++] = alpha[c - 1]; }
  out[n] = 0; return n;
}
static void all_names(const char *pat, const char *alpha, int max) {
  bool wf = well_formed(pat); int na = (int)strlen(alpha);
  char name[16]; int idx[16] = { 0 };
  for(int n = 0; n <= max; n++) {
    memset(idx, 0, sizeof idx);
    for(;;) {
      for(int i = 0; i < n; i++) name[i] = alpha[idx[i]];
      name[n] = 0;
      check(pat, wf, name);
      int i = 0; while(i < n && ++idx[i] == na) idx[i++] = 0;
      if(i == n) break;
    }
  }
  if(wf && strlen(pat) > 3) mc_sample("pattern '%s' against every name over {%s} up to %d characters", pat, alpha, max);
}
/* literals, wildcards and separators */
static void s_wild(void) {
  char pat[16]; pick(pat, "ab/*?", mc_tier(6, 7));
  mc_op("pattern '%s'", mc_str(pat)); all_names(pat, "ab/", mc_tier(5, 6));
}
static void s_wild2(void) {
  char pat[16]; pick(pat, "a.*", mc_tier(8, 9));
  mc_op("pattern '%s'", mc_str(pat)); all_names(pat, "a.", mc_tier(7, 8));
}
/* sets, malformed ones included */
static void s_sets(void) {
  char pat[16]; pick(pat, "ac*[]!-", mc_tier(6, 7));
  mc_op("pattern '%s'", mc_str(pat)); all_names(pat, "abc-", 3);
}
static void s_sets2(void) {
  static const char *pre[] = { "", "*", "?", "a", "[ab]" };
  static const char *post[] = { "", "*", "b", "/b", "*b" };
  char pat[32], in[16]; strcpy(pat, pre[mc_choose(5)]); strcat(pat, "[");
  pick(in, "a/!-\\]", mc_tier(4, 5)); strcat(pat, in);
  if(mc_choose(2)) strcat(pat, "]");
  strcat(pat, post[mc_choose(5)]);
  mc_op("pattern '%s'", mc_str(pat)); all_names(pat, "ab/-", mc_tier(3, 4));
}
/* every span of 8-bit characters against every character */
static void s_spans(void) {
  int lo = 1 + mc_choose(255); bool inv = mc_choose(2);
  mc_op("spans from \\x%02x", lo);
  for(int hi = 1; hi < 256; hi++) {
    if(lo == ']' || hi == ']') continue;
    if(lo == '!' && !inv) continue;
    char pat[8]; sprintf(pat, "[%s%c-%c]", inv ? "!" : "", lo, hi);
    for(int c = 0; c < 256; c++) { char n[2] = { (char)c, 0 }; check(pat, true, n); }
  }
}
/* literal characters, all 8-bit values */
static void s_literal(void) {
  int a = 1 + mc_choose(255);
  mc_op("literal \\x%02x", a);
  for(int b = 0; b < 256; b++) { char p[2] = { (char)a, 0 }, n[2] = { (char)b, 0 }; if(a != '[') check(p, true, n); else check(p, false, n); }
  for(int b = 1; b < 256; b++) { char p[4] = { '[', (char)a, (char)b, ']' }; char pp[8] = { p[0], p[1], p[2], p[3], 0 }; bool wf = well_formed(pp); for(int c = 0; c < 256; c++) { char n[2] = { (char)c, 0 }; check(pp, wf, n); } }
}
/* termination and bounds on many stars */
static void s_stars(void) {
  int stars = 1 + mc_choose(12), len = mc_choose(60), tail = mc_choose(3), sepat = mc_choose(4);
  char pat[64] = "", name[128] = "";
  for(int i = 0; i < stars; i++) strcat(pat, "*a");
  strcat(pat, tail == 0 ? "" : tail == 1 ? "b" : "*");
  for(int i = 0; i < len; i++) name[i] = 'a';
  if(sepat && len > 3) name[len * sepat / 4] = '/';
  mc_op("pattern '%s', name '%s'", pat, name);
  char *p = fence_str(&fp, pat), *s = fence_str(&fs, name);
  bool got = glob_match(p, s, SEPS);
  bool hassep = strchr(name, '/') != NULL;
  bool want = !hassep && (tail == 0 || tail == 2) && len >= stars;
  MC_CHECK(got == want, "pattern '%s' %s '%s'", pat, got ? "matches" : "does not match", name);
}
static void s_isglob(void) {
  char pat[16]; pick(pat, "a/*?[]", 5);
  bool want = strpbrk(pat, "*?[") != NULL;
  mc_op("is_glob '%s'", mc_str(pat));
  MC_CHECK(is_glob(fence_str(&fp, pat)) == want, "is_glob('%s') is wrong", mc_str(pat));
}

int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P23");
  mc_note("Patterns over {a,b,/,*,?} up to %d, {a,.,*} up to %d, {a,c,*,[,],!,-} up to %d characters; sets with separators; all 8-bit spans, pairs and literals; against every name up to 3..%d characters", mc_tier(6, 7), mc_tier(8, 9), mc_tier(6, 7), mc_tier(7, 8));
  mc_note("Oracle: a recursive definition of the pattern language; the result for malformed sets ([], [!], unterminated, open span) and whether a set may match a separator is not specified and not judged, only termination and bounds are");
  mc_explore("wild", s_wild);
  mc_explore("wild2", s_wild2);
  mc_explore("sets", s_sets);
  mc_explore("sets2", s_sets2);
  mc_explore("spans", s_spans);
  mc_explore("literal", s_literal);
  mc_explore("stars", s_stars);
  mc_explore("isglob", s_isglob);
  return mc_main_finish();
}
