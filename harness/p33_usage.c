/* P33: generated usage text, every bounded option definition x widths, against the list of what it has to show. */
#include "common.h"
#include <stdlib.h>
#include "evfs/util/getopt_r.h"

void print_command_usage(const char *, const char *, const struct option *, const char **, const OptionHelp *, int);
static int flag_val;
static const struct option pool[] = {
  { "all", no_argument, NULL, 'a' }, { "beta", required_argument, NULL, 'b' }, { "opt", optional_argument, NULL, 300 }, { "flag", required_argument, &flag_val, 'x' },
  { "an-option-with-quite-a-long-name", required_argument, NULL, 0x4000000 }, { "z", no_argument, NULL, 1 } };
#define NPOOL 6
static const char *apps[] = { "p", "program", "an-application-of-a-long-name", "an-application-whose-name-is-wider-than-most-of-the-lines-it-is-shown-on" };
static const char *shorts[] = { "", "x", "ay:", ":b:x::v", "q:w:" };
static const char *poss[] = { "in", "out-file", "further-and-longer-operands" };
/* help of an option: none, text, text and argument, long text, long text and argument; required or not */
enum { H_NONE, H_TEXT, H_ARG, H_LONG, H_REQ, H_REQARG, NH };
static char txt[2][24000]; static size_t tl[2];                /* expected: text with white space collapsed */
static void add(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void add(const char *fmt, ...) { va_list ap; va_start(ap, fmt); tl[0] += (size_t)vsnprintf(txt[0] + tl[0], sizeof txt[0] - tl[0], fmt, ap); va_end(ap); }
static OptionHelp helps[16]; static int nhelp; static char hname[16][40], htext[16][80], harg[16][16];
static const OptionHelp *hfind(const char *nm) { for(int i = 0; i < nhelp; i++) if(!strcmp(helps[i].name, nm)) return &helps[i]; return NULL; }
static void hadd(const char *nm, int kind) {
  if(kind == H_NONE || hfind(nm)) return;
  OptionHelp *h = &helps[nhelp];
  snprintf(hname[nhelp], 40, "%s", nm); snprintf(htext[nhelp], 80, kind == H_LONG ? "h%d rather more words about this than fit beside it" : "h%d text", nhelp); snprintf(harg[nhelp], 16, "<%s%d>", nhelp % 2 ? "v" : "longer", nhelp);
  *h = (OptionHelp){ hname[nhelp], htext[nhelp], kind == H_ARG || kind == H_REQARG ? harg[nhelp] : NULL, kind >= H_REQ ? OPT_REQUIRED : 0 };
  nhelp++; helps[nhelp] = (OptionHelp){ 0 };
}
static char *out; static size_t out_n; static FILE *real_out;
static void drop(void) { if(real_out) { FILE *f = stdout; stdout = real_out; real_out = NULL; fclose(f); } free(out); out = NULL; mc_alloc_fail_at(0); mc_alloc_track(false); mc_alloc_reset(); }
static struct option *lo_tab; static char *os; static const char **pos;
static const char *items[24]; static char itbuf[24][80]; static int nit;
static bool shown(const struct option *o) { return !o->flag && o->val > 32 && o->val < 127; }
static void item(bool req, const char *fmt, const char *a, const char *b) { char t[70]; snprintf(t, sizeof t, fmt, a, b); snprintf(itbuf[nit], 80, req ? "%s" : "[%s]", t); items[nit] = itbuf[nit]; nit++; }
static void run(int app, int cols, int nfail) {
  const struct option *lt = lo_tab; char one[2] = { 0 };
  int nl = 0; if(lt) while(lt[nl].name) nl++;
  nit = 0; tl[0] = 0;
  for(int i = 0; i < nl; i++) {
    const OptionHelp *h = hfind(lt[i].name); char nm[60]; snprintf(nm, sizeof nm, "--%s", lt[i].name); const char *arg = lt[i].has_arg ? "=<>" : "";
    char full[70]; if(shown(&lt[i])) snprintf(full, sizeof full, "-%c|%s", lt[i].val, nm); else snprintf(full, sizeof full, "%s", nm);
    item(h && h->flags, "%s%s", full, arg);
  }
#define EACH_SHORT for(const char *p = os; *p; p++) { bool dup = *p == ':'; for(int i = 0; i < nl; i++) if(shown(&lt[i]) && lt[i].val == *p) dup = true; if(dup) continue; one[0] = *p; const OptionHelp *h = hfind(one);
  EACH_SHORT char o[3] = { '-', *p, 0 }; item(h && h->flags, "%s%s", o, p[1] == ':' ? " <>" : ""); }
  for(int i = 0; pos && pos[i][0]; i++) { const OptionHelp *h = hfind(pos[i]); item(h && h->flags, "%s%s", pos[i], ""); }
  /* everything in order, white space aside */
  add("Usage: %s", apps[app]);
  if(!nfail) for(int i = 0; i < nit; i++) add(" %s", items[i]);
  for(int i = 0; i < nl; i++) {
    const OptionHelp *h = hfind(lt[i].name);
    if(shown(&lt[i])) add(" -%c, --%s", lt[i].val, lt[i].name); else add(" --%s", lt[i].name);
    if(!h) { if(lt[i].has_arg) add("=<%s>", lt[i].has_arg == required_argument ? "required" : "optional"); }
    else { if(h->arg_name) add("=%s", h->arg_name); add(" %s", h->help); }
  }
  EACH_SHORT add(" -%c", *p);
    if(!h) { if(p[1] == ':') add(" <%s>", p[2] == ':' ? "optional" : "required"); }
    else { if(h->arg_name) add(" %s", h->arg_name); add(" %s", h->help); } }
  for(int i = 0; pos && pos[i][0]; i++) { const OptionHelp *h = hfind(pos[i]); add(" %s", pos[i]); if(h) { if(h->arg_name) add(" %s", h->arg_name); add(" %s", h->help); } }

  mc_op("usage of %s in %d columns, short \"%s\", %d long, %d operands, %d helped%s", apps[app], cols, os, nl, pos ? (pos[0][0] ? 1 + (pos[1][0] != 0) : 0) : -1, nhelp, nfail ? ", out of memory" : "");
  FILE *f = open_memstream(&out, &out_n); fflush(stdout); real_out = stdout; 
  mc_alloc_reset(); 
  stdout = f; mc_alloc_track(true); if(nfail) mc_alloc_fail_at(nfail);
  print_command_usage(apps[app], os, lo_tab, pos, helps, cols);
  bool failed = mc_alloc_failed();
  mc_alloc_track(false); mc_alloc_fail_at(0); stdout = real_out; real_out = NULL; fclose(f);
  if(nfail && !failed) { free(out); out = NULL; return; }      /* nothing to fail */
  MC_CHECK(mc_alloc_live() == 0, "%d blocks are leaked", mc_alloc_live());
  /* collapse, dropping colour codes */
  char *d = txt[1]; bool sp = false; 
  for(const char *s = out; *s; s++) {
    if(*s == 27) { while(*s && *s != 'm') s++; continue; }
    if(*s == ' ' || *s == '\n') { sp = true; continue; }
    if(sp && d > txt[1]) *d++ = ' ';
    sp = false; *d++ = *s;
    MC_CHECK(d < txt[1] + sizeof txt[1] - 2, "endless text");
  }
  *d = 0;
  size_t k = 0; while(txt[0][k] && txt[0][k] == txt[1][k]) k++;
  MC_CHECK(!strcmp(txt[0], txt[1]), "the text (white space aside) goes on with \"%.60s\", not \"%.60s\"", txt[1] + k, txt[0] + k);
  /* no line is wider than asked for unless its first word already begins on a line of its own: what it holds cannot be broken */
  int line = 0, col = -1; 
  for(char *s = out, *e; *s; s = e + 1, line++) {
    e = strchr(s, '\n'); MC_CHECK(e != NULL, "the last line does not end");
    char l[400]; int n = 0; for(char *c = s; c < e && n < 399; c++) { if(*c == 27) { while(*c != 'm') c++; continue; } l[n++] = *c; } l[n] = 0;
    while(n && l[n - 1] == ' ') l[--n] = 0;
    char *w = l + strspn(l, " "); bool single = false;
    for(int i = 0; i < nit; i++) if(!strcmp(w, items[i])) single = true;         /* one item */
    for(int i = 0; i < nhelp; i++) if(!strcmp(w, helps[i].help)) single = true;  /* one help text */
    char *hp = NULL; for(int i = 0; i < nhelp && !single; i++) { char *q = strstr(l, helps[i].help); if(q && q > w) hp = q; }
    if(line && !hp && w[0] == '-') single = true;                                /* one option and its argument */
    if(line) for(int i = 0; pos && pos[i][0]; i++) if(!hp && !strncmp(w, pos[i], strlen(pos[i]))) single = true;
    if(line == 0) { char u[120]; snprintf(u, sizeof u, "Usage: %s", apps[app]); if(!strcmp(l, u)) single = true; }
    MC_CHECK(n <= cols || single, "line %d is %d wide, not %d: \"%s\"", line + 1, n, cols, l);
    if(hp) { int c = (int)(hp - l); MC_CHECK(col < 0 || c == col, "the help texts begin in columns %d and %d: \"%s\"", col, c, l); col = c; MC_CHECK(hp[-1] == ' ' && hp[-2] == ' ', "help is not set off: \"%s\"", l); }
  }
  mc_state(mc_hash(MC_HASH0, out, out_n));
  free(out); out = NULL;
}
static void s_usage(void) {
  drop(); nhelp = 0; memset(helps, 0, sizeof helps);
  static struct option tab[4]; static char osb[12]; static const char *pb[4];
  /* long options: an ordered choice of up to two (three) of the pool */
  int nl = 0; memset(tab, 0, sizeof tab); bool lnull = false;
  int n = mc_choose(mc_tier(4, 5));
  if(n == 0) lnull = true;
  for(int i = 0; i + 1 < n; i++) { int k = mc_choose(NPOOL); if(i >= 2 && k < 3) mc_prune(); for(int j = 0; j < nl; j++) if(!strcmp(tab[j].name, pool[k].name)) mc_prune(); tab[nl++] = pool[k]; }
  snprintf(osb, sizeof osb, "%s", shorts[mc_choose((int)(sizeof shorts / sizeof *shorts))]);
  int np = mc_choose(mc_tier(3, 4)); for(int i = 0; i < np; i++) pb[i] = poss[np == 1 ? 2 : i]; pb[np] = "";
  if(np == 0 && mc_choose(2)) pos = NULL; else pos = pb;
  lo_tab = lnull ? NULL : tab; os = osb;
  int hl = 0; for(int i = 0; i < nl; i++) hadd(tab[i].name, hl = i < mc_tier(1, 2) ? mc_choose(NH) : (hl * 5 + 2) % NH);
  int hs = mc_choose(NH), hq = np ? mc_choose(mc_tier(3, NH)) * mc_tier(2, 1) : 0, rot = 0;
  for(char *p = osb; *p; p++) if(*p != ':') { char o[2] = { *p, 0 }; hadd(o, hs ? 1 + (hs - 1 + rot) % (NH - 1) : 0); rot += 3; }
  if(hs && !osb[0]) mc_prune();
  for(int i = 0; i < np; i++) hadd(pb[i], hq ? 1 + (hq - 1 + i) % (NH - 1) : 0);
  static const int cq[] = { 0, 9, 24, 40, 53, 80, 300, 31, 66 };
  for(int app = 0; app < 4; app++) {
    for(int c = 0; c < mc_tier(7, 9); c++) run(app, cq[c], 0);
  }
  run(1, 80, 1);
}
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P33");
  mc_note("every ordered choice of up to %d of %d long options (with and without short form, argument, flag, values beyond a character) or no table x %d short option strings x up to %d operands or none x %d kinds of help (none, with and without argument, longer than the line, required) x 4 application names x %s widths; each with the only allocation failing", mc_tier(2, 3), NPOOL, (int)(sizeof shorts / sizeof *shorts), mc_tier(2, 3), NH, mc_thorough() ? "9" : "7");
  mc_explore("usage", s_usage);
  return mc_main_finish();
}
