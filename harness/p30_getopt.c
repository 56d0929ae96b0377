/* P30: command line parsing, every short command line over an alphabet of arguments, against a reference written from the documentation. */
#include "common.h"
#include <stdlib.h>
#include "evfs/util/getopt_r.h"

static int flag_val;
static struct option longs[] = { { "all", no_argument, NULL, 'a' }, { "beta", required_argument, NULL, 'b' }, { "opt", optional_argument, NULL, 'c' }, { "flag", no_argument, NULL, 9 }, { "fb", required_argument, NULL, 8 }, { 0 } };
static const char *shorts[] = { "ab:c::", ":ab:c::", "", "b:a", ":c::" };
static const char *words[] = { "-a", "-b", "-c", "x", "-", "--", "-ab", "-abx", "-ac", "-cx", "-z", "-az", "-:", "--all", "--all=1", "--beta", "--beta=y", "--opt", "--opt=", "--flag", "--fb", "--al", "--nope=3", "", "--=", "-a-" };
#define NW ((int)(sizeof words / sizeof *words))

typedef struct { int ret, opt, li; const char *arg; int flag; } Res;
static const char *av[10]; static int ac;                      /* the arguments as given */
static Res want[24]; static int nw; static int order[10], norder;  /* argument indices in the order they are consumed */
static int used_end;

/* what the documentation says the parser reports */
static void reference(const char *so, bool lo, bool permute) {
  int i = 1; nw = norder = 0; bool missing_colon = so[0] == ':'; int held[10], nh = 0;
  for(;;) {
    while(permute && i < ac && (av[i][0] != '-' || !av[i][1])) held[nh++] = i++;
    if(i >= ac || av[i][0] != '-' || !av[i][1]) break;
    if(!strcmp(av[i], "--")) { order[norder++] = i++; break; }
    const char *a = av[i];
    if(a[1] == '-') {
      if(!lo) break;
      order[norder++] = i++;
      const char *nm = a + 2, *eq = strchr(nm, '='); size_t l = eq ? (size_t)(eq - nm) : strlen(nm); int m = -1;
      for(int k = 0; longs[k].name; k++) if(strlen(longs[k].name) == l && !strncmp(longs[k].name, nm, l)) { m = k; break; }
      Res r = { '?', 0, -1, NULL, 0 };
      if(m >= 0) {
        bool fl = longs[m].flag != NULL, err = false; const char *arg = NULL;
        if(longs[m].has_arg == no_argument) err = eq != NULL;
        else if(eq) arg = eq + 1;
        else if(longs[m].has_arg == required_argument) { if(i < ac) { arg = av[i]; order[norder++] = i++; } else err = true; }
        if(err) r.opt = fl ? 0 : longs[m].val;
        else r = (Res){ fl ? 0 : longs[m].val, 0, m, arg, fl ? longs[m].val : 0 };
      }
      want[nw++] = r;
      continue;
    }
    order[norder++] = i++;
    for(const char *p = a + 1; *p; p++) {
      const char *d = *p == ':' ? NULL : strchr(so, *p); Res r = { *p, *p, -1, NULL, 0 };
      if(!d) { r.ret = '?'; want[nw++] = r; continue; }
      if(d[1] != ':') { want[nw++] = r; continue; }
      if(p[1]) r.arg = p + 1;
      else if(d[2] != ':') { if(i < ac) { r.arg = av[i]; order[norder++] = i++; } else r.ret = missing_colon ? ':' : '?'; }
      else if(i < ac && av[i][0] != '-') { r.arg = av[i]; order[norder++] = i++; }
      want[nw++] = r; break;
    }
  }
  used_end = norder + 1;                                         /* operands start here */
  for(int k = 0; k < nh; k++) order[norder++] = held[k];
  while(i < ac) order[norder++] = i++;
}
static char **vec;
static void drop(void) { for(int i = 0; i < 10; i++) { free((void *)av[i]); av[i] = NULL; } free(vec); vec = NULL; }
static void s_parse(void) {
  drop();
  const char *so = shorts[mc_choose(mc_tier(3, 5))]; bool lo = mc_choose(2), permute = mc_choose(2), rep = false;
  ac = 1; av[0] = strdup("prog");
  for(int i = 0; i < mc_tier(4, 5); i++) { int k = mc_choose(NW + 1); if(k == NW) break; av[ac++] = strdup(words[k]); }
  vec = malloc(sizeof *vec * (size_t)(ac + 1)); for(int i = 0; i < ac; i++) vec[i] = (char *)av[i]; vec[ac] = NULL;
  longs[3].flag = &flag_val; longs[4].flag = &flag_val;
  reference(so, lo, permute);
  char line[300] = ""; for(int i = 1; i < ac; i++) { strcat(line, " '"); strcat(line, av[i]); strcat(line, "'"); }
  mc_op("options \"%s\"%s%s:%s", so, lo ? ", long" : "", permute ? ", permuting" : "", line);
  GetoptState st; getopt_init(&st); st.permute_args = permute; st.report_errors = rep;
  for(int n = 0;; n++) {
    flag_val = 0; mc_tick();
    int r = lo ? getopt_long_r(vec, so, longs, &st) : getopt_r(vec, so, &st);
    if(r == -1) { MC_CHECK(n == nw, "parsing of%s ends after %d options, not %d", line, n, nw); break; }
    MC_CHECK(n < nw, "parsing of%s finds more than %d options", line, nw);
    const Res *w = &want[n];
    MC_CHECK(r == w->ret, "option %d of%s is reported as %d '%c', not %d '%c'", n, line, r, r > 31 ? r : '.', w->ret, w->ret > 31 ? w->ret : '.');
    MC_CHECK(st.optarg == w->arg, "option %d of%s gets the argument '%s', not '%s'", n, line, st.optarg ? mc_str(st.optarg) : "(none)", w->arg ? mc_str(w->arg) : "(none)");
    MC_CHECK(st.optopt == w->opt, "option %d of%s: optopt is %d, not %d", n, line, st.optopt, w->opt);
    MC_CHECK(st.long_index == w->li, "option %d of%s: long index is %d, not %d", n, line, st.long_index, w->li);
    MC_CHECK(flag_val == w->flag, "option %d of%s sets the flag to %d, not %d", n, line, flag_val, w->flag);
  }
  MC_CHECK(vec[ac] == NULL && vec[0] == av[0], "the argument vector of%s is damaged", line);
  MC_CHECK(st.optind == used_end, "operands of%s start at %d, not %d", line, st.optind, used_end);
  for(int i = 0; i < norder; i++) MC_CHECK(vec[i + 1] == av[order[i]], "argument %d of%s is '%s' after parsing, not '%s'", i + 1, line, mc_str(vec[i + 1]), mc_str(av[order[i]]));
  /* parsing again from the end finds nothing more, unless it ended at "--" */
  if(!(used_end > 1 && !strcmp(vec[used_end - 1], "--"))) { int r = lo ? getopt_long_r(vec, so, longs, &st) : getopt_r(vec, so, &st); MC_CHECK(r == -1 && st.optind == used_end, "another call after the end of%s gives %d, operands at %d", line, r, st.optind); }
  mc_state(mc_hash(mc_hash(MC_HASH0, line, strlen(line)), so, strlen(so)));
}
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P30");
  mc_note("every command line of up to %d arguments from %d words (short options alone, clustered and with arguments, long options with and without values, -, --, operands, empty and malformed words) x %d option strings x long options or none x permuting or not; argument vector and words in exactly sized blocks under the address sanitizer", mc_tier(4, 5), NW, mc_tier(3, 5));
  mc_explore("command lines", s_parse);
  return mc_main_finish();
}
