#include "ref.h"
#include <ctype.h>
#include <string.h>
bool ref_is_sep(char c) { return c == '/' || c == '\\'; }

int ref_root(const char *p, bool dos, bool *abs) {
  int n = 0, s;
  if(dos && isalnum((unsigned char)p[0]) && p[1] == ':') n = 2;
  for(s = n; ref_is_sep(p[s]); s++) ;
  if(abs) *abs = s > n;
  return s;
}

void ref_normalize(const char *p, bool dos, char *out) {
  bool abs; int r = ref_root(p, dos, &abs);
  int o = 0;
  const char *body = p;
  bool drive = dos && isalnum((unsigned char)p[0]) && p[1] == ':';
  if(drive) { out[o++] = p[0]; out[o++] = ':'; }
  if(abs) out[o++] = '/';
  body = p + r;
  int root_len = o;
  /* out + root_len holds the joined kept segments */
  int seg_start[REF_MAX / 2]; int nseg = 0;
  while(*body) {
    while(ref_is_sep(*body)) body++;
    if(!*body) break;
    const char *e = body;
    while(*e && !ref_is_sep(*e)) e++;
    int len = (int)(e - body);
    if(len == 1 && body[0] == '.') { body = e; continue; }
    if(len == 2 && body[0] == '.' && body[1] == '.') {
      bool top_is_parent = nseg > 0 && o - seg_start[nseg-1] == 2 && !memcmp(out + seg_start[nseg-1], "..", 2);
      if(nseg > 0 && !top_is_parent) {
        nseg--;
        o = seg_start[nseg];
        if(o > root_len) o--;         /* drop the separator too */
        body = e; continue;
      }
      if(abs) { body = e; continue; }
    }
    if(o > root_len) out[o++] = '/';
    seg_start[nseg++] = o;
    memcpy(out + o, body, (size_t)len); o += len;
    body = e;
  }
  out[o] = 0;
}

void ref_join(const char *h, int hn, const char *t, int tn, bool dos, char *out) {
  char head[REF_MAX]; memcpy(head, h, (size_t)hn); head[hn] = 0;
  memcpy(out, head, (size_t)hn);
  int o = hn;
  if(hn > 0 && ref_root(head, dos, NULL) != hn) out[o++] = '/';
  memcpy(out + o, t, (size_t)tn); o += tn;
  out[o] = 0;
}

void ref_absolute(const char *cwd, const char *p, bool dos, char *out) {
  bool abs; int r = ref_root(p, dos, &abs);
  if(abs) { ref_normalize(p, dos, out); return; }
  char tmp[REF_MAX];
  if(r > 0) { /* relative path with a drive prefix: the cwd's own root loses its drive */
    int cr = ref_root(cwd, dos, NULL);
    memcpy(tmp, p, (size_t)r);
    const char *rest = cr > 1 ? cwd + cr - 1 : cwd;
    strcpy(tmp + r, rest); strcat(tmp, "/"); strcat(tmp, p + r);
  } else {
    strcpy(tmp, cwd); strcat(tmp, "/"); strcat(tmp, p);
  }
  ref_normalize(tmp, dos, out);
}

void ref_basename(const char *p, int *start, int *len) {
  int n = (int)strlen(p), s = n;
  while(s > 0 && !ref_is_sep(p[s-1])) s--;
  *start = s; *len = n - s;
}

/* Python os.path.dirname(): the text before the base name without the separators
   that end it, but never less than the root component */
void ref_dirname(const char *p, bool dos, int *start, int *len) {
  int n = (int)strlen(p), s = n;
  int r = ref_root(p, dos, NULL);
  while(s > r && !ref_is_sep(p[s-1])) s--;
  while(s > r && ref_is_sep(p[s-1])) s--;
  *start = 0; *len = s;
}

/* Python os.path.splitext */
void ref_extname(const char *p, int *start, int *len) {
  int s, n; ref_basename(p, &s, &n);
  int e = s + n;
  int dot = -1;
  for(int i = s; i < e; i++) if(p[i] == '.') dot = i;
  int first = s;
  while(first < e && p[first] == '.') first++;
  if(dot < 0 || dot < first) { *start = e; *len = 0; }
  else { *start = dot; *len = e - dot; }
}
