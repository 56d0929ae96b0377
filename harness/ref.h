/* Reference path semantics, written from the documentation, used as oracle
   and by the in-memory file system. */
#ifndef REF_H
#define REF_H
#include <stdbool.h>
#include <stddef.h>
#define REF_MAX 8192
/* length of the root component; *abs = path is absolute */
int  ref_root(const char *path, bool dos, bool *abs);
void ref_normalize(const char *path, bool dos, char *out);
void ref_join(const char *head, int hn, const char *tail, int tn, bool dos, char *out);
void ref_absolute(const char *cwd, const char *path, bool dos, char *out);
void ref_basename(const char *path, int *start, int *len);
void ref_dirname(const char *path, bool dos, int *start, int *len);
void ref_extname(const char *path, int *start, int *len);
bool ref_is_sep(char c);
#endif
