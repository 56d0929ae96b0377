/* In-memory reference file system: an Evfs base with fault injection, call
   logging and open-handle accounting.  Independent of the code under test
   except for the Evfs/EvfsFile/EvfsDir interface. */
#ifndef MEMFS_H
#define MEMFS_H
#include "evfs.h"
#include "mc.h"
#include "ref.h"

#ifndef MEM_NODES
#define MEM_NODES 96
#endif
#define MEM_PATH  640

enum { MF_OPEN = 1, MF_STAT, MF_DELETE, MF_RENAME, MF_MKDIR, MF_OPENDIR, MF_GETCWD, MF_SETCWD, MF_CTRL, MF_ROOT,
       MF_READ, MF_WRITE, MF_TRUNC, MF_SYNC, MF_SIZE, MF_SEEK, MF_TELL, MF_EOF, MF_FCTRL, MF_CLOSE,
       MF_DREAD, MF_DREWIND, MF_DCLOSE, MF_NOPS };
#define MF_BIT(op) (1u << (op))
/* operations that may fail through fault injection */
#define MF_FAILABLE (MF_BIT(MF_OPEN)|MF_BIT(MF_STAT)|MF_BIT(MF_DELETE)|MF_BIT(MF_RENAME)|MF_BIT(MF_MKDIR)|MF_BIT(MF_OPENDIR)|\
                     MF_BIT(MF_GETCWD)|MF_BIT(MF_SETCWD)|MF_BIT(MF_READ)|MF_BIT(MF_WRITE)|MF_BIT(MF_TRUNC)|MF_BIT(MF_SYNC)|\
                     MF_BIT(MF_SEEK)|MF_BIT(MF_DREAD)|MF_BIT(MF_DREWIND))
#define MF_MUTATING (MF_BIT(MF_OPEN)|MF_BIT(MF_DELETE)|MF_BIT(MF_RENAME)|MF_BIT(MF_MKDIR)|MF_BIT(MF_WRITE)|MF_BIT(MF_TRUNC))

typedef struct MemNode {
  bool used, dir, unlinked;
  char path[MEM_PATH];
  unsigned char *data;
  int size, cap, opens, shown;   /* shown: size in the directory entry when updates are lazy */
  uint32_t mtime;
} MemNode;

typedef struct Mem {
  Evfs vfs;
  char name[16];
  MemNode n[MEM_NODES];
  int nhigh;
  char cwd[MEM_PATH];
  /* options */
  bool dos, dots, reverse, readonly, no_rw_check, refuse_open_delete, lazy_size;
  int  shuffle;                 /* rotate directory order by this many slots */
  int  max_path;                /* refuse longer paths when > 0 */
  /* accounting */
  int open_files, open_dirs, unregistered;
  long ops, op_limit;
  long mutations;               /* effective changes */
  int root_count;               /* call counter per kind */
  long kind_count[MF_NOPS];
  int  last_cmd; 
  /* faults: fires at the fail_at-th matching operation from now */
  unsigned fail_mask; int fail_at; int fail_second; /* and again that many later */ int fail_err; bool fail_forever; bool fired; int fired_op; unsigned fired_set;
  bool short_io; int short_len; /* instead of an error transfer only short_len bytes */
  int  fault_seen;              /* matching ops seen */
  bool close_loses; int lost_bytes; /* a failing close drops what was added since the last sync or close */
  bool strict_seek;             /* a write after a failed seek, before a successful one, is a violation */
  bool crash;                   /* firing = the machine stops: everything fails until mem_revive */
  int  torn;                    /* at a crash in a write, this many bytes still land */
  bool dead;
  /* every path given to the base, after normalization against cwd */
  void (*path_hook)(struct Mem *m, int op, const char *raw, const char *abs);
  uint64_t log_hash; bool logging; char *log; int log_len, log_cap;
} Mem;

void mem_init(Mem *m, const char *name);          /* fresh empty file system with a root directory (not registered) */
void mem_free(Mem *m);                            /* releases node data */
MemNode *mem_find(Mem *m, const char *abspath);   /* NULL when missing */
MemNode *mem_mkdir(Mem *m, const char *abspath);
MemNode *mem_put(Mem *m, const char *abspath, const void *data, int size);
uint64_t mem_hash(Mem *m);                        /* contents of the whole tree */
bool mem_same(Mem *a, Mem *b, char *why, size_t n);
void mem_fault(Mem *m, unsigned mask, int at, int err, bool forever);
void mem_clear_fault(Mem *m);
void mem_revive(Mem *m);                          /* after a crash: handles are gone, storage stays */
int  mem_count_prefix(Mem *m, const char *prefix);
const char *mem_op_name(int op);
void mem_dump(Mem *m);
#define MEM_USER_CMD   (EVFS_CMD_USER_DEFINED + 7)
/* commands of the underlying file system that the library knows nothing of */
static const int MEM_USER_CMDS[] = { MEM_USER_CMD, 0x0100000c, (0x4000 << 2) | 1, (9999 << 2) | 3, EVFS_CMD_USER_DEFINED, EVFS_CMD_USER_DEFINED + 1, 5000, 0x7fffffff };
static inline int mem_user_cmd(int cmd) { for(unsigned i = 0; i < sizeof MEM_USER_CMDS / sizeof *MEM_USER_CMDS; i++) if(MEM_USER_CMDS[i] == cmd) return 1; return 0; }
void mem_log(Mem *m, bool on);
#endif
