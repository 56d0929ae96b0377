/* P18: the host file system back end against the flag rules and a plain file tree. */
#include <ctype.h>
#include "fsmodel.h"
#ifdef NOPOSIX
/* what plain C can not do is refused and changes nothing; deleting and renaming work */
static void s_plain(void) {
  static const char *P[] = { "/f", "/d", "/d/in", "/new", "/none/x", "/f/x" };
  fm_up(BE_STDIO); fm_file("/f", "abc", 3); fm_dir("/d"); fm_file("/d/in", "q", 1);
  int live = mc_alloc_live(), fds = fd_low();
  for(int s = 0; s < mc_tier(2, 3); s++) {
    int o = mc_choose(9); const char *p = P[mc_choose(6)]; int st; TNode *x = tr_get(&fm_t, p); EvfsInfo inf; EvfsDir *d = (EvfsDir *)8; char c[300]; StringRange r;
    if(o == 0) break;
    switch(o) {
      case 1: st = evfs_make_dir_ex(be_path(p), V()); MC_CHECK(st == EVFS_ERR_NO_SUPPORT, "make_dir returns %s", EN(st)); break;
      case 2: st = evfs_open_dir_ex(be_path(p), &d, V()); MC_CHECK(st == EVFS_ERR_NO_SUPPORT, "open_dir returns %s", EN(st)); break;
      case 3: st = evfs_set_cur_dir_ex(be_path(p), V()); MC_CHECK(st == EVFS_ERR_NO_SUPPORT, "set_cur_dir returns %s", EN(st)); break;
      case 4: range_init(&r, c, sizeof c); st = evfs_get_cur_dir_ex(&r, V()); MC_CHECK(st == EVFS_ERR_NO_SUPPORT, "get_cur_dir returns %s", EN(st)); break;
      case 5: st = evfs_stat_ex(be_path(p), &inf, V()); MC_CHECK(st < 0, "stat returns %s", EN(st)); break;
      case 6: st = evfs_delete_ex(be_path(p), V()); mc_op("delete %s -> %s", p, EN(st)); MC_CHECK((st == EVFS_OK) == (x && (!x->dir || tr_empty(&fm_t, p))), "delete returns %s", EN(st)); if(st == EVFS_OK) tr_del(&fm_t, p); break;
      case 7: case 8: { const char *q = P[mc_choose(6)]; TNode *y = tr_get(&fm_t, q); st = evfs_rename_ex(be_path(p), be_path(q), V()); mc_op("rename %s %s -> %s", p, q, EN(st));
        bool can = x && tr_parent_ok(&fm_t, q) && !tr_below(q, p) && (!y || (x->dir == y->dir && (!y->dir || tr_empty(&fm_t, q))));
        if(!strcmp(p, q)) break;
        MC_CHECK((st == EVFS_OK) == can, "rename returns %s", EN(st)); if(st == EVFS_OK) { if(y) tr_del(&fm_t, q); tr_rename(&fm_t, p, q); } break; }
    }
    mc_state(tr_hash(&fm_t)); mc_tick();
  }
  fm_verify(&fm_t, "afterwards"); MC_CHECK(mc_alloc_live() == live && fd_low() == fds, "something stays allocated or open");
}
#endif
int main(int argc, char **argv) {
  mc_main_init(argc, argv, "P18");
  evfs_init();
  mc_set_cleanup(fm_clean);
  fm_nbe = 1; fm_bes[0] = BE_STDIO;
  mc_note("All 64 open-flag combinations x {missing, empty, with data, directory, missing parent, file as parent} x {close, read, write, read then write, seek then write}; what flags without an access mode allow is not specified and only effects are checked");
  mc_note("Data: every sequence of %d operations out of 24 on 4 open modes with small sizes, %d with sizes around the stdio buffer, compared with a byte array and the host file itself", mc_tier(3, 4), mc_tier(2, 3));
  mc_note("Names: every sequence of %d operations (write, delete, rename, make, change directory) over 5 absolute and 4 relative paths on an empty and a populated tree", mc_tier(3, 4));
  mc_note("opening with all 64 flag combinations files of every size up to 23 bytes and sizes around powers of two");
  mc_explore("flags", s_flags);
  mc_explore("sizes", s_sizes);
  mc_explore("data", s_data);
#ifdef NOPOSIX
  mc_explore("plain C operations", s_plain);
#else
  mc_explore("names", s_names);
#endif
  return mc_main_finish();
}
