/* instantiates the header-only parts, so that the IR rules see them too */
#define SSA_MAXELEM 16
#define SSA_ELEMSIZE 8
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "ssalloc.c"
#include "guard_alloc.c"
#include "tglist.h"
#include "tgilist.h"
#include "bmap.h"
#include "hbmap.h"
#include "stringlist.h"
#include "sptrlist.h"
#include "kvlist.h"
#include "endianness.h"
struct rec { int a; char b; };
typedef tglist(int) probe_list;
typedef tgilist(struct rec, unsigned) probe_ilist;
typedef bmap(int, struct rec) probe_map;
typedef hbmap(int, struct rec, 4) probe_hmap;
int probe_tglist_add(probe_list *l, int *v) { return tglist_add(l, *v); }
int probe_tglist_insert(probe_list *l, int *v, size_t p) { return tglist_insert(l, *v, p); }
size_t probe_tglist_insert_sorted(probe_list *l, int *v, int (*c)(const void*, const void*)) { return tglist_insert_sorted(l, *v, c); }
int probe_tgilist_insert(probe_ilist *l, struct rec *v, size_t p) { return tgilist_insert(l, *v, p); }
ssize_t probe_bmap_find(probe_map *m, int *k) { return bmap_find(m, *k); }
ssize_t probe_bmap_insert(probe_map *m, int *k, struct rec *v) { return bmap_insert(m, *k, *v); }
hbmap_iter probe_hbmap_insert(probe_hmap *m, int *k, struct rec *v) { return hbmap_insert(m, *k, *v); }
hbmap_iter probe_hbmap_find(probe_hmap *m, int *k) { return hbmap_find(m, *k); }
void *probe_ssa_alloc(ssa_pool *p, size_t n) { return ssa_alloc(p, n); }
void probe_ssa_free(ssa_pool *p, void *x) { ssa_free(p, x); }
void probe_ssa_init(ssa_pool *p) { ssa_init(p); }
void *probe_guard_alloc(size_t n) { return guard_alloc(n); }
void probe_guard_free(void *p, size_t n) { guard_free(p, n); }
