/* C34: the iteration macros visit every element exactly once, in order, whatever the loop body does that
   is allowed: nothing, leaving early, and (signed counter) deleting the current element. */
#include "vf.h"
#include <string.h>
#include "sblist.h"
#include "stringlist.h"
#include "sptrlist.h"
#include "tglist.h"
#ifdef VF_THOROUGH
#define MAXN 6
#else
#define MAXN 4
#endif
static char tok[64];
static sblist L;
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static size_t n, w;
static void any_list(void) { size_t i, j;
	n = any_size(0, MAXN); w = any_size(1, 2);
	L.itemsize = w * sizeof(char*); L.blockitems = 2; L.count = n; L.capa = n;
	L.items = n ? vf_malloc(n * w * sizeof(char*)) : 0;
	for(i = 0; i < n; i++) for(j = 0; j < w; j++) ((char**) L.items)[i * w + j] = &tok[4 * i + j];
}
static void at(char **p, size_t i) { char *want = L.items + i * L.itemsize, *c;
	//@ check visited_in_place: (char*) p == want;
	c = *p;
	//@ check visited_element: c == &tok[4 * i];
}
void C34_sblist_iter(void) {
	size_t i = 0, stop; char **p; int kind;
	any_list(); stop = any_size(0, MAXN); kind = any_size(0, 2);
	VF_BEGIN(n, w, stop, kind);
	if(kind == 0) { sblist_iter(&L, p) { at(p, i); i++; if(i == stop) break; } }
	else if(kind == 1) { sblist_iter_counter(&L, q, p) {
		//@ check counter: q == i;
		at(p, i); i++; if(i == stop) break; } }
	else { size_t q; sblist_iter_counter2(&L, q, p) {
		//@ check counter: q == i;
		at(p, i); i++; if(i == stop) break; } 
		//@ check final: q == (stop && stop <= n ? stop - 1 : n);
	}
	//@ check all_visited: i == (stop && stop <= n ? stop : n);
	VF_END(n, w, stop, kind);
}
/* two loops over the same list, one inside the other */
void C34_sblist_nested(void) {
	size_t i = 0, j; char **p, **r;
	any_list();
	VF_BEGIN(n, w);
	sblist_iter(&L, p) {
		at(p, i);
		j = 0;
		sblist_iter(&L, r) { at(r, j); j++; }
		//@ check inner: j == n;
		i++;
	}
	//@ check outer: i == n;
	VF_END(n, w);
}
/* signed counter: the body deletes any subset of the elements and steps back */
void C34_sblist_delete(void) {
	size_t i = 0, k = 0, m; ssize_t q; char **p;
	any_list(); m = any_size(0, (1 << MAXN) - 1);
	VF_BEGIN(n, w, m);
	sblist_iter_counter2s(&L, q, p) {
		char *c = *p;
		//@ check visited_element: c == &tok[4 * i];
		if(m >> i & 1) { sblist_delete(&L, q); q--; } else {
			//@ check counter: q == k;
			k++; }
		i++;
	}
	//@ check all_visited: i == n;
	//@ check kept: L.count == k;
	VF_END(n, w, m);
}
void C34_stringlist(void) {
	size_t i = 0, q, stop; char *s, *c, **t;
	any_list(); stop = any_size(0, MAXN);
	if(w != 1) return;
	VF_BEGIN(n, stop);
	stringlist_foreach(&L, s) {
		//@ check foreach: s == &tok[4 * i];
		i++; if(i == stop) break;
	}
	//@ check foreach_all: i == (stop && stop <= n ? stop : n);
	i = 0;
	stringlist_iter(&L, q) {
		c = stringlist_get(&L, q);
		//@ check iter: q == i && c == &tok[4 * i];
		i++;
	}
	//@ check iter_all: i == n;
	VF_END(n, stop);
}
void C34_tglist(void) {
	tglist(char*) *l = tglist_new(); size_t i, q, cnt = any_size(0, MAXN); char *c;
	VF_BEGIN(cnt);
	for(i = 0; i < cnt; i++) tglist_add(l, &tok[4 * i]);
	i = 0;
	tglist_foreach(l, q) {
		c = tglist_get(l, q);
		//@ check visited: q == i && c == &tok[4 * i];
		i++;
	}
	//@ check all_visited: i == cnt;
	tglist_free(l);
	VF_END(cnt);
}
