/* C06, C07, C13: sblist.  One operation from an arbitrary consistent list (inductive step); the
   items are distinct addresses, so the verdict does not depend on what is stored. */
#include "vf.h"
#include <string.h>
#include "sblist.h"
#ifdef VF_THOROUGH
#define MAXN 7
#else
#define MAXN 4
#endif
static char tok[64];
#define NEWTOK (&tok[40])
static sblist L;
static size_t n, capa, bi, w;       /* items, capacity, block size, words per item */
static void item(char **d, char *base, size_t k) {
	size_t j;
	for(j = 0; j < k; j++) d[j] = base + 20*0 + j;
}
/* any consistent list: n <= capa items of w pointers */
static void any_list(void) {
	n = VF_ANYSZ(0, MAXN);
	//@ split n;
	capa = n + VF_ANYSZ(0, 2);
	//@ split capa;
	bi = VF_ANYSZ(0, 3);
	//@ split bi;
	w = VF_NONDET() ? 3 : 1;
	//@ split w;
	size_t i;
	L.itemsize = w * sizeof(char*); L.blockitems = bi; L.count = n; L.capa = capa;
	L.items = capa ? vf_malloc(capa * L.itemsize) : 0;
	for(i = 0; i < n; i++) item((char**)(L.items + i*L.itemsize), &tok[4*i], w);
}
static void is(size_t idx, char *base) {       /* element idx is the one made from base */
	char **q = sblist_get(&L, idx);
	size_t j;
	//@ check element_present: q != \null;
	//@ check element_in_place: (char*)q == L.items + idx*L.itemsize;
	for(j = 0; j < w; j++) {
		char *have = q[j], *want = base + j;
		//@ check element_content: have == want;
	}
}
static void unchanged(void) {
	size_t i;
	//@ check count_unchanged: L.count == n;
	for(i = 0; i < n; i++) is(i, &tok[4*i]);
}
static void room(void) { //@ check capacity_covers_count: L.count <= L.capa;
}
void C06_add(void) {
	char *x[3]; int r; size_t i;
	any_list(); item(x, NEWTOK, w);
	VF_BEGIN(n, capa, bi, w);
	vf_oom_on = 1;
	r = sblist_add(&L, x);
	room();
	if(r) {
		//@ check counted: L.count == n+1;
		for(i = 0; i < n; i++) is(i, &tok[4*i]);
		is(n, NEWTOK);
	} else {
		//@ check only_oom_fails: vf_oom_hit;
		unchanged();
	}
	//@ check one_block: vf_live == (L.items != \null);
	VF_END(n, capa, bi, w);
}
void C06_addi(void) {
	char *x[3]; size_t r; size_t i;
	any_list(); item(x, NEWTOK, w);
	VF_BEGIN(n, capa, bi, w);
	vf_oom_on = 1;
	r = sblist_addi(&L, x);
	room();
	if(!vf_oom_hit) {
		//@ check index_returned: r == n;
		//@ check counted: L.count == n+1;
		for(i = 0; i < n; i++) is(i, &tok[4*i]);
		is(n, NEWTOK);
	} else {
		//@ check failure_value: r == (size_t)-1;
		unchanged();
	}
	VF_END(n, capa, bi, w);
}
void C06_insert(void) {
	char *x[3]; int r; size_t i, pos;
	any_list(); item(x, NEWTOK, w);
	pos = VF_ANYSZ(0, n);
	//@ split pos;
	VF_BEGIN(n, capa, bi, w, pos);
	vf_oom_on = 1;
	r = sblist_insert(&L, x, pos);
	room();
	if(r) {
		//@ check counted: L.count == n+1;
		for(i = 0; i < pos; i++) is(i, &tok[4*i]);
		is(pos, NEWTOK);
		for(i = pos; i < n; i++) is(i+1, &tok[4*i]);
	} else {
		//@ check only_oom_fails: vf_oom_hit;
		unchanged();
	}
	VF_END(n, capa, bi, w, pos);
}
/* every position behind the end is refused without effect */
void C06_out_of_range(void) {
	char *x[3]; size_t pos; void *g; int op, r;
	any_list(); item(x, NEWTOK, w);
	op = VF_ANY(0, 3);
	//@ split op;
	pos = VF_ANYSZ(0, (size_t)-1);
	if(pos < n) return;
	if(op == 0 && pos == n) return;
	VF_BEGIN(n, capa, bi, w, op);
	if(op == 0) {
		vf_oom_on = 1;
		r = sblist_insert(&L, x, pos);
		//@ check insert_refused: r == 0;
	} else if(op == 1) {
		r = sblist_set(&L, x, pos);
		//@ check set_refused: r == 0;
	} else if(op == 2) {
		sblist_delete(&L, pos);
	} else {
		g = sblist_get(&L, pos);
		//@ check get_refused: g == \null;
	}
	room(); unchanged();
	VF_END(n, capa, bi, w, op);
}
void C06_set_delete(void) {
	char *x[3]; size_t pos, i; int op, r;
	any_list(); item(x, NEWTOK, w);
	if(!n) return;
	op = VF_ANY(0, 2);
	//@ split op;
	pos = VF_ANYSZ(0, n-1);
	//@ split pos;
	VF_BEGIN(n, capa, bi, w, op, pos);
	if(op == 0) {
		r = sblist_set(&L, x, pos);
		//@ check set_ok: r == 1;
		//@ check set_keeps_count: L.count == n;
		for(i = 0; i < n; i++) is(i, i == pos ? NEWTOK : &tok[4*i]);
	} else if(op == 1) {
		sblist_delete(&L, pos);
		//@ check delete_counts: L.count == n-1;
		for(i = 0; i < n-1; i++) is(i, i < pos ? &tok[4*i] : &tok[4*i+4]);
		void *g = sblist_get(&L, n-1);
		//@ check behind_end: g == \null;
	} else {
		char **p = sblist_pop(&L); size_t j;
		//@ check pop_some: p != \null;
		//@ check pop_counts: L.count == n-1;
		for(j = 0; j < w; j++) {
			char *have = p[j], *want = &tok[4*(n-1)+j];
			//@ check pop_last: have == want;
		}
		for(i = 0; i < n-1; i++) is(i, &tok[4*i]);
	}
	room();
	VF_END(n, capa, bi, w, op, pos);
}
void C06_pop_empty(void) {
	any_list();
	if(n) return;
	VF_BEGIN(capa, bi, w);
	void *p = sblist_pop(&L);
	//@ check pop_nothing: p == \null;
	//@ check pop_keeps: L.count == 0;
	VF_END(capa, bi, w);
}
/* histories from construction: many growths, blockitems 0 and items bigger than a page */
void C06_history(void) {
	size_t k = VF_ANYSZ(0, 4), m, i, dyn = VF_NONDET(); sblist *l, s;
	//@ split k;
	m = VF_ANYSZ(0, 2*MAXN);
	//@ split m;
	//@ split dyn;
	VF_BEGIN(k, m, dyn);
	if(dyn) l = sblist_new(sizeof(char*), k); else { sblist_init(&s, sizeof(char*), k); l = &s; }
	for(i = 0; i < m; i++) {
		char *p = &tok[i]; int r = sblist_add(l, &p);
		//@ check added: r == 1;
	}
	//@ check counted: l->count == m;
	for(i = 0; i < m; i++) {
		char **q = sblist_get(l, i);
		//@ check kept: q != \null && *q == &tok[i];
	}
	if(dyn) sblist_free(l); else { sblist_free_items(l);
		//@ check emptied: s.count == 0 && s.capa == 0 && s.items == \null;
	}
	//@ check all_freed: vf_live == 0;
	VF_END(k, m, dyn);
}
/* item sizes around and above the page size, block size chosen by the library */
void C06_big_items(void) {
	size_t sz = VF_ANYSZ(0, 5), m = VF_ANYSZ(0, 3), i, tab[6] = {1, 2048, 4095, 4096, 4097, 9000}; sblist s;
	static char it[9000];
	//@ split sz;
	//@ split m;
	VF_BEGIN(sz, m);
	sblist_init(&s, tab[sz], 0);
	for(i = 0; i < m; i++) {
		it[0] = 1+i; it[tab[sz]-1] = 1+i;
		int r = sblist_add(&s, it);
		//@ check added: r == 1;
	}
	for(i = 0; i < m; i++) {
		char *q = sblist_get(&s, i);
		char a = q[0], b = q[tab[sz]-1];
		//@ check kept: a == 1+i && b == 1+i;
	}
	sblist_free_items(&s);
	//@ check all_freed: vf_live == 0;
	VF_END(sz, m);
}
void C06_free_values(void) {
	size_t m = VF_ANYSZ(0, 4), i; sblist *l;
	//@ split m;
	VF_BEGIN(m);
	l = sblist_new(sizeof(char*), 2);
	for(i = 0; i < m; i++) {
		char *p = vf_malloc(5); sblist_add(l, &p);
	}
	sblist_free_values(l);
	int lists = 1 + (m > 0);
	//@ check values_freed_once: vf_live == lists;
	sblist_free(l);
	//@ check all_freed: vf_live == 0;
	VF_END(m);
}
void C06_from_data(void) {
	size_t m = VF_ANYSZ(0, 3), extra = VF_ANYSZ(0, 7), i; sblist *l; char **d;
	//@ split m;
	//@ split extra;
	VF_BEGIN(m, extra);
	d = vf_malloc(m*8 + extra + 1);
	for(i = 0; i < m; i++) d[i] = &tok[i];
	l = sblist_new_from_data(8, d, m*8+extra);
	//@ check counted: l->count == m;
	for(i = 0; i < m; i++) {
		char **q = sblist_get(l, i);
		//@ check kept: q != \null && *q == &tok[i];
	}
	char *x = NEWTOK; int r = sblist_add(l, &x);
	//@ check grows: r == 1 && l->count == m+1;
	for(i = 0; i <= m; i++) {
		char **q = sblist_get(l, i), *want = i < m ? &tok[i] : NEWTOK;
		//@ check kept: q != \null && *q == want;
	}
	sblist_free(l);
	//@ check all_freed: vf_live == 0;
	VF_END(m, extra);
}
void C06_iterate(void) {
	size_t i = 0, it; char **p; long its;
	any_list();
	if(w != 1) return;
	VF_BEGIN(n, capa, bi);
	sblist_iter_counter(&L, k, p) {
		//@ check iter_in_range: k < n && p != \null && *p == &tok[4*k];
		i++;
	}
	//@ check iter_all: i == n;
	i = 0;
	sblist_iter_counter2(&L, it, p) { i++; }
	//@ check iter2_all: i == n;
	i = 0;
	sblist_iter_counter2s(&L, its, p) { i++; }
	//@ check iter2s_all: i == n;
	i = 0;
	sblist_iter(&L, p) { i++; }
	//@ check iter_magic_all: i == n;
	VF_END(n, capa, bi);
}
/* ------------------------------------------------------------- C13 */
void C13_sblist_new(void) {
	VF_BEGIN(0);
	vf_oom_on = 1;
	sblist *l = sblist_new(8, 4);
	if(l) {
		//@ check fresh: l->count == 0 && l->items == \null && vf_live == 1;
		sblist_free(l);
	} else {
		//@ check reported: vf_oom_hit;
	}
	sblist_free(0); sblist_free_items(0);
	//@ check no_leak: vf_live == 0;
	VF_END(0);
}
void C13_sblist_from_data(void) {
	static char d[32];
	VF_BEGIN(0);
	vf_oom_on = 1;
	sblist *l = sblist_new_from_data(8, d, 32);
	//@ check reported: (l == \null) == vf_oom_hit;
	//@ check no_leak: vf_live == (l != \null);
	VF_END(0);
}
/* a growth fails at any point of a history: what was there is still there, and is freed once */
void C13_sblist_history(void) {
	size_t k = VF_ANYSZ(1, 3), i, good = 0; sblist *l;
	//@ split k;
	VF_BEGIN(k);
	l = sblist_new(sizeof(char*), k);
	vf_oom_on = 1;
	for(i = 0; i < 5; i++) {
		char *p = &tok[i]; vf_oom_hit = 0;
		if(sblist_insert(l, &p, good)) good++;
		else {
			//@ check reported: vf_oom_hit;
			vf_oom_on = 0; /* the list goes on working after a failure */
			p = &tok[good];
			int again = sblist_insert(l, &p, good);
			//@ check retry_succeeds: again != 0;
			good++;
			break;
		}
	}
	//@ check counted: l->count == good && l->count <= l->capa;
	for(i = 0; i < good; i++) {
		char **q = sblist_get(l, i);
		//@ check kept: q != \null && *q == &tok[i];
	}
	sblist_free(l);
	//@ check no_leak: vf_live == 0;
	VF_END(k);
}
