#include "vf.h"
#include <string.h>
#include "bmap.h"
#ifdef VF_THOROUGH
#define MAXN 8
#else
#define MAXN 5
#endif
static char tok[64];
#define NEWTOK (&tok[50])
static int cmpint(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
typedef bmap(int, char*) M;
static M m; static size_t n;
static void build(size_t max) {  /* keys 10, 20, ..., inserted ascending or descending */
	size_t i, down = VF_NONDET();
	n = VF_ANYSZ(0, max);
	//@ split n;
	//@ split down;
	bmap_init(&m, cmpint);
	for(i = 0; i < n; i++) {
		size_t j = down ? n - 1 - i : i; int k = 10*(j+1); char *v = &tok[j];
		ssize_t r = bmap_insert(&m, k, v);
		size_t want = down ? 0 : i;
		//@ check build_index: r == want;
	}
}
/* the map is exactly keys 10,20..10n (without index del, if any) with their values, plus (xk,xv) if has */
static void expect(size_t del, int has, int xk, char *xv) {
	size_t i, w = 0, e; int xdone = 0;
	for(i = 0; i <= n; i++) {
		int k = 10*(i+1);
		if(has && !xdone && (i == n || xk < k || xk == k)) {
			int gk = bmap_getkey(&m, w); char *gv = bmap_getval(&m, w);
			//@ check new_pair: gk == xk && gv == xv;
			w++; xdone = 1;
			if(i < n && xk == k) continue;
		}
		if(i < n && i != del) {
			int gk = bmap_getkey(&m, w); char *gv = bmap_getval(&m, w);
			//@ check old_pair: gk == k && gv == &tok[i];
			w++;
		}
	}
	e = bmap_getsize(&m);
	//@ check size: e == w;
}
static void do_find(void) {
	build(MAXN);
	int k = VF_ANY(0, 20);
	//@ split k;
	k = k*5;
	if(k > (int)n*10 + 5) return;
	VF_BEGIN(n, k);
	ssize_t r = bmap_find(&m, k); char **p = bmap_get(&m, k);
	int c = bmap_contains(&m, k);
	if(k % 10 == 0 && k >= 10 && k <= (int)n*10) {
		size_t i = k/10 - 1;
		//@ check found: r == i && c;
		//@ check value: p != \null && *p == &tok[i];
	} else {
		//@ check absent: r == -1 && p == \null && !c;
	}
	expect(-1, 0, 0, 0);
	VF_END(n, k);
}
static void do_insert(int nocheck) {
	build(MAXN);
	int k = VF_ANY(0, 20); char *v = NEWTOK;
	//@ split k;
	k = k*5;
	if(k > (int)n*10 + 5) return;
	int exists = k % 10 == 0 && k >= 10 && k <= (int)n*10;
	if(nocheck && exists) return;
	VF_BEGIN(n, k);
	vf_oom_on = 1;
	ssize_t r = nocheck ? bmap_insert_nocheck(&m, k, v) : bmap_insert(&m, k, v);
	vf_oom_on = 0;
	if(r == -1) {
		//@ check only_oom_fails: vf_oom_hit && !exists;
		expect(-1, 0, 0, 0);
	} else {
		size_t i = exists ? k/10 - 1 : (k + 5)/10 - 1 + (k % 10 == 0);
		int gk = bmap_getkey(&m, r); char *gv = bmap_getval(&m, r);
		//@ check index_returned: gk == k && gv == NEWTOK;
		expect(-1, 1, k, NEWTOK);
		char **p = bmap_get(&m, k);
		//@ check found_again: p != \null && *p == NEWTOK;
	}
	VF_END(n, k);
}
static void do_delete(void) {
	build(MAXN);
	if(!n) return;
	size_t p = VF_ANYSZ(0, n - 1);
	//@ split p;
	VF_BEGIN(n, p);
	bmap_delete(&m, p);
	expect(p, 0, 0, 0);
	int k = 10*(p+1); ssize_t r = bmap_find(&m, k);
	//@ check gone: r == -1;
	char *v = NEWTOK;
	r = bmap_insert(&m, k, v);
	//@ check reinserted: r == p;
	expect(-1, 1, k, NEWTOK);
	bmap_fini(&m, 0);
	//@ check all_freed: vf_live == 0;
	VF_END(n, p);
}
static void do_setvalue(void) {
	build(MAXN);
	if(!n) return;
	size_t p = VF_ANYSZ(0, n - 1);
	//@ split p;
	VF_BEGIN(n, p);
	int r = bmap_setvalue(&m, NEWTOK, p);
	//@ check set: r == 1;
	expect(-1, 1, 10*(p+1), NEWTOK);
	VF_END(n, p);
}
static int cmpptr(const void *a, const void *b) { const char *x = *(char*const*)a, *y = *(char*const*)b; return *x < *y ? -1 : *x > *y; }
static void do_fini(void) {
	bmap(char*, char*) q; size_t i, c = VF_ANYSZ(0, 5), f = VF_ANYSZ(0, 3), k;
	//@ split c;
	//@ split f;
	VF_BEGIN(c, f);
	bmap_init(&q, cmpptr);
	for(i = 0; i < c; i++) {
		char *a = vf_malloc(1), *b = vf_malloc(1); *a = i; *b = i;
		ssize_t r = bmap_insert(&q, a, b);
		//@ check inserted: r == i;
	}
	bmap_fini(&q, f);
	size_t left = c * (!(f & 1) + !(f & 2));
	//@ check freed_as_asked: vf_live == left;
	VF_END(c, f);
}
static void do_new(void) {
	VF_BEGIN(0);
	vf_oom_on = 1;
	M *p = bmap_new(cmpint);
	if(p) {
		//@ check empty: bmap_getsize(p) == 0 && p->compare == cmpint;
		vf_free(p);
	} else {
		//@ check reported: vf_oom_hit;
	}
	//@ check no_leak: vf_live == 0;
	VF_END(0);
}
