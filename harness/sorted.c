/* C07: sorted insertion and binary search.  A list sorted under the comparator relates to the new
   item as: lt smaller ones, eq equal ones, the rest greater.  Items are only ever touched through the
   comparator, whose results are arbitrary ints of the right sign. */
#include "vf.h"
#include <string.h>
#include <limits.h>
#include "sblist.h"
#include "tglist.h"
#ifdef VF_THOROUGH
#define MAXN 9
#else
#define MAXN 5
#endif
static char tok[64];
static char *base; static size_t stride;  /* storage of the list */
static size_t n, lt, eq, calls; static char *newitem; static void *passed; static char ctxobj;
static int relation(const void *a, const void *b) {
	size_t i, k = (size_t)-1;
	calls++;
	//@ check searched_item_first: a == passed;
	for(i = 0; i < n; i++) if((char*)b == base + i*stride) k = i;
	//@ check list_element_second: k < n;
	if(k < lt) return VF_ANY(1, INT_MAX);
	if(k < lt + eq) return 0;
	return VF_ANY(-INT_MAX - 1, -1);
}
static int cmp(const void *a, const void *b) { return relation(a, b); }
static int cmp_r(const void *a, const void *b, void *ctx) {
	//@ check context_unchanged: ctx == &ctxobj;
	return relation(a, b);
}
static void shape(size_t lo, size_t hi) {
	n = VF_ANYSZ(lo, hi);
	//@ split n;
	lt = VF_ANYSZ(0, n);
	//@ split lt;
	eq = VF_ANYSZ(0, n - lt);
	//@ split eq;
	calls = 0;
}
static size_t budget(void) { /* floor(log2 n) + 3 */
	size_t k = 3, m = n;
	while(m > 1) { m /= 2; k++; }
	return k;
}
static void mk(sblist *l, size_t room) {
	size_t i;
	l->itemsize = sizeof(char*); l->blockitems = 2; l->count = n; l->capa = n + room;
	l->items = n + room ? vf_malloc((n + room) * sizeof(char*)) : 0;
	for(i = 0; i < n; i++) ((char**)l->items)[i] = &tok[i];
	base = l->items; stride = sizeof(char*);
}
static void inserted(sblist *l, size_t r) {
	size_t i;
	if(r == (size_t)-1) {
		//@ check only_oom_fails: vf_oom_hit;
		//@ check unchanged_count: l->count == n;
		for(i = 0; i < n; i++) {
			char **q = sblist_get(l, i);
			//@ check unchanged: q != \null && *q == &tok[i];
		}
		return;
	}
	//@ check position_keeps_order: lt <= r && r <= lt + eq;
	//@ check counted: l->count == n+1;
	for(i = 0; i <= n; i++) {
		char **q = sblist_get(l, i), *want = i < r ? &tok[i] : i == r ? newitem : &tok[i-1];
		//@ check sequence: q != \null && *q == want;
	}
}
void C07_insert_sorted(void) {
	sblist l; size_t r, room = VF_NONDET();
	shape(0, MAXN);
	//@ split room;
	VF_BEGIN(n, lt, eq, room);
	mk(&l, room); newitem = &tok[40]; passed = &newitem;
	vf_oom_on = 1;
	r = sblist_insert_sorted(&l, &newitem, cmp);
	inserted(&l, r);
	size_t b = budget();
	//@ check comparisons: calls <= b;
	VF_END(n, lt, eq, room);
}
void C07_insert_sorted_r(void) {
	sblist l; size_t r, room = VF_NONDET();
	shape(0, MAXN);
	//@ split room;
	VF_BEGIN(n, lt, eq, room);
	mk(&l, room); newitem = &tok[40]; passed = &newitem;
	vf_oom_on = 1;
	r = sblist_insert_sorted_r(&l, &newitem, cmp_r, &ctxobj);
	inserted(&l, r);
	size_t b = budget();
	//@ check comparisons: calls <= b;
	VF_END(n, lt, eq, room);
}
static void found(size_t r) {
	if(eq) { //@ check finds_equal: lt <= r && r < lt + eq;
	} else { //@ check nothing_found: r == (size_t)-1;
	}
	size_t b = budget();
	//@ check comparisons: calls <= b;
}
void C07_bsearch(void) {
	sblist l;
	shape(0, MAXN + 2);
	VF_BEGIN(n, lt, eq);
	mk(&l, 0); newitem = &tok[40]; passed = &newitem;
	found(sblist_bsearch(&l, &newitem, cmp));
	VF_END(n, lt, eq);
}
void C07_bsearch_r(void) {
	sblist l;
	shape(0, MAXN + 2);
	VF_BEGIN(n, lt, eq);
	mk(&l, 0); newitem = &tok[40]; passed = &newitem;
	found(sblist_bsearch_r(&l, &newitem, cmp_r, &ctxobj));
	VF_END(n, lt, eq);
}
/* long lists: the number of comparisons is logarithmic */
void C07_long_lists(void) {
	sblist l; size_t r, op = VF_ANY(0, 3);
	//@ split op;
	shape(17, 17);
	if(eq > 1) return;
	VF_BEGIN(n, lt, eq, op);
	mk(&l, 1); newitem = &tok[40]; passed = &newitem;
	if(op == 0) inserted(&l, sblist_insert_sorted(&l, &newitem, cmp));
	else if(op == 1) inserted(&l, sblist_insert_sorted_r(&l, &newitem, cmp_r, &ctxobj));
	else if(op == 2) found(sblist_bsearch(&l, &newitem, cmp));
	else found(sblist_bsearch_r(&l, &newitem, cmp_r, &ctxobj));
	size_t b = budget();
	//@ check comparisons: calls <= b;
	VF_END(n, lt, eq, op);
}
/* wide items: three words, moved as a whole */
typedef struct { char *a, *b, *c; } wide;
void C07_tglist_insert_sorted(void) {
	tglist(char*) l; size_t i, r, room = VF_NONDET();
	shape(0, MAXN);
	//@ split room;
	VF_BEGIN(n, lt, eq, room);
	tglist_init(&l);
	l.count = n; l.capa = n + room; l.items = n + room ? vf_malloc((n + room) * sizeof(char*)) : 0;
	for(i = 0; i < n; i++) l.items[i] = &tok[i];
	base = (char*)l.items; stride = sizeof(char*);
	newitem = &tok[40]; passed = &newitem;
	vf_oom_on = 1;
	r = tglist_insert_sorted(&l, newitem, cmp);
	if(r == (size_t)-1) {
		//@ check only_oom_fails: vf_oom_hit;
		//@ check unchanged_count: l.count == n;
		for(i = 0; i < n; i++) { char *q = tglist_get(&l, i);
			//@ check unchanged: q == &tok[i];
		}
	} else {
		//@ check position_keeps_order: lt <= r && r <= lt + eq;
		//@ check counted: l.count == n+1;
		for(i = 0; i <= n; i++) {
			char *q = tglist_get(&l, i), *want = i < r ? &tok[i] : i == r ? newitem : &tok[i-1];
			//@ check sequence: q == want;
		}
	}
	size_t b = budget();
	//@ check comparisons: calls <= b;
	VF_END(n, lt, eq, room);
}
void C07_tglist_wide(void) {
	tglist(wide) l; size_t i, r; wide x = { &tok[40], &tok[41], &tok[42] };
	shape(0, 4);
	VF_BEGIN(n, lt, eq);
	tglist_init(&l);
	l.count = l.capa = n; l.items = n ? vf_malloc(n * sizeof(wide)) : 0;
	for(i = 0; i < n; i++) { l.items[i].a = &tok[3*i]; l.items[i].b = &tok[3*i+1]; l.items[i].c = &tok[3*i+2]; }
	base = (char*)l.items; stride = sizeof(wide); passed = &x;
	r = tglist_insert_sorted(&l, x, cmp);
	//@ check position_keeps_order: lt <= r && r <= lt + eq;
	for(i = 0; i <= n; i++) {
		wide *q = &tglist_get(&l, i); char *want = i < r ? &tok[3*i] : i == r ? &tok[40] : &tok[3*(i-1)];
		//@ check sequence: q->a == want && q->b == want + 1 && q->c == want + 2;
	}
	VF_END(n, lt, eq);
}
/* sorting: the result is a sorted permutation */
static int ranks[8];
static int rcmp(const void *a, const void *b) {
	int x = ranks[*(char**)a - tok], y = ranks[*(char**)b - tok];
	return x < y ? -1 : x > y;
}
static void sort_shape(void) {
	size_t i;
	n = VF_ANYSZ(0, 3);
	//@ split n;
	for(i = 0; i < n; i++) { int v = VF_ANY(0, 2);
		//@ split v;
		ranks[i] = v;
	}
}
static void sorted(char **p) {
	size_t i, j;
	for(i = 0; i + 1 < n; i++) { int a = ranks[p[i] - tok], b = ranks[p[i+1] - tok];
		//@ check in_order: a <= b;
	}
	for(j = 0; j < n; j++) {
		int seen = 0;
		for(i = 0; i < n; i++) if(p[i] == &tok[j]) seen++;
		//@ check permutation: seen == 1;
	}
}
void C07_sort(void) {
	sblist l; size_t i;
	sort_shape();
	VF_BEGIN(n, ranks[0], ranks[1], ranks[2]);
	mk(&l, 1);
	sblist_sort(&l, rcmp);
	//@ check counted: l.count == n;
	sorted((char**)l.items);
	VF_END(n, ranks[0], ranks[1], ranks[2]);
}
void C07_tglist_sort(void) {
	tglist(char*) l; size_t i;
	sort_shape();
	VF_BEGIN(n, ranks[0], ranks[1], ranks[2]);
	tglist_init(&l);
	l.count = n; l.capa = n + 1; l.items = vf_malloc((n + 1) * sizeof(char*));
	for(i = 0; i < n; i++) l.items[i] = &tok[i];
	tglist_sort(&l, rcmp);
	//@ check counted: l.count == n;
	sorted(l.items);
	VF_END(n, ranks[0], ranks[1], ranks[2]);
}
