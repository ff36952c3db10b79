/* C08, C13: tlist.  Insert-only histories with arbitrary positions reach every tree shape (the
   priorities' order relative to the positions is then arbitrary); one further operation follows. */
#include "vf.h"
#include <string.h>
#include "tlist.h"
#ifdef VF_THOROUGH
#define MAXN 6
#else
#define MAXN 4
#endif
static char tok[64];
#define NEWTOK (&tok[40])
static struct tlist *t;
static char *ref[16]; static size_t n;      /* the sequence the list must be */
static void ref_ins(size_t p, char *x) { size_t i; for(i = n; i > p; i--) ref[i] = ref[i-1]; ref[p] = x; n++; }
static void ref_del(size_t p) { size_t i; for(i = p; i + 1 < n; i++) ref[i] = ref[i+1]; n--; }
static void same(void) {
	size_t i, s = tlist_getsize(t);
	//@ check size_counts: s == n;
	for(i = 0; i < n; i++) {
		char **q = tlist_get(t, i);
		//@ check element: q != \null && *q == ref[i];
	}
	void *e = tlist_get(t, n);
	//@ check behind_end: e == \null;
	//@ check one_node_per_element: vf_live == n + 1;
}
static size_t P[6];
static void build(size_t max) {
	size_t m = VF_ANYSZ(0, max), i;
	//@ split m;
	t = tlist_new(sizeof(char*));
	//@ check created: t != \null;
	for(i = 0; i < m; i++) {
		size_t p = VF_ANYSZ(0, i); char *x = &tok[i]; int r;
		//@ split p;
		P[i] = p;
		r = tlist_insert(t, p, &x);
		//@ check inserted: r != 0;
		ref_ins(p, &tok[i]);
	}
}
#define CASE n0, P[0], P[1], P[2], P[3], P[4], P[5]
void C08_build(void) {
	build(MAXN + 1);
	size_t n0 = n;
	VF_BEGIN(CASE);
	same();
	tlist_free(t);
	//@ check all_freed: vf_live == 0;
	VF_END(CASE);
}
void C08_insert(void) {
	build(MAXN);
	size_t n0 = n, p = VF_ANYSZ(0, n); char *x = NEWTOK; int r;
	//@ split p;
	VF_BEGIN(CASE, p);
	vf_oom_on = 1;
	r = tlist_insert(t, p, &x);
	if(r) ref_ins(p, NEWTOK);
	else {
		//@ check only_oom_fails: vf_oom_hit;
	}
	same();
	VF_END(CASE, p);
}
void C08_append(void) {
	build(MAXN);
	size_t n0 = n; char *x = NEWTOK; int r;
	VF_BEGIN(CASE);
	vf_oom_on = 1;
	r = tlist_append(t, &x);
	if(r) ref_ins(n, NEWTOK);
	else {
		//@ check only_oom_fails: vf_oom_hit;
	}
	same();
	VF_END(CASE);
}
void C08_delete(void) {
	build(MAXN + 1);
	if(!n) return;
	size_t n0 = n, p = VF_ANYSZ(0, n - 1); int r;
	//@ split p;
	VF_BEGIN(CASE, p);
	r = tlist_delete(t, p);
	//@ check deleted: r != 0;
	ref_del(p);
	same();
	VF_END(CASE, p);
}
/* two deletions, then an insertion */
void C08_history(void) {
	build(MAXN - 1);
	if(n < 2) return;
	size_t n0 = n, p = VF_ANYSZ(0, n - 1), q = VF_ANYSZ(0, n - 2), k = VF_ANYSZ(0, n - 2); int r; char *x = NEWTOK;
	//@ split p;
	//@ split q;
	//@ split k;
	VF_BEGIN(CASE, p, q, k);
	r = tlist_delete(t, p);
	//@ check deleted: r != 0;
	ref_del(p);
	r = tlist_delete(t, q);
	//@ check deleted: r != 0;
	ref_del(q);
	r = tlist_insert(t, k, &x);
	//@ check inserted: r != 0;
	ref_ins(k, NEWTOK);
	same();
	tlist_free_items(t);
	//@ check only_handle_left: vf_live == 1;
	size_t s = tlist_getsize(t);
	//@ check emptied: s == 0;
	r = tlist_append(t, &x);
	//@ check usable_again: r != 0;
	tlist_free(t);
	//@ check all_freed: vf_live == 0;
	VF_END(CASE, p, q, k);
}
void C08_out_of_range(void) {
	build(3);
	size_t n0 = n, p = VF_ANYSZ(0, (size_t)-1), op = VF_ANYSZ(0, 3); int r; char *x = NEWTOK;
	//@ split op;
	if(p < n || (op == 0 && p == n)) return;
	VF_BEGIN(CASE, op);
	if(op == 0) { r = tlist_insert(t, p, &x);
		//@ check insert_refused: r == 0;
	} else if(op == 1) { r = tlist_delete(t, p);
		//@ check delete_refused: r == 0;
	} else if(op == 2) { r = tlist_delete_deep(t, p);
		//@ check deep_delete_refused: r == 0;
	} else { void *g = tlist_get(t, p);
		//@ check get_refused: g == \null;
	}
	same();
	VF_END(CASE, op);
}
void C08_deep(void) {
	size_t m = VF_ANYSZ(0, 3), op = VF_ANYSZ(0, 2), i; int r;
	//@ split m;
	//@ split op;
	t = tlist_new(sizeof(char*));
	for(i = 0; i < m; i++) { char *x = vf_malloc(3); size_t p = VF_ANYSZ(0, i);
		//@ split p;
		P[i] = p; tlist_insert(t, p, &x);
	}
	size_t p = VF_ANYSZ(0, m);
	//@ split p;
	VF_BEGIN(m, op, p, P[0], P[1], P[2]);
	if(op == 0 && p < m) {
		char *v = *(char**)tlist_get(t, p);
		r = tlist_delete_deep(t, p);
		//@ check deleted: r != 0;
		//@ check value_and_node_freed: vf_live == 1 + 2*(m-1);
		size_t s = tlist_getsize(t);
		//@ check counted: s == m-1;
	} else if(op == 1) {
		tlist_free_items_deep(t);
		//@ check only_handle_left: vf_live == 1;
	} else if(op == 2) {
		tlist_free_deep(t); t = 0;
		//@ check all_freed: vf_live == 0;
	}
	if(t) {
		tlist_free_deep(t);
		//@ check all_freed: vf_live == 0;
	}
	VF_END(m, op, p, P[0], P[1], P[2]);
}
/* values of other sizes are copied completely and nothing more is read */
typedef struct { char *a; int b; char *c; } wide;
void C08_wide(void) {
	size_t m = VF_ANYSZ(0, 3), i;
	//@ split m;
	t = tlist_new(sizeof(wide));
	VF_BEGIN(m);
	for(i = 0; i < m; i++) {
		wide v = { &tok[i], i, &tok[i+20] };
		int r = tlist_append(t, &v);
		//@ check inserted: r != 0;
	}
	for(i = 0; i < m; i++) {
		wide *q = tlist_get(t, i);
		//@ check whole_value: q->a == &tok[i] && q->b == i && q->c == &tok[i+20];
	}
	tlist_free(t);
	struct tlist *u = tlist_new(1);
	for(i = 0; i < m; i++) { char c = 'a' + i; tlist_insert(u, 0, &c); }
	for(i = 0; i < m; i++) { char *q = tlist_get(u, i);
		//@ check byte_value: *q == 'a' + m - 1 - i;
	}
	tlist_free(u);
	//@ check all_freed: vf_live == 0;
	VF_END(m);
}
void C13_tlist(void) {
	size_t i, good = 0;
	VF_BEGIN(0);
	vf_oom_on = 1;
	t = tlist_new(sizeof(char*));
	if(!t) {
		//@ check new_reported: vf_oom_hit && vf_live == 0;
	} else {
		for(i = 0; i < 4; i++) {
			char *x = &tok[i];
			vf_oom_hit = 0;
			if(tlist_append(t, &x)) { ref_ins(n, &tok[i]); }
			else {
				//@ check reported: vf_oom_hit;
			}
		}
		same();
		tlist_free(t);
		//@ check no_leak: vf_live == 0;
	}
	VF_END(0);
}
