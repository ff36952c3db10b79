/* C09, C13: tglist / tgilist, one operation from an arbitrary consistent list, for a pointer, a wide
   struct and a byte element type. */
#include "vf.h"
#include <string.h>
#include "tglist.h"
#include "tgilist.h"
#ifdef VF_THOROUGH
#define MAXN 8
#else
#define MAXN 5
#endif
static char tok[64];
#define NEWTOK (&tok[50])
static size_t n, room, pos, op;
typedef struct { char *a; int k; char *b; } wide;
static char *ref[16]; static size_t rn;
static void ref_init(void) { for(rn = 0; rn < n; rn++) ref[rn] = &tok[rn]; }
static void ref_ins(size_t p, char *x) { size_t i; for(i = rn; i > p; i--) ref[i] = ref[i-1]; ref[p] = x; rn++; }
static void ref_del(size_t p) { size_t i; for(i = p; i + 1 < rn; i++) ref[i] = ref[i+1]; rn--; }
/* op: 0 add, 1 insert at pos<=n, 2 delete pos<n, 3 set pos<n */
static void shape(void) {
	n = VF_ANYSZ(0, MAXN);
	//@ split n;
	room = VF_ANYSZ(0, 2);
	//@ split room;
	op = VF_ANYSZ(0, 3);
	//@ split op;
	pos = VF_ANYSZ(0, n);
	//@ split pos;
}
#define BADSHAPE ((op >= 2 && pos == n) || (op == 0 && pos))
#define EFFECT(r) do { \
	if(op == 2 || op == 3) { if(op == 2) ref_del(pos); else ref[pos] = NEWTOK; } \
	else if(r) ref_ins(op ? pos : n, NEWTOK); \
} while(0)
void C09_pointer(void) {
	tglist(char*) l; size_t i; int r = 0; char *x = NEWTOK;
	shape();
	if(BADSHAPE) return;
	tglist_init(&l);
	l.count = n; l.capa = n + room; l.items = n + room ? vf_malloc((n + room) * sizeof(char*)) : 0;
	for(i = 0; i < n; i++) l.items[i] = &tok[i];
	ref_init();
	VF_BEGIN(n, room, op, pos);
	vf_oom_on = 1;
	if(op == 0) r = tglist_add(&l, x);
	else if(op == 1) r = tglist_insert(&l, x, pos);
	else if(op == 2) tglist_delete(&l, pos);
	else tglist_set(&l, x, pos);
	if(op < 2) {
		int bad = vf_oom_hit;
		//@ check result_reports: (r == 0) == (bad != 0);
	}
	EFFECT(r);
	//@ check counted: l.count == rn && tglist_getsize(&l) == rn && l.count <= l.capa;
	for(i = 0; i < rn; i++) { char *q = tglist_get(&l, i);
		//@ check element: q == ref[i];
	}
	int one = l.items != 0;
	//@ check one_block: vf_live == one;
	if(op < 2 && !r) { /* the list goes on working after a failure */
		vf_oom_on = 0;
		r = op ? tglist_insert(&l, x, pos) : tglist_add(&l, x);
		//@ check retry_succeeds: r != 0;
		ref_ins(op ? pos : n, x);
		//@ check retry_counted: l.count == rn && l.count <= l.capa;
		for(i = 0; i < rn; i++) { char *q = tglist_get(&l, i);
			//@ check retry_element: q == ref[i];
		}
	}
	tglist_free_items(&l);
	//@ check all_freed: vf_live == 0;
	VF_END(n, room, op, pos);
}
void C09_wide(void) {
	tglist(wide) l; size_t i; int r = 0; wide x = { NEWTOK, 77, NEWTOK + 1 };
	shape();
	if(BADSHAPE || n > 4) return;
	tglist_init(&l);
	l.count = n; l.capa = n + room; l.items = n + room ? vf_malloc((n + room) * sizeof(wide)) : 0;
	for(i = 0; i < n; i++) { l.items[i].a = &tok[i]; l.items[i].k = i; l.items[i].b = &tok[i] + 1; }
	ref_init();
	VF_BEGIN(n, room, op, pos);
	vf_oom_on = 1;
	if(op == 0) r = tglist_add(&l, x);
	else if(op == 1) r = tglist_insert(&l, x, pos);
	else if(op == 2) tglist_delete(&l, pos);
	else tglist_set(&l, x, pos);
	if(op < 2) {
		int bad = vf_oom_hit;
		//@ check result_reports: (r == 0) == (bad != 0);
	}
	EFFECT(r);
	//@ check counted: l.count == rn && l.count <= l.capa;
	for(i = 0; i < rn; i++) { wide *q = &tglist_get(&l, i); int k = ref[i] == NEWTOK ? 77 : ref[i] - tok;
		//@ check element: q->a == ref[i] && q->b == ref[i] + 1 && q->k == k;
	}
	VF_END(n, room, op, pos);
}
void C09_byte(void) {
	tglist(char) l; size_t i; int r = 0;
	shape();
	if(BADSHAPE || n > 4) return;
	tglist_init(&l);
	l.count = n; l.capa = n + room; l.items = n + room ? vf_malloc(n + room) : 0;
	for(i = 0; i < n; i++) l.items[i] = i;
	ref_init();
	VF_BEGIN(n, room, op, pos);
	if(op == 0) r = tglist_add(&l, 50);
	else if(op == 1) r = tglist_insert(&l, 50, pos);
	else if(op == 2) tglist_delete(&l, pos);
	else tglist_set(&l, 50, pos);
	EFFECT(r);
	//@ check counted: l.count == rn && l.count <= l.capa;
	for(i = 0; i < rn; i++) { char q = tglist_get(&l, i);
		//@ check element: q == ref[i] - tok;
	}
	VF_END(n, room, op, pos);
}
/* lists from tglist_new, many growths */
void C09_history(void) {
	size_t m = VF_ANYSZ(0, 2*MAXN), i, front = VF_NONDET(); tglist(char*) *l;
	//@ split m;
	//@ split front;
	VF_BEGIN(m, front);
	l = tglist_new();
	//@ check empty: tglist_empty(l);
	for(i = 0; i < m; i++) {
		int r = front ? tglist_insert(l, &tok[i], 0) : tglist_add(l, &tok[i]);
		//@ check added: r != 0;
	}
	//@ check counted: l->count == m;
	tglist_foreach(l, i) {
		char *q = tglist_get(l, i), *want = front ? &tok[m-1-i] : &tok[i];
		//@ check kept: q == want;
	}
	tglist_free(l);
	//@ check all_freed: vf_live == 0;
	VF_END(m, front);
}
void C09_free_values(void) {
	size_t m = VF_ANYSZ(0, 5), i; tglist(char*) l; tgilist(char*, unsigned) g;
	//@ split m;
	VF_BEGIN(m);
	tglist_init(&l); tgilist_init(&g);
	for(i = 0; i < m; i++) { char *p = vf_malloc(3), *q = vf_malloc(3); tglist_add(&l, p); tgilist_add(&g, q); }
	tglist_free_values(&l);
	tglist_free_items(&l);
	tgilist_free_values(&g);
	tgilist_free_items(&g);
	//@ check all_freed: vf_live == 0;
	tgilist(char*, unsigned) *h = tgilist_new();
	char *q = vf_malloc(3);
	tgilist_add(h, q);
	tgilist_free_values(h);
	tgilist_free(h);
	//@ check all_freed: vf_live == 0;
	VF_END(m);
}
/* index list: the index permutes the values */
void C09_tgilist(void) {
	tgilist(wide, unsigned) l; size_t i; int r = 0; wide x = { NEWTOK, 77, NEWTOK + 1 };
	shape();
	if(BADSHAPE || n > 4) return;
	size_t dead = VF_NONDET(), rot = VF_NONDET(), cap = n + dead + room;
	//@ split dead;
	//@ split rot;
	tgilist_init(&l);
	l.index.count = n; l.index.capa = n + room; l.index.items = n + room ? vf_malloc((n + room) * sizeof(unsigned)) : 0;
	l.items.count = n + dead; l.items.capa = cap; l.items.items = cap ? vf_malloc(cap * sizeof(wide)) : 0;
	for(i = 0; i < n; i++) {
		unsigned k = rot ? (unsigned)(n - 1 - i) : (unsigned)i;
		l.index.items[i] = k;
		l.items.items[k].a = &tok[i]; l.items.items[k].b = &tok[i] + 1; l.items.items[k].k = i;
	}
	ref_init();
	VF_BEGIN(n, room, op, pos, dead, rot);
	vf_oom_on = 1;
	if(op == 0) r = tgilist_add(&l, x);
	else if(op == 1) r = tgilist_insert(&l, x, pos);
	else if(op == 2) tgilist_delete(&l, pos);
	else tgilist_set(&l, x, pos);
	if(op < 2) {
		int bad = vf_oom_hit;
		//@ check result_reports: (r == 0) == (bad != 0);
	}
	EFFECT(r);
	if(op < 2 && !r) { /* the list goes on working after a failure */
		vf_oom_on = 0;
		r = op ? tgilist_insert(&l, x, pos) : tgilist_add(&l, x);
		//@ check retry_succeeds: r != 0;
		ref_ins(op ? pos : n, NEWTOK);
	}
	//@ check counted: tgilist_getsize(&l) == rn && l.index.count <= l.index.capa && l.items.count <= l.items.capa;
	for(i = 0; i < rn; i++) { wide *q = &tgilist_get(&l, i); int k = ref[i] == NEWTOK ? 77 : ref[i] - tok;
		//@ check element: q->a == ref[i] && q->b == ref[i] + 1 && q->k == k;
	}
	tgilist_free_items(&l);
	//@ check all_freed: vf_live == 0;
	VF_END(n, room, op, pos, dead, rot);
}
void C13_tglist_new(void) {
	VF_BEGIN(0);
	vf_oom_on = 1;
	tglist(char*) *l = tglist_new();
	if(l) {
		int r = tglist_add(l, NEWTOK);
		//@ check reported: (r == 0) == (vf_oom_hit != 0);
		vf_oom_on = 0;
		if(!r) {
			r = tglist_add(l, NEWTOK);
			//@ check retry_succeeds: r != 0;
		}
		char *q = tglist_get(l, 0);
		//@ check stored: q == NEWTOK && l->count == 1;
		tglist_free(l);
	} else {
		//@ check reported: vf_oom_hit;
	}
	//@ check no_leak: vf_live == 0;
	VF_END(0);
}
