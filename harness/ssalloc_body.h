/* C26: pools reached through the API only: every subset of elements in use */
#include "vf.h"
#include <string.h>
#include "ssalloc.c"
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
#define N SSA_MAXELEM
static struct { unsigned char pre[2 * SSA_ELEMSIZE + 8]; ssa_pool p; } box;
static unsigned char used[N], owned[N]; static size_t nused;
static void *elem[N];
static long slot(void *q) { long d = (unsigned char*)q - (unsigned char*)box.p.mem; return d; }
static void put(void) {                 /* one successful allocation */
	void *q = ssa_alloc(&box.p, SSA_ELEMSIZE); long d;
	//@ check not_null: q != \null;
	d = slot(q);
	//@ check element_start: d >= 0 && d % SSA_ELEMSIZE == 0 && d / SSA_ELEMSIZE < SSA_MAXELEM;
	d /= SSA_ELEMSIZE;
	//@ check not_in_use: used[d] == 0;
	used[d] = 1; nused++; elem[d] = q;
}
static void drain(void) {               /* exactly the free elements can still be had */
	void *q;
	while(nused < N) put();
	q = ssa_alloc(&box.p, 1);
	//@ check exhausted: q == \null;
	//@ check none_available: box.p.avail == 0;
}
static void drop(size_t i) { ssa_free(&box.p, box.p.mem + i * SSA_ELEMSIZE); used[i] = 0; nused--; }
static void state(size_t mask, int order) {
	size_t i;
	ssa_init(&box.p);
	while(nused < N) put();
	for(i = 0; i < N; i++) { size_t j = order ? N - 1 - i : i; if(!((mask >> (j % 8)) & 1)) drop(j); }
}
static const unsigned char masks[] = { 0xff, 0x7f, 0xfe, 0x00, 0xaa, 0x01, 0x80, 0x18, 0xe7, 0x55, 0xf0, 0x0f };
#ifdef VF_THOROUGH
#define NMASK 12
#else
#define NMASK (N > 16 ? 3 : N > 8 ? 5 : 10)
#endif
static size_t any_mask(void) { return N >= 8 ? masks[any_size(0, NMASK - 1)] : any_size(0, (1 << (N & 7)) - 1); }
static void do_init(void) {
	size_t n = any_size(0, N <= 8 ? N : 3), i;
	VF_BEGIN(n);
	memset(&box, 0x5a, sizeof box);
	ssa_init(&box.p);
	for(i = 0; i < n; i++) put();
	//@ check counted: box.p.avail == SSA_MAXELEM - n;
	drain();
	drop(N - 1); if(N > 2) drop(N / 2);
	//@ check counted_after_free: box.p.avail == (N > 2 ? 2 : 1);
	drain();
	VF_END(n);
}
static void do_alloc(void) {
	size_t m = any_mask(), o = any_size(0, 1), sz = any_size(0, 2); void *q; size_t want;
	VF_BEGIN(m, o, sz);
	state(m, o);
	want = sz == 0 ? 0 : sz == 1 ? SSA_ELEMSIZE : SSA_ELEMSIZE + 1;
	q = ssa_alloc(&box.p, want);
	if(sz == 2) {
		//@ check too_big: q == \null;
	} else if(nused == N) {
		//@ check full: q == \null;
	} else {
		long d;
		//@ check have: q != \null;
		d = slot(q);
		//@ check start: d >= 0 && d % SSA_ELEMSIZE == 0 && d / SSA_ELEMSIZE < SSA_MAXELEM;
		d /= SSA_ELEMSIZE;
		//@ check free_one: used[d] == 0;
		used[d] = 1; nused++;
	}
	q = ssa_alloc(&box.p, 1UL << 40);
	//@ check huge: q == \null;
	drain();
	VF_END(m, o, sz);
}
static void do_free(void) {
	size_t m = any_mask(), o = any_size(0, 1), i = any_size(0, (N <= 8 ? N : N <= 16 ? 8 : 3) - 1), again = any_size(0, 1), k = N <= 8 ? i : (i * (N / 8) + i) % N;
	VF_BEGIN(m, o, i, again);
	state(m, o);
	if(used[k]) drop(k);
	if(again) ssa_free(&box.p, box.p.mem + k * SSA_ELEMSIZE);      /* free of a free element: ignored */
	//@ check counted: box.p.avail == SSA_MAXELEM - nused;
	drain();
	VF_END(m, o, i, again);
}
static void do_foreign(void) {
	size_t m = any_mask(), o = any_size(0, 1), w = any_size(0, 4);
	VF_BEGIN(m, o, w);
	state(m, o);
	if(w == 0) ssa_free(&box.p, box.p.mem - SSA_ELEMSIZE);         /* below */
	if(w == 1) ssa_free(&box.p, box.p.mem - 2 * SSA_ELEMSIZE);
	if(w == 2) ssa_free(&box.p, box.p.mem + N * SSA_ELEMSIZE);      /* behind */
	if(w == 3 && SSA_ELEMSIZE > 1) ssa_free(&box.p, box.p.mem + 1); /* inside an element */
	if(w == 4) ssa_free(&box.p, box.p.mem - 1);
	drain();
	VF_END(m, o, w);
}
