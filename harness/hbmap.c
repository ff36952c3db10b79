/* C10, C13: hbmap with 3 buckets; hash values arbitrary per key class, so every distribution of the
   keys over the buckets is a case. */
#include "vf.h"
#include <string.h>
#include "hbmap.h"
#define NB 3
static char tok[64];
#define NEWTOK (&tok[50])
static unsigned H[8];               /* hash of key 10*i is H[i] */
static unsigned hashf(const int k) { return H[k / 10]; }
static int cmpint(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
typedef hbmap(int, char*, NB) M;
static M m; static size_t n;
#ifdef VF_THOROUGH
#define MAXK 4
#else
#define MAXK 3
#endif
static void hashes(size_t max) {
	size_t i;
	for(i = 1; i <= max; i++) {
		unsigned b = VF_ANY(0, NB);
		//@ split b;
		/* the 4th class: the largest 32-bit hash (also in bucket 0) */
		H[i] = b < NB ? b : 0xffffffffu;
	}
}
static void build(size_t max) {
	size_t i;
	n = VF_ANYSZ(0, max);
	//@ split n;
	hbmap_init(&m, cmpint, hashf);
	for(i = 1; i <= n; i++) {
		int k = 10*i; char *v = &tok[i];
		hbmap_iter it = hbmap_insert(&m, k, v);
		hbmap_iter bucket = it >> 32, want = H[i] % NB;
		//@ check right_bucket: bucket == want;
	}
}
static void expect(size_t del, size_t over) {  /* keys 10..10n without `del`; `over` has NEWTOK */
	size_t i, cnt = 0, seen[8] = {0}; hbmap_iter it;
	for(i = 1; i <= n; i++) {
		int k = 10*i; char **p = hbmap_get(&m, k), *want = i == over ? NEWTOK : &tok[i];
		int c = hbmap_contains(&m, k);
		if(i == del) {
			//@ check absent: p == \null && !c;
		} else {
			//@ check present: p != \null && *p == want && c;
		}
	}
	hbmap_foreach(&m, it) {
		int k = hbmap_getkey(&m, it); char *v = hbmap_getval(&m, it); size_t j = k / 10; char *want = j == over ? NEWTOK : &tok[j];
		//@ check iterates_entries: j >= 1 && j <= n && j != del && k == 10*j && v == want;
		seen[j]++; cnt++;
	}
	for(i = 1; i <= n; i++) { size_t w = i != del;
		//@ check iterates_once: seen[i] == w;
	}
}
#define CASE n, H[1], H[2], H[3], H[4]
void C10_hbmap_find(void) {
	hashes(MAXK + 1);
	build(MAXK);
	VF_BEGIN(CASE);
	expect(0, 0);
	int k = 10*(n+1); char **p = hbmap_get(&m, k); int c = hbmap_contains(&m, k);
	//@ check never_inserted: p == \null && !c;
	hbmap_fini(&m, 0);
	//@ check all_freed: vf_live == 0;
	VF_END(CASE);
}
void C10_hbmap_overwrite(void) {
	hashes(MAXK);
	build(MAXK);
	if(!n) return;
	size_t i = VF_ANYSZ(1, n); char *v = NEWTOK; int how = VF_ANY(0, 1);
	//@ split i;
	//@ split how;
	VF_BEGIN(CASE, i, how);
	int k = 10*i;
	if(how) { hbmap_iter f = hbmap_find(&m, k); hbmap_setvalue(&m, v, f); }
	else {
		vf_oom_on = 1;
		hbmap_iter it = hbmap_insert(&m, k, v);
		vf_oom_on = 0;
		int gk = hbmap_getkey(&m, it);
		//@ check same_entry: gk == k;
	}
	expect(0, i);
	VF_END(CASE, i, how);
}
void C10_hbmap_delete(void) {
	hashes(MAXK);
	build(MAXK);
	if(!n) return;
	size_t i = VF_ANYSZ(1, n);
	//@ split i;
	VF_BEGIN(CASE, i);
	int k = 10*i; hbmap_iter it = hbmap_find(&m, k);
	hbmap_delete(&m, it);
	expect(i, 0);
	VF_END(CASE, i);
}
void C10_hbmap_insert_oom(void) {
	hashes(2);
	build(1);
	VF_BEGIN(CASE);
	int k = 10*(n+1); char *v = &tok[n+1];
	int nocheck = VF_NONDET();
	vf_oom_on = 1; vf_oom_hit = 0;
	hbmap_iter it = nocheck ? hbmap_insert_nocheck(&m, k, v) : hbmap_insert(&m, k, v);
	vf_oom_on = 0;
	if(it == (hbmap_iter)-1) {
		//@ check only_oom_fails: vf_oom_hit;
		expect(0, 0);
		char **p = hbmap_get(&m, k);
		//@ check not_stored: p == \null;
		it = hbmap_insert(&m, k, v);   /* the map goes on working after a failure */
		//@ check retry_succeeds: it != -1UL;
		n++; expect(0, 0); n--;
	} else {
		int gk = hbmap_getkey(&m, it); char *gv = hbmap_getval(&m, it);
		//@ check entry: gk == k && gv == v;
		n++; expect(0, 0); n--;
	}
	VF_END(CASE);
}
/* allocated maps of several bucket counts */
void C10_hbmap_new(void) {
	VF_BEGIN(0);
	vf_oom_on = 1;
	M *p = hbmap_new(cmpint, hashf, NB);
	vf_oom_on = 0;
	if(p) {
		size_t i; hbmap_iter it; int k = 10; char *v = NEWTOK, **q;
		H[1] = VF_ANY(0, 2);
		//@ split H[1];
		for(i = 0; i < NB; i++) {
			//@ check bucket_initialised: p->buckets[i].compare == cmpint && bmap_getsize(&p->buckets[i]) == 0;
		}
		it = hbmap_insert(p, k, v);
		q = hbmap_get(p, k);
		//@ check usable: q != \null && *q == NEWTOK;
		hbmap_fini(p, 0);
		vf_free(p);
	} else {
		//@ check reported: vf_oom_hit;
	}
	//@ check no_leak: vf_live == 0;
	VF_END(0);
}
/* a bucket of many items: the iterator addresses every one of them */
static int bigk[70000]; static char *bigv[70000];
void C10_hbmap_many_items(void) {
	static const unsigned at[] = { 1, 254, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537, 69998 };
	size_t c = VF_ANYSZ(0, 13); unsigned i, b = VF_ANY(0, NB - 1);
	//@ split c;
	//@ split b;
	VF_BEGIN(c, b);
	i = at[c];
	hbmap_init(&m, cmpint, hashf);
	m.buckets[b].keys.items = bigk; m.buckets[b].keys.count = m.buckets[b].keys.capa = 70000;
	m.buckets[b].values.items = bigv; m.buckets[b].values.count = m.buckets[b].values.capa = 70000;
	bigk[i] = 1000 + (int) i; bigv[i] = &tok[3]; bigk[i + 1] = 7; bigv[i + 1] = &tok[4];
	hbmap_iter it = (hbmap_iter) b << 32 | i, next;
	int v = hbmap_iter_valid(&m, it), k = hbmap_getkey(&m, it); char *w = hbmap_getval(&m, it);
	//@ check valid: v;
	//@ check key: k == 1000 + i;
	//@ check value: w == &tok[3];
	hbmap_setvalue(&m, NEWTOK, it);
	char *x = bigv[i];
	//@ check set: x == &tok[50];
	next = hbmap_next_valid_impl(&m, it, NB);
	//@ check next: next == it + 1;
	k = hbmap_getkey(&m, next);
	//@ check next_key: k == 7;
	it = (hbmap_iter) b << 32 | 69999;
	next = hbmap_next_valid_impl(&m, it, NB);
	v = hbmap_iter_valid(&m, next);
	//@ check behind_the_last: !v;
	it = (hbmap_iter) b << 32 | 70000;
	v = hbmap_iter_valid(&m, it);
	//@ check not_valid: !v;
	VF_END(c, b);
}
