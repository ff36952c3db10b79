/* C11, C10 (kvlist), C13: hashlist, kvlist, stringlist, sptrlist */
#include "vf.h"
#include <string.h>
#include "hashlist.h"
#include "kvlist.h"
#include "stringlist.h"
#include "sptrlist.h"
static char tok[64];
static uint32_t H[4]; static size_t n, bc;
static hashlist *h;
#ifdef VF_THOROUGH
#define MAXV 4
#define MAXB 4
#else
#define MAXV 3
#define MAXB 3
#endif
static uint32_t anyhash(size_t bc) {       /* arbitrary 32-bit hash of every residue class */
	uint32_t b = VF_ANY(0, 5), big;
	//@ split b;
	return b < 3 ? b : b == 3 ? 0x7fffffffu : b == 4 ? 0x80000000u : 0xffffffffu;
}
static void build(size_t max) {
	size_t i;
	bc = VF_ANYSZ(1, MAXB);
	//@ split bc;
	n = VF_ANYSZ(0, max);
	//@ split n;
	h = hashlist_new(bc, sizeof(char*));
	//@ check created: h != \null;
	for(i = 0; i < n; i++) {
		char *v = &tok[i]; int r;
		H[i] = anyhash(bc);
		r = hashlist_add(h, H[i], &v);
		//@ check added: r == 0;
	}
}
#define CASE bc, n, H[0], H[1], H[2], H[3]
void C11_get(void) {
	size_t i, j;
	build(MAXV);
	VF_BEGIN(CASE);
	for(i = 0; i < n; i++) {
		sblist *l = hashlist_get(h, H[i]); size_t cnt = 0, same = 0;
		//@ check bucket_present: l != \null;
		for(j = 0; j < sblist_getsize(l); j++) { char **p = sblist_get(l, j); if(*p == &tok[i]) cnt++; }
		//@ check stored_once: cnt == 1;
		for(j = 0; j < n; j++) if(H[j] % bc == H[i] % bc) same++;
		//@ check only_its_hash_class: l->count == same && l->itemsize == sizeof(char*);
	}
	/* a bucket no value was added to */
	for(j = 0; j < bc; j++) {
		int used = 0;
		for(i = 0; i < n; i++) if(H[i] % bc == j) used = 1;
		sblist *l = hashlist_get(h, j);
		if(!used) {
			//@ check nothing_there: l == \null;
		}
	}
	hashlist_free(h);
	//@ check all_freed: vf_live == 0;
	VF_END(CASE);
}
void C11_iterate(void) {
	size_t i, cnt = 0, seen[4] = {0}; hashlist_iterator it; void *p;
	build(MAXV);
	VF_BEGIN(CASE);
	hashlist_iterator_init(&it);
	for(i = 0; i < n; i++) {
		char **q = hashlist_next(h, &it);
		//@ check yields: q != \null;
		size_t k = *q - tok;
		//@ check stored_value: k < n;
		seen[k]++;
	}
	p = hashlist_next(h, &it);
	//@ check ends: p == \null;
	p = hashlist_next(h, &it);
	//@ check stays_ended: p == \null;
	for(i = 0; i < n; i++) {
		//@ check each_once: seen[i] == 1;
	}
	VF_END(CASE);
}
void C11_buckets(void) {
	size_t i, j, total = 0; hashlist_bucket_iterator it; sblist *l, *prev = 0;
	build(MAXV);
	VF_BEGIN(CASE);
	hashlist_bucket_iterator_init(&it);
	for(j = 0; j < bc; j++) {
		int used = 0; sblist *want = hashlist_get(h, j);
		for(i = 0; i < n; i++) if(H[i] % bc == j) used = 1;
		if(!used) continue;
		l = hashlist_bucket_next(h, &it);
		//@ check next_bucket: l != \null && l == want;
	}
	l = hashlist_bucket_next(h, &it);
	//@ check ends: l == \null;
	l = hashlist_bucket_next(h, &it);
	//@ check stays_ended: l == \null;
	VF_END(CASE);
}
/* emptied buckets are skipped */
void C11_emptied(void) {
	size_t i, j = 0; hashlist_iterator it; void *p;
	build(2);
	if(n < 2 || H[0] % bc == H[1] % bc) return;
	VF_BEGIN(CASE);
	sblist_delete(hashlist_get(h, H[0]), 0);
	hashlist_iterator_init(&it);
	char **q = hashlist_next(h, &it);
	//@ check skips_empty: q != \null && *q == &tok[1];
	p = hashlist_next(h, &it);
	//@ check ends: p == \null;
	p = hashlist_next(h, &it);
	//@ check stays_ended: p == \null;
	VF_END(CASE);
}
/* growth inside a bucket */
void C11_many(void) {
	size_t i, m = VF_ANYSZ(7, 18);
	//@ split m;
	VF_BEGIN(m);
	h = hashlist_new(2, sizeof(char*));
	for(i = 0; i < m; i++) { char *v = &tok[i]; int r = hashlist_add(h, 3, &v);
		//@ check added: r == 0;
	}
	sblist *l = hashlist_get(h, 1);
	//@ check counted: l->count == m;
	for(i = 0; i < m; i++) { char **q = sblist_get(l, i);
		//@ check kept: q != \null && *q == &tok[i];
	}
	hashlist_free(h);
	//@ check all_freed: vf_live == 0;
	VF_END(m);
}
void C11_oom(void) {
	size_t i, good = 0, cnt = 0; hashlist_iterator it; void *p;
	VF_BEGIN(0);
	vf_oom_on = 1;
	h = hashlist_new(2, sizeof(char*));
	if(!h) {
		//@ check new_reported: vf_oom_hit && vf_live == 0;
	} else {
		for(i = 0; i < 3; i++) {
			char *v = &tok[i]; int r; uint32_t k = VF_ANY(0, 1);
			//@ split k;
			vf_oom_hit = 0;
			r = hashlist_add(h, k, &v);
			int bad = vf_oom_hit;
			//@ check result: r == (bad ? -1 : 0);
			if(!r) good++;
		}
		hashlist_iterator_init(&it);
		for(i = 0; i < good; i++) { p = hashlist_next(h, &it);
			//@ check stored_ones: p != \null;
		}
		p = hashlist_next(h, &it);
		//@ check only_stored_ones: p == \null;
		hashlist_free(h);
		//@ check no_leak: vf_live == 0;
	}
	hashlist_free(0);
	VF_END(0);
}
void C13_hashlist(void) {
	VF_BEGIN(0);
	vf_oom_on = 1;
	h = hashlist_new(3, sizeof(char*));
	if(h) {
		char *v = tok; int r = hashlist_add(h, 7, &v);
		int bad = vf_oom_hit;
		//@ check add_reported: (r == -1) == (bad != 0);
		hashlist_free(h);
	} else {
		//@ check new_reported: vf_oom_hit;
	}
	//@ check no_leak: vf_live == 0;
	VF_END(0);
}
/* ---------------------------------------------------------- kvlist */
void C10_kvlist(void) {
	kvlist *l; size_t i, n = VF_ANYSZ(0, 3), want; static char keys[4][4]; static size_t len[4]; void *out = &tok[60]; int r;
	//@ split n;
	for(i = 0; i < 4; i++) { size_t k = VF_ANYSZ(0, 3);
		//@ split k;
		/* "", "a", "b", "ab" : different content and length */
		len[i] = k == 0 ? 0 : k == 3 ? 2 : 1;
		keys[i][0] = k == 2 ? 'b' : 'a'; keys[i][1] = 'b';
	}
	VF_BEGIN(n, len[0], len[1], len[2], len[3], keys[0][0], keys[1][0], keys[2][0], keys[3][0]);
	l = kv_new(2);
	for(i = 0; i < n; i++) { r = kv_add(l, keys[i], len[i], &tok[i]);
		//@ check added: r == 1;
	}
	want = n;
	for(i = n; i > 0; i--) if(len[i-1] == len[3] && (!len[3] || keys[i-1][0] == keys[3][0])) want = i-1;
	stringptr w = { keys[3], len[3] };
	r = kv_find(l, &w, &out);
	if(want < n) {
		//@ check first_equal_key: r == 1 && out == &tok[want];
	} else {
		//@ check not_found: r == 0 && out == &tok[60];
	}
	r = kv_find(0, &w, &out) || kv_find(l, 0, &out) || kv_find(l, &w, 0);
	//@ check null_refused: r == 0;
	kv_free(l);
	//@ check all_freed: vf_live == 0;
	VF_END(n, len[0], len[1], len[2], len[3], keys[0][0], keys[1][0], keys[2][0], keys[3][0]);
}
/* ------------------------------------------------ stringlist, sptrlist */
void C06_stringlist(void) {
	stringlist *l; size_t i, k, n = VF_ANYSZ(0, 4), j = 0; char *s;
	//@ split n;
	VF_BEGIN(n);
	l = stringlist_new(2);
	for(i = 0; i < n; i++) { s = &tok[i]; int r = stringlist_add(l, s);
		//@ check added: r == 1;
	}
	stringlist_iter(l, k) { char *q = stringlist_get(l, k);
		//@ check kept: q == &tok[k];
	}
	s = stringlist_get(l, n);
	//@ check behind_end: s == \null;
	stringlist_foreach(l, s) {
		//@ check foreach: s == &tok[j];
		j++;
	}
	//@ check foreach_all: j == n;
	stringlist_free(l);
	sptrlist *p = sptrlist_new(3);
	for(i = 0; i < n; i++) { s = &tok[i]; sptrlist_add(p, s); }
	//@ check counted: sptrlist_get_count(p) == n;
	for(i = 0; i < n; i++) { s = sptrlist_get(p, i);
		//@ check kept: s == &tok[i];
	}
	sptrlist_free(p);
	//@ check all_freed: vf_live == 0;
	VF_END(n);
}
void C13_stringlist(void) {
	stringlist *l = stringlist_new(1); char str[3] = "xy"; int r; size_t i;
	VF_BEGIN(0);
	vf_oom_on = 1;
	r = stringlist_add_dup(l, str);
	int bad = vf_oom_hit;
	//@ check reported: (r == 0) == (bad != 0);
	if(r) {
		char *q = stringlist_get(l, 0);
		//@ check copied: q != str && q[0] == 'x' && q[1] == 'y' && q[2] == 0;
		sblist_free_values(l);
	} else {
		//@ check nothing_added: l->count == 0;
	}
	stringlist_free(l);
	//@ check no_leak: vf_live == 0;
	VF_END(0);
}
/* the kvlist macros */
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
void C10_kv_macros(void) {
	size_t n = any_size(0, 3), pos = any_size(0, 3), i, c; kvlist *l; stringptrv *e; int r; static char key[8];
	VF_BEGIN(n, pos);
	l = kv_new(2);
	for(i = 0; i < n; i++) kv_add(l, key + i, i + 1, &tok[i]);
	c = kv_getsize(l);
	//@ check counted: c == n;
	r = kv_set(l, pos, key + 7, 9, &tok[9]);
	//@ check set: (r == 1) == (pos < n);
	for(i = 0; i < n; i++) { e = kv_get(l, i);
		//@ check entries: i == pos ? e->ptr == &key[7] && e->size == 9 && e->value == &tok[9] : e->ptr == &key[i] && e->size == i + 1 && e->value == &tok[i];
	}
	e = kv_get(l, n);
	//@ check behind: e == \null;
	kv_free(l);
	//@ check all_freed: vf_live == 0;
	VF_END(n, pos);
}
void C06_pointer_lists(void) {
	size_t n = any_size(0, 3), pos = any_size(0, 2), i; char *s, *q; int r; sptrlist *p, st; stringlist *l;
	VF_BEGIN(n, pos);
	p = n & 1 ? sptrlist_new(2) : (sptrlist_init(&st, 2), &st);
	for(i = 0; i < n; i++) { s = &tok[i]; r = sptrlist_add(p, s);
		//@ check added: r == 1;
	}
	s = &tok[9]; r = sptrlist_set(p, s, pos);
	//@ check set: (r == 1) == (pos < n);
	for(i = 0; i < n; i++) { q = sptrlist_get(p, i);
		//@ check kept: q == (i == pos ? &tok[9] : &tok[i]);
	}
	if(n & 1) sptrlist_free(p); else sptrlist_free_items(p);
	l = stringlist_new(2);
	for(i = 0; i < n; i++) { s = &tok[i]; stringlist_add(l, s); }
	stringlist_delete(l, pos);
	i = stringlist_getsize(l);
	//@ check deleted: i == (pos < n ? n - 1 : n);
	for(i = 0; i < n; i++) if(i != pos) { q = stringlist_get(l, i > pos ? i - 1 : i);
		//@ check order_kept: q == &tok[i];
	}
	stringlist_free(l);
	//@ check all_freed: vf_live == 0;
	VF_END(n, pos);
}
