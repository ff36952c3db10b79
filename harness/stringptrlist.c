/* C12, C13: splitting, joining, replacing, searching */
#include "vf.h"
#include <string.h>
#include "stringptrlist.h"
#ifdef VF_THOROUGH
#define MAXB 6
#else
#define MAXB 4
#endif
static char *termed(size_t n) { char *b = vf_malloc(n + 1); b[n] = 0; return b; }
static char *exact(size_t n) { char *b = vf_malloc(n + 1); return b + 1; }
static size_t any_size(size_t max) { size_t s = VF_ANYSZ(0, max);
	//@ split s;
	return s; }
static char orig[16]; static size_t code;
/* splitc: every byte is the delimiter or a distinct other byte (one may be NUL) */
static void do_splitc(int delim) {
	size_t n = any_size(MAXB), i, start = 0, k = 0; char *p = termed(n); stringptrlist *l;
	code = 0;
	for(i = 0; i < n; i++) { int d = VF_ANY(0, 1);
		//@ split d;
		p[i] = orig[i] = d ? (char)delim : 'A' + i; code = code*2 + d;
	}
	VF_BEGIN(n, code);
	int before = vf_live;
	vf_oom_on = 1;
	stringptr b = { p, n };
	l = stringptr_splitc(&b, delim);
	vf_oom_on = 0;
	if(!l) {
		//@ check only_oom: vf_oom_hit && vf_live == before;
	} else {
		//@ check no_oom_ignored: !vf_oom_hit;
		for(i = 0; i <= n; i++) if(i == n || orig[i] == (char)delim) {
			stringptr *s = stringptrlist_get(l, k);
			//@ check part: s != \null && s->ptr == p + start && s->size == i - start;
			//@ check part_terminated: p[i] == 0;
			start = i + 1; k++;
		} else {
			//@ check byte_kept: p[i] == orig[i];
		}
		size_t c = stringptrlist_getsize(l);
		//@ check parts: c == k;
		//@ check buffer_described: b.ptr == p && b.size == n;
		stringptrlist_free(l);
		//@ check freed: vf_live == before;
	}
	VF_END(n, code);
}
void C12_splitc(void) { do_splitc(';'); }
void C12_splitc_nul(void) { do_splitc(0); }
void C12_linesplit(void) {
	size_t n = any_size(3), i, lines = 1; char *p = termed(n); stringptrlist *l;
	code = 0;
	for(i = 0; i < n; i++) { int d = VF_ANY(0, 2);
		//@ split d;
		p[i] = d == 0 ? '\n' : d == 1 ? Frama_C_char_interval(-128, 9) : Frama_C_char_interval(11, 127);
		if(!d) lines++;
		code = code*3 + d;
	}
	VF_BEGIN(n, code);
	stringptr b = { p, n };
	l = stringptr_linesplit(&b);
	size_t c = stringptrlist_getsize(l);
	//@ check one_per_line: c == lines;
	stringptr *s = stringptrlist_get(l, c - 1);
	//@ check last_line_ends_at_end: s->ptr + s->size == p + n;
	VF_END(n, code);
}
/* splits and replace over a two-letter alphabet */
static char dl[4], rp[4]; static size_t dn, rn, dcode;
static void two(char *p, size_t n, size_t *cd) {
	size_t i; *cd = 0;
	for(i = 0; i < n; i++) { int k = VF_ANY(0, 1);
		//@ split k;
		p[i] = k ? 'a' : 0; *cd = *cd * 2 + k;
	}
}
static int here(size_t n, size_t at) {
	size_t j;
	if(!dn || dn > n - at) return 0;
	for(j = 0; j < dn; j++) if(orig[at+j] != dl[j]) return 0;
	return 1;
}
void C12_splits(void) {
	size_t n = any_size(MAXB), i, start = 0, k = 0; char *p = termed(n), *q; stringptrlist *l;
	dn = any_size(2); q = exact(dn);
	two(p, n, &code); memcpy(orig, p, n);
	two(q, dn, &dcode); memcpy(dl, q, dn);
	VF_BEGIN(n, code, dn, dcode);
	stringptr b = { p, n }, d = { q, dn };
	int before = vf_live;
	vf_oom_on = 1;
	l = stringptr_splits(&b, &d);
	vf_oom_on = 0;
	if(!l) {
		//@ check only_oom: vf_oom_hit && vf_live == before;
	} else {
		//@ check no_oom_ignored: !vf_oom_hit;
		i = 0;
		while(i <= n) {
			if(i == n || here(n, i)) {
				stringptr *s = stringptrlist_get(l, k);
				//@ check part: s != \null && s->ptr == p + start && s->size == i - start;
				//@ check part_terminated: p[i] == 0;
				k++;
				if(i == n) break;
				i += dn; start = i;
			} else {
				//@ check byte_kept: p[i] == orig[i];
				i++;
			}
		}
		size_t c = stringptrlist_getsize(l);
		//@ check matches_plus_one: c == k;
		stringptrlist_free(l);
		//@ check freed: vf_live == before;
	}
	VF_END(n, code, dn, dcode);
}
void C12_replace(void) {
	size_t n = any_size(MAXB), i, w = 0; char *p = termed(n), *q, *u; stringptr *r;
	dn = any_size(2); q = exact(dn); rn = any_size(3); u = exact(rn);
	two(p, n, &code); memcpy(orig, p, n);
	two(q, dn, &dcode); memcpy(dl, q, dn);
	for(i = 0; i < rn; i++) u[i] = 'R' + i;
	VF_BEGIN(n, code, dn, dcode, rn);
	stringptr b = { p, n }, d = { q, dn }, x = { u, rn };
	int before = vf_live;
	vf_oom_on = 1;
	r = stringptr_replace(&b, &d, &x);
	vf_oom_on = 0;
	if(!r) {
		//@ check only_oom: vf_oom_hit && vf_live == before;
	} else {
		//@ check no_oom_ignored: !vf_oom_hit && vf_live == before + 1;
		i = 0;
		while(i < n) {
			if(here(n, i)) {
				size_t j;
				for(j = 0; j < rn; j++) {
					//@ check replaced: r->ptr[w+j] == 'R' + j;
				}
				w += rn; i += dn;
			} else {
				//@ check copied: r->ptr[w] == orig[i];
				w++; i++;
			}
		}
		//@ check exact_size: r->size == w;
		//@ check terminated: r->ptr[w] == 0;
		stringptr_free(r);
	}
	r = stringptr_replace(0, &d, &x);
	stringptr *r2 = stringptr_replace(&b, 0, &x), *r3 = stringptr_replace(&b, &d, 0);
	//@ check null: r == \null && r2 == \null && r3 == \null;
	VF_END(n, code, dn, dcode, rn);
}
/* lists of up to 3 items of size 0..2 with distinct bytes */
static char *data[4]; static size_t len[4], cnt;
static stringptrlist *mk(size_t max) {
	stringptrlist *l; size_t i, j;
	cnt = any_size(max);
	l = stringptrlist_new(2);
	for(i = 0; i < cnt; i++) {
		size_t s = any_size(2);
		len[i] = s; data[i] = exact(s);
		for(j = 0; j < s; j++) data[i][j] = 'A' + 4*i + j;
		stringptrlist_add(l, data[i], s);
	}
	return l;
}
static void do_tostring(int dos) {
	stringptrlist *l = mk(3); size_t i, j, w = 0; stringptr *r;
	VF_BEGIN(cnt, len[0], len[1], len[2]);
	int before = vf_live;
	vf_oom_on = 1;
	r = dos ? stringptrlist_tostring_dos(l) : stringptrlist_tostring(l);
	if(!r) {
		//@ check only_oom: vf_oom_hit && vf_live == before;
	} else {
		for(i = 0; i < cnt; i++) {
			for(j = 0; j < len[i]; j++) {
				//@ check item: r->ptr[w+j] == 'A' + 4*i + j;
			}
			w += len[i];
			if(dos) {
				//@ check cr: r->ptr[w] == '\r';
				w++;
			}
			//@ check lf: r->ptr[w] == '\n';
			w++;
		}
		//@ check exact_size: r->size == w && r->ptr[w] == 0;
	}
	VF_END(cnt, len[0], len[1], len[2]);
}
void C12_tostring(void) { do_tostring(0); }
void C12_tostring_dos(void) { do_tostring(1); }
void C12_find(void) {
	stringptrlist *l = stringptrlist_new(2); size_t i, cd[3] = {0}, n = any_size(2), want; char *d[3]; size_t ln[3] = {0};
	for(i = 0; i < 3; i++) if(i == 2 || i < n) { ln[i] = any_size(2); d[i] = exact(ln[i]); two(d[i], ln[i], &cd[i]); }
	VF_BEGIN(n, ln[0], ln[1], ln[2], cd[0], cd[1], cd[2]);
	want = n;
	for(i = 0; i < n; i++) stringptrlist_add(l, d[i], ln[i]);
	for(i = n; i > 0; i--) if(ln[i-1] == ln[2] && cd[i-1] == cd[2]) want = i-1;
	stringptr w = { d[2], ln[2] };
	ssize_t r = stringptrlist_find(l, &w); int c = stringptrlist_contains(l, &w);
	if(want < n) {
		//@ check first_index: r == want && c;
	} else {
		//@ check not_found: r == -1 && !c;
	}
	ssize_t r1 = stringptrlist_find(0, &w), r2 = stringptrlist_find(l, 0);
	//@ check null: r1 == -1 && r2 == -1;
	VF_END(n, ln[0], ln[1], ln[2], cd[0], cd[1], cd[2]);
}
static void same_text(stringptr *s, size_t i, int copied) {
	size_t j; char *p = s->ptr, *o = data[i];
	//@ check size: s->size == len[i];
	for(j = 0; j < len[i]; j++) {
		//@ check text: p[j] == 'A' + 4*i + j;
	}
	if(copied) {
		//@ check own_copy: p != o;
		//@ check terminated: p[len[i]] == 0;
	} else {
		//@ check untouched: p == o;
	}
}
void C12_dup_entries(void) {
	stringptrlist *l = mk(3); size_t i;
	VF_BEGIN(cnt, len[0], len[1], len[2]);
	int before = vf_live, lst = 1 + (cnt > 0);
	vf_oom_on = 1;
	ssize_t r = stringptrlist_dup_entries(l);
	vf_oom_on = 0;
	size_t done = r == -1 ? cnt : (size_t)r;
	if(r != -1) {
		//@ check index: vf_oom_hit && r >= 0 && r < cnt;
	} else {
		//@ check all: !vf_oom_hit;
	}
	for(i = 0; i < cnt; i++) same_text(stringptrlist_get(l, i), i, i < done);
	//@ check one_copy_each: vf_live == before + done;
	if(done == cnt) {
		stringptrlist_freeall(l);
		//@ check freed_once: vf_live == before - lst;
	}
	VF_END(cnt, len[0], len[1], len[2]);
}
void C12_freestrings(void) {
	stringptrlist *l = mk(3); size_t i;
	VF_BEGIN(cnt, len[0], len[1], len[2]);
	int before = vf_live;
	stringptrlist_dup_entries(l);
	stringptrlist_freestrings(l);
	//@ check copies_freed: vf_live == before;
	for(i = 0; i < cnt; i++) { stringptr *s = stringptrlist_get(l, i);
		//@ check emptied: s->ptr == \null && s->size == 0;
	}
	stringptrlist_freestrings(l);
	stringptrlist_freeall(0);
	//@ check harmless: vf_live == before;
	VF_END(cnt, len[0], len[1], len[2]);
}
void C12_add_strdup(void) {
	stringptrlist *l = mk(2); size_t i, n = any_size(2); char *p = exact(n);
	size_t l0 = len[0], l1 = len[1];
	VF_BEGIN(cnt, l0, l1, n);
	for(i = 0; i < n; i++) p[i] = 'A' + 4*cnt + i;
	data[cnt] = p; len[cnt] = n;
	stringptr s = { p, n };
	int before = vf_live, r;
	vf_oom_on = 1; vf_oom_hit = 0;
	r = stringptrlist_add_strdup(l, &s);
	if(r) {
		//@ check counted: l->count == cnt + 1;
		same_text(stringptrlist_get(l, cnt), cnt, 1);
	} else {
		//@ check only_oom: vf_oom_hit;
		//@ check not_added: l->count == cnt;
		//@ check nothing_leaked: vf_live == before;
	}
	for(i = 0; i < cnt; i++) same_text(stringptrlist_get(l, i), i, 0);
	VF_END(cnt, l0, l1, n);
}
/* text with any bytes, zero bytes too */
void C12_add_strdup_bytes(void) {
	size_t n = any_size(4), i; char b[4]; stringptrlist *l = stringptrlist_new(2); stringptr s, *q; int r;
	for(i = 0; i < n; i++) { size_t k = any_size(2); b[i] = k == 0 ? 0 : k == 1 ? 'a' + i : -1 - (int) i; }
	VF_BEGIN(n);
	s.ptr = b; s.size = n;
	r = stringptrlist_add_strdup(l, &s);
	//@ check added: r != 0;
	q = stringptrlist_get(l, 0);
	//@ check length: q->size == n;
	for(i = 0; i < n; i++) {
		//@ check text: q->ptr[i] == b[i];
	}
	//@ check terminated: q->ptr[n] == 0;
	VF_END(n);
}
/* a failure at any allocation of a multi-allocation call */
void C13_split_replace(void) {
	char *p = termed(40); size_t i, op = VF_ANYSZ(0, 2), live;
	//@ split op;
	for(i = 0; i < 40; i++) p[i] = i % 2 ? 'x' : 'y';     /* 21 parts: two growths of the list */
	stringptr b = { p, 40 }, d = { "x", 1 }, w = { "zz", 2 };
	VF_BEGIN(op);
	live = vf_live;
	vf_oom_on = 1;
	if(op == 2) {
		stringptr *r = stringptr_replace(&b, &d, &w);
		int bad = vf_oom_hit;
		//@ check reported: (r == \null) == (bad != 0);
		if(r) {
			//@ check size: r->size == 60;
			stringptr_free(r);
		}
	} else {
		stringptrlist *l = op ? stringptr_splits(&b, &d) : stringptr_splitc(&b, 'x');
		int bad = vf_oom_hit;
		//@ check reported: (l == \null) == (bad != 0);
		if(l) {
			//@ check parts: l->count == 21;
			stringptrlist_free(l);
		}
	}
	//@ check no_leak: vf_live == live;
	VF_END(op);
}
/* the accessor macros mean what the functions behind them mean, in the right argument order */
static char pool[8];
static int by_ptr(const void *a, const void *b) { return (int)(((stringptr*)a)->ptr - ((stringptr*)b)->ptr); }
void C12_list_macros(void) {
	size_t n = any_size(3), pos = any_size(3), k = any_size(3), i, c; int r; stringptrlist *l; stringptr *s;
	VF_BEGIN(n, pos, k);
	l = stringptrlist_new(2);
	r = stringptrlist_empty(l);
	//@ check empty_at_first: r != 0;
	for(i = 0; i < n; i++) { r = stringptrlist_add(l, pool + 2 * i + 1, i);
		//@ check added: r == 1;
	}
	r = stringptrlist_empty(l);
	//@ check empty: (r != 0) == (n == 0);
	if(k == 0) {
		r = stringptrlist_set(l, pos, pool + 6, 9);
		//@ check set: (r == 1) == (pos < n);
		for(i = 0; i < n; i++) { s = stringptrlist_get(l, i);
			//@ check set_kept: i == pos ? s->ptr == &pool[6] && s->size == 9 : s->ptr == &pool[2 * i + 1] && s->size == i;
		}
	}
	if(k == 1) {
		int q; q = stringptrlist_insert(l, pos, pool + 6, 9);
		//@ check insert: (q == 1) == (pos <= n);
		c = stringptrlist_getsize(l);
		//@ check grown: c == n + (pos <= n ? 1 : 0);
		for(i = 0; i < c; i++) { size_t o = i - (i > pos ? 1 : 0); s = stringptrlist_get(l, i);
			//@ check insert_kept: i == pos ? s->ptr == &pool[6] && s->size == 9 : s->ptr == &pool[2 * o + 1] && s->size == o;
		}
	}
	if(k == 2) {
		ssize_t at; size_t o; at = stringptrlist_insert_sorted(l, pool + 2 * pos, 9, by_ptr);
		//@ check sorted_at: at == (pos < n ? pos : n);
		c = stringptrlist_getsize(l);
		//@ check sorted_grown: c == n + 1;
		for(i = 0; i < c; i++) { s = stringptrlist_get(l, i); o = i - (i > at ? 1 : 0);
			//@ check sorted_kept: i == at ? s->ptr == &pool[2 * pos] && s->size == 9 : s->ptr == &pool[2 * o + 1] && s->size == o;
		}
	}
	if(k == 3) { s = stringptrlist_get(l, pos);
		//@ check get: pos < n ? s->ptr == &pool[2 * pos + 1] && s->size == pos : s == \null;
	}
	stringptrlist_free(l);
	//@ check all_freed: vf_live == 0;
	VF_END(n, pos, k);
}
