/* C03, C13: counted strings.  The object holding the data ends exactly behind the last byte an
   operation may touch, so any access outside is an invalid access. */
#include "vf.h"
#include <string.h>
#include <stdarg.h>
#include "stringptr.h"
#ifdef VF_THOROUGH
#define MAXS 6
#else
#define MAXS 4
#endif
/* n bytes exactly at the end of a heap object (no terminator slot) */
static char *exact(size_t n) { char *b = vf_malloc(n + 1); return b + 1; }
/* n bytes plus terminator slot */
static char *termed(size_t n) { char *b = vf_malloc(n + 2); b[n+1] = 0; return b + 1; }
static size_t any_size(size_t max) { size_t s = VF_ANYSZ(0, max);
	//@ split s;
	return s; }
/* distinct bytes, one of them NUL: copying and moving is independent of the content */
static void distinct(char *p, size_t n, size_t z, char first) { size_t i; for(i = 0; i < n; i++) p[i] = i == z ? 0 : first + i; }
static char cls(void) {   /* newline, return or anything else */
	int k = VF_ANY(0, 4);
	//@ split k;
	if(k == 0) return '\n';
	if(k == 1) return '\r';
	if(k == 2) return Frama_C_char_interval(-128, 9);
	if(k == 3) return Frama_C_char_interval(11, 12);
	return Frama_C_char_interval(14, 127);
}
void C03_shift(void) {
	size_t n = any_size(MAXS), left = VF_NONDET(), c = VF_ANYSZ(0, n), i; stringptr s; int r;
	//@ split left;
	//@ split c;
	VF_BEGIN(n, left, c);
	char *p = left ? termed(n) : exact(n);
	distinct(p, n, (size_t)-1, 'A');
	s.ptr = p; s.size = n;
	r = left ? stringptr_shiftleft(&s, c) : stringptr_shiftright(&s, c);
	//@ check succeeds: r == 1;
	//@ check shrunk: s.size == n - c;
	if(left) {
		//@ check keeps_start: s.ptr == p;
		//@ check terminated: p[n-c] == 0;
		for(i = 0; i < n - c; i++) {
			//@ check content: p[i] == 'A' + i;
		}
		for(i = n - c + 1; i < n; i++) {
			//@ check rest_untouched: p[i] == 'A' + i;
		}
	} else {
		//@ check moves_start: s.ptr == p + c;
		for(i = 0; i < n; i++) {
			//@ check content: p[i] == 'A' + i;
		}
	}
	VF_END(n, left, c);
}
void C03_shift_too_far(void) {
	size_t n = any_size(MAXS), left = VF_NONDET(), c = VF_ANYSZ(0, (size_t)-1), i; stringptr s; int r;
	//@ split left;
	if(c <= n) return;
	VF_BEGIN(n, left);
	char *p = exact(n);
	distinct(p, n, (size_t)-1, 'A');
	s.ptr = p; s.size = n;
	r = left ? stringptr_shiftleft(&s, c) : stringptr_shiftright(&s, c);
	//@ check refused: r == 0;
	//@ check untouched: s.ptr == p && s.size == n;
	for(i = 0; i < n; i++) {
		//@ check content: p[i] == 'A' + i;
	}
	r = left ? stringptr_shiftleft(0, c) : stringptr_shiftright(0, c);
	//@ check null: r == 0;
	VF_END(n, left);
}
void C03_chomp(void) {
	size_t n = any_size(MAXS - 1), i, want = 0, r; stringptr s; char *p = termed(n);
	for(i = 0; i < n; i++) p[i] = cls();
	char c0 = n > 0 ? p[0] : 0, c1 = n > 1 ? p[1] : 0, c2 = n > 2 ? p[2] : 0;
	VF_BEGIN(n, c0, c1, c2);
	while(want < n && (p[n-1-want] == '\n' || p[n-1-want] == '\r')) want++;
	s.ptr = p; s.size = n;
	r = stringptr_chomp(&s);
	//@ check removed: r == want;
	//@ check shrunk: s.ptr == p && s.size == n - want;
	//@ check terminated: want == 0 || p[n - want] == 0;
	r = stringptr_chomp(0);
	//@ check null: r == 0;
	VF_END(n, c0, c1, c2);
}
void C03_rchr(void) {
	size_t n = any_size(MAXS), i, last = (size_t)-1; stringptr s; char *p = exact(n), *r;
	size_t bits = 0;
	for(i = 0; i < n; i++) {
		int k = VF_ANY(0, 2);
		//@ split k;
		p[i] = k == 0 ? 'x' : k == 1 ? Frama_C_char_interval(-128, 'x' - 1) : Frama_C_char_interval('x' + 1, 127);
		if(k == 0) last = i;
		bits = bits*3 + k;
	}
	VF_BEGIN(n, bits);
	s.ptr = p; s.size = n;
	r = stringptr_rchr(&s, 'x');
	if(last == (size_t)-1) {
		//@ check none: r == \null;
	} else {
		//@ check last_one: r == p + last;
	}
	r = stringptr_rchr(0, 'x');
	//@ check null: r == \null;
	VF_END(n, bits);
}
/* two letters, one of them NUL, so nothing may depend on a terminator */
static void two(char *p, size_t n, size_t *code) {
	size_t i; *code = 0;
	for(i = 0; i < n; i++) { int k = VF_ANY(0, 1);
		//@ split k;
		p[i] = k ? 'a' : 0; *code = *code * 2 + k;
	}
}
void C03_eq(void) {
	size_t n = any_size(3), m = any_size(3), ca, cb; char *p = exact(n), *q = exact(m); int r;
	two(p, n, &ca); two(q, m, &cb);
	VF_BEGIN(n, m, ca, cb);
	stringptr a = { p, n }, b = { q, m };
	r = stringptr_eq(&a, &b);
	if(n == m && ca == cb) {
		//@ check equal: r != 0;
	} else {
		//@ check different: r == 0;
	}
	int r1 = stringptr_eq(&a, 0), r2 = stringptr_eq(0, &b), r3 = stringptr_eq(0, 0);
	//@ check null: r1 == 0 && r2 == 0 && r3 != 0;
	VF_END(n, m, ca, cb);
}
static int occurs(char *h, size_t n, size_t at, char *q, size_t m) {
	size_t i;
	if(at > n || m > n - at) return 0;
	for(i = 0; i < m; i++) if(h[at+i] != q[i]) return 0;
	return 1;
}
void C03_here(void) {
	size_t n = any_size(3), m = any_size(2), ca, cb, at = VF_ANYSZ(0, n + 1); char *p = exact(n), *q = exact(m); int r;
	//@ split at;
	two(p, n, &ca); two(q, m, &cb);
	VF_BEGIN(n, m, ca, cb, at);
	stringptr a = { p, n }, b = { q, m };
	int want = occurs(p, n, at, q, m);
	r = stringptr_here(&a, at, &b);
	//@ check answer: (r != 0) == want;
	VF_END(n, m, ca, cb, at);
}
void C03_here_far(void) {
	size_t n = any_size(3), m = any_size(4), at = VF_ANYSZ(0, (size_t)-1); char *p = exact(n), *q = exact(m); int r;
	if(at <= n) return;
	VF_BEGIN(n, m);
	vf_any_bytes(p, n); vf_any_bytes(q, m);
	stringptr a = { p, n }, b = { q, m };
	r = stringptr_here(&a, at, &b);
	//@ check nothing_behind_end: r == 0;
	VF_END(n, m);
}
void C03_contains(void) {
	size_t n = any_size(4), m = any_size(3), ca, cb, i; char *p = exact(n), *q = exact(m); int r, want = 0;
	if(!m) return; /* the empty needle is outside the statement */
	two(p, n, &ca); two(q, m, &cb);
	VF_BEGIN(n, m, ca, cb);
	stringptr a = { p, n }, b = { q, m };
	for(i = 0; i <= n; i++) if(occurs(p, n, i, q, m)) want = 1;
	r = stringptr_contains(&a, &b);
	//@ check answer: (r != 0) == want;
	VF_END(n, m, ca, cb);
}
void C03_hash(void) {
	size_t n = any_size(MAXS + 3); char *p = exact(n); uint32_t h, g;
	VF_BEGIN(n);
	vf_any_bytes(p, n);
	stringptr s = { p, n };
	h = stringptr_hash(&s);
	//@ check range: h <= 0xfffffff;
	VF_END(n);
}
/* the 28-bit ELF hash of the bytes as unsigned numbers, whatever the type of char: every pair of byte
   values at either end, and long enough for the top bits to be folded back */
static uint32_t elf(const unsigned char *p, size_t n) { uint32_t h = 0, g; while(n--) { h = (h << 4) + *p++; g = h & 0xf0000000u; h ^= g >> 24; h &= ~g; } return h; }
// opts: -eva-auto-loop-unroll 300
void C03_hash_value(void) {
	static const unsigned char cls[] = { 0, 1, 0x0f, 0x41, 0x7f, 0x80, 0xf0, 0xff };
	static const size_t len[] = { 0, 1, 2, 7, 8, 9, 12 };
	size_t l = any_size(6), a = any_size(7), b = any_size(7), i, n = len[l]; char *p = exact(n);
	VF_BEGIN(l, a, b);
	for(i = 0; i < n; i++) p[i] = cls[i % 3 == 0 ? a : i % 3 == 1 ? b : (i + 5) % 8];
	stringptr s = { p, n };
	uint32_t h = stringptr_hash(&s), want = elf((unsigned char*) p, n);
	//@ check value: h == want;
	VF_END(l, a, b);
}
void C03_hash_byte(void) {
	unsigned v = VF_ANY(0, 255); char *p = exact(1);
	//@ split v;
	VF_BEGIN(v);
	p[0] = (char) v;
	stringptr s = { p, 1 };
	uint32_t h = stringptr_hash(&s);
	//@ check value: h == v;
	VF_END(v);
}
/* equal content, whatever lies behind it, has equal hashes; every byte counts */
void C03_hash_content(void) {
	size_t n = any_size(3), z = VF_ANYSZ(0, n), i; char *p = exact(n), *q = termed(n);
	//@ split z;
	VF_BEGIN(n, z);
	distinct(p, n, z, 'A'); distinct(q, n, z, 'A');
	q[n] = VF_NONDET() ? 'Z' : 0;
	stringptr s = { p, n }, t = { q, n };
	uint32_t h = stringptr_hash(&s), g = stringptr_hash(&t);
	//@ check equal_content_equal_hash: h == g;
	for(i = 0; i < n; i++) {
		char o = q[i]; q[i] = o ^ 1;
		g = stringptr_hash(&t);
		//@ check every_byte_counts: h != g;
		q[i] = o;
	}
	VF_END(n, z);
}
static void fresh_is(stringptr *r, size_t n, char *src, stringptr *arg) {
	size_t i;
	//@ check fresh: r != \null && r != arg && r->ptr != src;
	//@ check size: r->size == n;
	for(i = 0; i < n; i++) {
		char a = r->ptr[i], b = src[i];
		//@ check content: a == b;
	}
	char t = r->ptr[n];
	//@ check terminated: t == 0;
}
void C03_copy(void) {
	size_t n = any_size(MAXS), z = VF_ANYSZ(0, n), i; char *p = exact(n); int op = VF_ANY(0, 2);
	//@ split z;
	//@ split op;
	VF_BEGIN(n, z, op);
	distinct(p, n, z, 'A');
	stringptr s = { p, n };
	int before = vf_live;
	vf_oom_on = 1;
	if(op == 0) {
		stringptr *r = stringptr_copy(&s);
		if(r) { fresh_is(r, n, p, &s);
			//@ check one_block: vf_live == before + 1;
			stringptr_free(r);
		} else {
			//@ check only_oom: vf_oom_hit;
		}
		r = stringptr_copy(0);
		//@ check null: r == \null;
	} else if(op == 1) {
		char *r = stringptr_strdup(&s);
		if(r) {
			for(i = 0; i < n; i++) {
				//@ check content: r[i] == p[i];
			}
			//@ check terminated: r[n] == 0 && r != p;
			vf_free(r);
		} else {
			//@ check only_oom: vf_oom_hit;
		}
		r = stringptr_strdup(0);
		//@ check null: r == \null;
	} else {
		stringptr *r = stringptr_new(n);
		if(r) {
			for(i = 0; i < n; i++) r->ptr[i] = 'x';   /* all n bytes are usable */
			//@ check fresh: r->size == n && r->ptr[n] == 0;
			stringptr_free(r);
			//@ check cleared: r == \null;
		} else {
			//@ check only_oom: vf_oom_hit;
		}
	}
	//@ check nothing_left: vf_live == before;
	for(i = 0; i < n; i++) { char w = i == z ? 0 : 'A' + i;
		//@ check source_untouched: p[i] == w;
	}
	VF_END(n, z, op);
}
void C03_concat(void) {
	size_t n = any_size(2), m = any_size(2), k = any_size(2), cnt = VF_ANYSZ(0, 2), i, t; stringptr *r;
	char *a = exact(n), *b = exact(m), *c = exact(k);
	//@ split cnt;
	VF_BEGIN(n, m, k, cnt);
	distinct(a, n, 1, 'A'); distinct(b, m, 0, 'K'); distinct(c, k, 9, 'S');
	stringptr x = { a, n }, y = { b, m }, z = { c, k };
	int before = vf_live;
	vf_oom_on = 1;
	if(cnt == 0) { r = stringptr_concat(&x, (stringptr*)0); m = k = 0; }
	else if(cnt == 1) { r = stringptr_concat(&x, &y, (stringptr*)0); k = 0; }
	else r = stringptr_concat(&x, &y, &z, (stringptr*)0);
	if(r) {
		t = n + m + k;
		//@ check size: r->size == t && vf_live == before + 1;
		for(i = 0; i < n; i++) {
			//@ check first: r->ptr[i] == a[i];
		}
		for(i = 0; i < m; i++) {
			//@ check second: r->ptr[n+i] == b[i];
		}
		for(i = 0; i < k; i++) {
			//@ check third: r->ptr[n+m+i] == c[i];
		}
		//@ check terminated: r->ptr[t] == 0;
	} else {
		//@ check only_oom: vf_oom_hit && vf_live == before;
	}
	n = x.size; m = y.size; k = z.size;
	VF_END(n, m, k, cnt);
}
void C03_fromchar(void) {
	size_t n = any_size(MAXS); char *p = termed(n); stringptr s, *r;
	VF_BEGIN(n);
	vf_any_cstr(p, n);
	r = stringptr_fromchar(p, &s);
	//@ check view: r == &s && s.ptr == p && s.size == n;
	r = stringptr_fromchar(0, &s);
	//@ check null: r == &s && s.ptr == \null && s.size == 0;
	SPDECLAREC(v, p);
	//@ check macro: v->ptr == p && v->size == n;
	stringptr *lit = SPL("abc");
	//@ check literal: lit->size == 3 && lit->ptr[3] == 0;
	VF_END(n);
}
/* the null-safe accessors and the literal constructors */
void C03_accessors(void) {
	size_t n = VF_ANYSZ(0, 3), r, k = VF_ANYSZ(0, 1); stringptr s, *p; char b[4] = "xyz", *q; static stringptr init = SPINITIALIZER("abc");
	//@ split n;
	//@ split k;
	VF_BEGIN(n, k);
	s.ptr = b; s.size = n; p = k ? &s : 0;
	r = stringptr_getsize_s(p);
	//@ check size_s: r == (k ? n : 0);
	q = stringptr_get_s(p);
	//@ check ptr_s: k ? q == &b[0] : q == \null;
	r = !!stringptr_empty_s(p);
	//@ check empty_s: r == (k && n ? 0 : 1);
	r = stringptr_getsize(&s) + 10 * !!stringptr_empty(&s);
	//@ check size: r == n + (n ? 0 : 10);
	q = stringptr_get(&s);
	//@ check ptr: q == &b[0];
	p = SPLITERAL("a\0b");
	//@ check literal: p->size == 3 && p->ptr[0] == 'a' && p->ptr[1] == 0 && p->ptr[2] == 'b';
	p = SPLITERAL("");
	//@ check empty_literal: p->size == 0 && p->ptr[0] == 0;
	p = SPMAKE(b + 1, n ? n - 1 : 0);
	//@ check make: p->ptr == &b[1] && p->size == (n ? n - 1 : 0);
	//@ check initializer: init.size == 3 && init.ptr[2] == 'c' && init.ptr[3] == 0;
	p = SPNIL;
	stringptr_free(p);
	//@ check nil: p == \null;
	p = stringptr_new(n);
	stringptr_free(p);
	//@ check freed_and_cleared: p == \null && vf_live == 0;
	VF_END(n, k);
}
