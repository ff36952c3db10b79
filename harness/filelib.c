/* C01, C05, C29: paths and temporary directories. */
#include "vf.h"
#include <string.h>
#include <errno.h>
#include "filelib.h"
#include "stringptr.h"
#ifdef VF_THOROUGH
#define PL 7
#define DL 5
#else
#define PL 6
#define DL 4
#endif
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static char *exact(size_t n) { char *b = vf_malloc(n + 1); return b + 1; }
/* path of n characters: slash, dot, or a letter (a different one at each place) */
static void gen(char *p, size_t n, int dots) {
	size_t i, k;
	for(i = 0; i < n; i++) { k = any_size(0, dots ? 2 : 1); p[i] = k == 0 ? '/' : k == 1 ? 'a' + i : '.'; }
	p[n] = 0;
}
/* reference: components, '.' and empty ones dropped, '..' drops its parent; -1 above the root */
static long ref(const char *p, size_t n, char *out) {
	size_t o = 0, i = 0, s, j;
	if(!n || p[0] != '/') return -1;
	while(i < n) {
		while(i < n && p[i] == '/') i++;
		s = i;
		while(i < n && p[i] != '/') i++;
		if(i == s || (i - s == 1 && p[s] == '.')) continue;
		if(i - s == 2 && p[s] == '.' && p[s + 1] == '.') {
			if(!o) return -1;
			while(out[o - 1] != '/') o--;
			o--;
			continue;
		}
		out[o++] = '/';
		for(j = s; j < i; j++) out[o++] = p[j];
	}
	if(!o) out[o++] = '/';
	return o;
}
static void norm_one(size_t n, int cstr) {
	size_t i; char *p, *d, want[16], old[16]; long w; stringptr s; int r;
	p = exact(n + 1);
	gen(p, n, 1);
	for(i = 0; i <= n; i++) old[i] = p[i];
	char c1 = n > 1 ? p[1] : 0, c2 = n > 2 ? p[2] : 0, c3 = n > 3 ? p[3] : 0, c4 = n > 4 ? p[4] : 0;
	VF_BEGIN(n, c1, c2, c3, c4);
	w = ref(old, n, want);
	if(cstr) {
		d = exact(n + 1);
		char *q = normalizepath_cstr(p, d);
		//@ check accepted: w >= 0 ==> q == d;
		//@ check refused: w < 0 ==> q == \null;
		if(w >= 0) for(i = 0; i < w; i++) {
			//@ check text: d[i] == want[i];
		}
		if(w >= 0) {
			//@ check terminated: d[w] == 0;
		}
		for(i = 0; i <= n; i++) {
			//@ check input_unchanged: p[i] == old[i];
		}
	} else {
		s.ptr = p; s.size = n;
		r = normalizepath(&s);
		//@ check accepted2: r == (w >= 0 ? 1 : 0);
		//@ check in_place: s.ptr == p;
		if(w >= 0) {
			//@ check size: s.size == w;
			for(i = 0; i < w; i++) {
				//@ check text2: p[i] == want[i];
			}
			//@ check terminated2: p[w] == 0;
		} else {
			//@ check size_kept: s.size == n;
			for(i = 0; i <= n; i++) {
				//@ check failure_unchanged: p[i] == old[i];
			}
		}
	}
	VF_END(n, c1, c2, c3, c4);
}
void C05_normalizepath(void) { norm_one(any_size(0, PL), 0); }
void C05_normalizepath_cstr(void) { norm_one(any_size(0, PL), 1); }
/* one more shape: longer names, several components */
static void norm_long(int cstr) {
	static const char *const el[] = { "/", "/.", "/..", "/bc", "/.d", "/..e", "/f.", "/...", "/g..", "//" };
	size_t a = any_size(0, 9), b = any_size(0, 9), c = any_size(0, 9), n = 0, i; char *p, *d, want[24], old[24]; const char *q; long w;
	VF_BEGIN(a, b, c);
	for(q = "/x"; *q; q++) old[n++] = *q;
	for(q = el[a]; *q; q++) old[n++] = *q;
	for(q = el[b]; *q; q++) old[n++] = *q;
	for(q = el[c]; *q; q++) old[n++] = *q;
	old[n] = 0;
	p = exact(n + 1);
	for(i = 0; i <= n; i++) p[i] = old[i];
	w = ref(old, n, want);
	if(cstr) {
		char *r; d = exact(n + 1);
		r = normalizepath_cstr(p, d);
		//@ check result: r == (w >= 0 ? d : (char*)0);
	} else {
		stringptr s; int r; s.ptr = p; s.size = n; d = p;
		r = normalizepath(&s);
		//@ check result2: r == (w >= 0 ? 1 : 0);
		//@ check size: s.size == (w >= 0 ? w : n);
	}
	if(w >= 0) {
		for(i = 0; i < w; i++) {
			//@ check text: d[i] == want[i];
		}
		//@ check terminated: d[w] == 0;
	}
	VF_END(a, b, c);
}
void C05_normalizepath_components(void) { norm_long(0); }
void C05_normalizepath_cstr_components(void) { norm_long(1); }
/* around the size of the internal buffer */
// opts: -eva-auto-loop-unroll 9000
void C05_normalizepath_long(void) {
	size_t k = any_size(0, 4), n, i; char *p; stringptr s; int r;
	VF_BEGIN(k);
	n = k == 4 ? 8000 : 4094 + k;
	p = exact(n + 1);
	memset(p, 'a', n); p[0] = '/'; p[n] = 0;
	s.ptr = p; s.size = n;
	r = normalizepath(&s);
	if(n > 4096) {
		//@ check refused: r == 0;
	}
	if(n < 4096) {
		//@ check accepted: r == 1;
	}
	//@ check kept: s.size == n && p[n] == 0 && p[n - 1] == 'a' && p[0] == '/';
	VF_END(k);
}
void C05_getpathdiff(void) {
	size_t n = any_size(1, DL), m = any_size(1, DL), i; char *p, *q, *wb, a[16], b[16], oa[16], ob[16]; long la, lb, want; stringptr s, t; ssize_t r;
	p = exact(n + 1); q = exact(m + 1);
	p[0] = q[0] = '/';
	for(i = 1; i < n; i++) { size_t k = any_size(0, 2); p[i] = k == 0 ? '/' : k == 1 ? 'a' : 'b'; }
	for(i = 1; i < m; i++) { size_t k = any_size(0, 2); q[i] = k == 0 ? '/' : k == 1 ? 'a' : 'b'; }
	p[n] = q[m] = 0;
	VF_BEGIN(n, m);
	la = ref(p, n, a); lb = ref(q, m, b);
	if(la == 1) la = 0;                 /* the root is the empty prefix */
	want = -1;
	if(lb >= la) {
		for(i = 0; i < la && a[i] == b[i]; i++) ;
		if(i == la && (lb == la || b[la] == '/')) want = lb - la;
	}
	wb = exact(m + 1);
	s.ptr = p; s.size = n; t.ptr = q; t.size = m;
	r = getpathdiff(&s, &t, wb);
	//@ check result: r == want;
	if(want >= 0) {
		for(i = 0; i < want; i++) {
			//@ check rest: wb[i] == b[la + i];
		}
		//@ check terminated: wb[want] == 0;
	}
	VF_END(n, m);
}
void C05_getfilename(void) {
	size_t n = any_size(0, DL), i, pos = 0, f = 0; char *p = exact(n), *r; stringptr s;
	for(i = 0; i < n; i++) { size_t k = any_size(0, 1); p[i] = k ? 'a' : '/'; if(!k) { f = 1; pos = i + 1; } }
	VF_BEGIN(n, f, pos);
	s.ptr = p; s.size = n;
	r = getfilename(&s);
	//@ check behind_last_slash: r == (f ? p + pos : (char*)0);
	VF_END(n, f, pos);
}

/* ---- temporary directories --------------------------------------------- */
static int md_calls, md_made, md_mode, md_coll, md_last; static const char *md_path; static char md_name[40]; static int md_first[2];
int vf_rand(void) { return VF_ANY(0, 2147483647); }
long vf_random(void) { return Frama_C_long_interval(0, 2147483647); }
static int md_dev, md_tmp, md_order; static char md_dir;
int vf_mkdir(const char *p, mode_t m) {
	int k;
	md_calls++; md_path = p;
	//@ check private_mode: m == 0700;
	if(md_last == 2 && md_dir == p[1]) {
		//@ check retries_only_on_collision: md_last != 2;
		Frama_C_abort();
	}
	md_dir = p[1];
	if(p[0] == '/' && p[1] == 'd') { md_dev++; if(md_tmp) md_order = 1; }
	if(p[0] == '/' && p[1] == 't') md_tmp++;
	//@ check creates_only_once: md_made == 0;
	k = VF_ANY(0, 2);
	//@ split k;
	if(k == 1 && md_coll < 2) { md_coll++; errno = EEXIST; md_last = 1; return -1; }
	if(k == 2) { errno = VF_NONDET() ? VF_ANY(1, EEXIST - 1) : VF_ANY(EEXIST + 1, 133); md_last = 2; return -1; }
	md_made++; md_last = 0;
	return 0;
}
static int alnum(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
void C29_mkdtemp(void) {
	size_t n = any_size(0, 9), i; char *t = exact(n + 1), *r; int e;
	for(i = 0; i < n; i++) t[i] = '!' + i;
	t[n] = 0;
	VF_BEGIN(n);
	r = ulz_mkdtemp(t);
	if(n < 6) {
		//@ check too_short: r == \null && md_calls == 0;
		e = errno;
		//@ check einval: e == EINVAL;
		for(i = 0; i < n; i++) {
			//@ check template_kept: t[i] == '!' + i;
		}
	} else {
		//@ check where: md_path == t;
		//@ check result: r == t || r == \null;
		//@ check made_iff_success: (r == t) == (md_made == 1);
		if(!r) {
			//@ check gives_up_only_on_other_errors: md_last == 2;
		}
		for(i = 0; i < n - 6; i++) {
			//@ check front_kept: t[i] == '!' + i;
		}
		for(i = n - 6; i < n; i++) { int c = t[i], ok;
			//@ split c;
			ok = alnum(c);
			//@ check alphanumeric: ok;
		}
	}
	//@ check terminated: t[n] == 0;
	VF_END(n);
}
/* the random part uses the whole alphabet and each draw */
void C29_mktempdir(void) {
	size_t pl = any_size(0, 3), k = any_size(0, 5), need, sz, i, r, o; char *b, *pre = exact(pl + 1); const char *d;
	for(i = 0; i < pl; i++) pre[i] = 'p' + i;
	pre[pl] = 0;
	VF_BEGIN(pl, k);
	need = 9 + pl + 7;
	sz = k == 0 ? 0 : k == 1 ? 9 + pl : k == 2 ? need - 1 : k == 3 ? need : k == 4 ? need + 1 : need + 5;
	b = exact(sz);
	r = mktempdir(pre, b, sz);
	if(sz < need) {
		//@ check too_small: r == 0 && md_calls == 0;
	} else {
		//@ check shm_first: md_dev > 0 && md_order == 0;
		//@ check made_iff_success: (r != 0) == (md_made == 1);
		if(!r) {
			//@ check tried_both: md_tmp > 0;
		} else {
			d = md_tmp ? "/tmp/" : "/dev/shm/";
			for(o = 0; d[o]; o++) {
				//@ check directory: b[o] == d[o];
			}
			for(i = 0; i < pl; i++, o++) {
				//@ check prefix: b[o] == 'p' + i;
			}
			for(i = 0; i < 6; i++, o++) { int c = b[o];
				//@ check random_part: '0' <= c <= '9' || 'A' <= c <= 'Z' || 'a' <= c <= 'z';
			}
			//@ check terminated: b[o] == 0;
			//@ check length: r == o;
			//@ check created: md_path == b;
		}
	}
	VF_END(pl, k);
}
void C01_mktempdir(void) { C29_mktempdir(); }
