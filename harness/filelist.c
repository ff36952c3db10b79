/* C14, C19: directory search; glob is a model that records the pattern and returns any list. */
#include "vf.h"
#include <string.h>
#include <glob.h>
#include "filelist.h"
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static char pat[4200]; static int g_calls, g_state, g_flags, g_err; static size_t g_n; static char *g_paths[3];
static const char *const res[] = { "./a", "./b/", "././", "./../", "./.h", "x/..c/", "x/y/.d/" };
static char *dupl(const char *s) { size_t n = 0, i; char *r; while(s[n]) n++; r = vf_malloc(n + 1); for(i = 0; i <= n; i++) r[i] = s[i]; return r; }
static size_t g_a, g_b; static int g_fails;
int vf_glob(const char *p, int flags, int (*f)(const char*, int), glob_t *g) {
	size_t i;
	for(i = 0; p[i]; i++) pat[i] = p[i];
	pat[i] = 0;
	g_calls++; g_flags = flags;
	if(g_fails && VF_NONDET()) { g_err = 1; return VF_NONDET() ? GLOB_ABORTED : GLOB_NOMATCH; }
	g->gl_pathc = g_n; g->gl_pathv = g_paths; g_state = 1;
	return 0;
}
void vf_globfree(glob_t *g) {
	//@ check globfree_of_owned_result: g_state == 1;
	g_state = 2;
}
static filelist fl;
/* the pattern */
void C19_pattern(void) {
	size_t n = any_size(0, 3), k = any_size(0, 1), i, w = 0, hid = any_size(0, 1); char d[3], want[16]; stringptr dir, mask; int r; char *dp, *mp;
	for(i = 0; i < n; i++) { size_t q = any_size(0, 4); d[i] = q == 0 ? '/' : q == 1 ? '[' : q == 2 ? '?' : q == 3 ? '*' : 'a'; }
	VF_BEGIN(n, k, hid);
	for(i = 0; i < n; i++) { if(d[i] == '[' || d[i] == '?' || d[i] == '*') want[w++] = '\\'; want[w++] = d[i]; }
	if(!n) { want[w++] = '.'; want[w++] = '/'; }
	if(want[w - 1] != '/') want[w++] = '/';
	want[w++] = '*'; if(k) want[w++] = '[';
	dp = vf_malloc(n + 1); dp++; for(i = 0; i < n; i++) dp[i] = d[i];
	mp = vf_malloc(k + 2); mp++; mp[0] = '*'; if(k) mp[1] = '[';
	dir.ptr = dp; dir.size = n; mask.ptr = mp; mask.size = 1 + k;
	r = filelist_search(&fl, n ? &dir : k ? &dir : 0, &mask, hid ? FLF_INCLUDE_HIDDEN : 0);
	//@ check ok: r == 0;
	//@ check once: g_calls == 1;
	for(i = 0; i < w; i++) {
		//@ check pattern: pat[i] == want[i];
	}
	//@ check terminated: pat[w] == 0;
	//@ check marked: (g_flags & GLOB_MARK) != 0;
	//@ check hidden: ((g_flags & GLOB_PERIOD) != 0) == (hid != 0);
	VF_END(n, k, hid);
}
/* names near the size of the internal buffer, with and without characters to escape */
// opts: -eva-auto-loop-unroll 9000
// timeout: 300
void C19_long(void) {
	size_t k = any_size(0, 5), esc = any_size(0, 1), m = any_size(1, 2), n, i; stringptr dir, mask; char *d, mk[4]; int r;
	VF_BEGIN(k, esc, m);
	n = esc ? 2045 + k : 4090 + k;
	d = vf_malloc(n); memset(d, esc ? '*' : 'a', n);
	for(i = 0; i < m; i++) mk[i] = 'm';
	dir.ptr = d; dir.size = n; mask.ptr = mk; mask.size = m;
	r = filelist_search(&fl, &dir, &mask, 0);
	//@ check rejected_or_searched: r == 0 ? g_calls == 1 : r == -1 && g_calls == 0;
	n = esc ? 2 * n : n;
	if(n + 1 + m + 1 > 4096) {
		//@ check too_long: r == -1;
	}
	if(n + m < 4085) {
		//@ check fits: r == 0;
	}
	if(!r) {
		//@ check ends: pat[n] == '/' && pat[n + 1] == 'm' && pat[n + m] == 'm' && pat[n + 1 + m] == 0;
	}
	VF_END(k, esc, m);
}
/* a character to escape as the last one, at every distance from the end of the internal buffer */
// opts: -eva-auto-loop-unroll 9000
// timeout: 300
void C19_long_last(void) {
	size_t k = any_size(0, 2), early = any_size(0, 5), n, i, w, slash = 0; stringptr dir, mask; char *d, mk[2]; int r;
	VF_BEGIN(k, early, slash);
	n = 4091 + k;
	d = vf_malloc(n); memset(d, 'a', n);
	for(i = 0; i < early; i++) d[2 * i + 1] = '[';
	if(slash) d[n - 1] = '/'; else d[n - 1] = '*';
	mk[0] = 'm';
	dir.ptr = d; dir.size = n; mask.ptr = mk; mask.size = 1;
	r = filelist_search(&fl, &dir, &mask, 0);
	//@ check rejected_or_searched: r == 0 ? g_calls == 1 : r == -1 && g_calls == 0;
	w = n + early + 1;   /* the escaped name, with its slash */
	if(!slash) w++;
	if(slash) w--;
	if(w + 1 + 1 > 4096) {
		//@ check too_long: r == -1;
	}
	if(!r) {
		//@ check ends: pat[w - 1] == '/' && pat[w] == 'm' && pat[w + 1] == 0;
	}
	VF_END(k, early, slash);
}
void C19_huge(void) {
	stringptr dir, mask; char d[4], m[4]; int r;
	VF_BEGIN(0);
	dir.ptr = d; d[0] = d[1] = d[2] = d[3] = 'a'; m[0] = 'b'; mask.ptr = m;
	dir.size = 4; mask.size = 0;
	r = filelist_search(&fl, &dir, &mask, 0);
	//@ check empty_mask: r == -1;
	r = filelist_search(0, &dir, &mask, 0);
	//@ check null_list: r == -1;
	r = filelist_search(&fl, &dir, 0, 0);
	//@ check null_mask: r == -1;
	mask.size = Frama_C_unsigned_long_interval(4096, 1UL << 40);
	r = filelist_search(&fl, &dir, &mask, 0);
	//@ check huge_mask: r == -1 && g_calls == 0;
	VF_END(0);
}
/* the list */
static size_t slen(const char *s) { size_t n = 0; while(s[n]) n++; return n; }
static int eq(const char *a, const char *b) { size_t i; for(i = 0; a[i] && a[i] == b[i]; i++) ; return a[i] == b[i]; }
static const char *base(const char *s) { size_t n = slen(s), i = n; if(s[i - 1] == '/') i--; while(i && s[i - 1] != '/') i--; return s + i; }
static void results(int content, int fail) {
	size_t n = any_size(0, 2), a = any_size(0, 6), b = any_size(0, 6), fl_ = any_size(0, 15), i, j, w = 0; const char *want[6]; stringptr dir, mask; int r, live; stringptr *s;
	if((n < 2 && b) || (n < 1 && a)) return;
	VF_BEGIN(n, a, b, fl_);
	g_n = n;
	if(n > 0) g_paths[0] = dupl(res[a]);
	if(n > 1) g_paths[1] = dupl(res[b]);
	if(!(fl_ & FLF_INCLUDE_HIDDEN)) {
		if(fl_ & FLF_INCLUDE_DOT) want[w++] = "./";
		if(fl_ & FLF_INCLUDE_DOT_DOT) want[w++] = "../";
	}
	for(i = 0; i < n; i++) {
		const char *p = res[i ? b : a], *q = base(p);
		if((fl_ & FLF_INCLUDE_HIDDEN) && !(fl_ & FLF_INCLUDE_DOT) && eq(q, "./")) continue;
		if((fl_ & FLF_INCLUDE_HIDDEN) && !(fl_ & FLF_INCLUDE_DOT_DOT) && eq(q, "../")) continue;
		want[w++] = fl_ & FLF_EXCLUDE_PATH ? q : p;
	}
	mask.ptr = "*"; mask.size = 1;
	live = vf_live; vf_oom_on = fail; g_fails = fail;
	r = filelist_search(&fl, 0, &mask, fl_);
	vf_oom_on = 0;
	if(r) {
		//@ check failed_for_reason: g_err || vf_oom_hit;
		//@ check glob_error_passed: g_err ==> r != 0 && r != -1;
		//@ check nothing_owned: vf_live == live && g_state != 1;
	} else {
		//@ check no_error: !g_err && !vf_oom_hit;
		//@ check owned: g_state == 1;
		if(content) {
			size_t cnt = stringptrlist_getsize(fl.files);
			//@ check count: cnt == w;
			for(i = 0; i < w; i++) {
				size_t l = slen(want[i]);
				s = stringptrlist_get(fl.files, i);
				//@ check size: s->size == l;
				for(j = 0; j < l; j++) {
					//@ check text: s->ptr[j] == want[i][j];
				}
				//@ check terminated: s->ptr[l] == 0;
			}
		}
		filelist_free(&fl);
		//@ check released: vf_live == live && g_state == 2;
	}
	VF_END(n, a, b, fl_);
}
void C19_results(void) { results(1, 0); }
void C19_failures(void) { results(0, 1); }
void C14_filelist(void) { results(0, 1); }
