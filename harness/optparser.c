/* C32: option lookup in an argument vector. */
#include "vf.h"
#include <string.h>
#include "optparser.h"
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static const char *const texts[] = { "", "-", "--", "-a", "--a", "-ab", "--ab", "-a=x", "--ab==y", "-ab=", "-abab=c", "ab=1", "-=", "--a=z", "-aba", "---ab", "-ab=-ab=q", "=-a", "-b", "a" };
#ifdef VF_THOROUGH
#define NT 20
#else
#define NT 16
#endif
static const char *const names[] = { "a", "ab", "aba", "b" };
static size_t len(const char *s) { size_t n = 0; while(s[n]) n++; return n; }
static char *exact(const char *s) { size_t n = len(s), i; char *b = vf_malloc(n + 1); for(i = 0; i <= n; i++) b[i] = s[i]; return b; }
static const char *skip(const char *t, size_t nl) { if(*t != '-') return 0; t++; if(nl > 1 && *t == '-') t++; return t; }
static int is(const char *s, const char *name) { size_t i; for(i = 0; name[i] && s[i] == name[i]; i++) ; return !name[i] && !s[i]; }
static int pre(const char *s, const char *name) { size_t i; for(i = 0; name[i] && s[i] == name[i]; i++) ; return !name[i] && s[i] == '='; }
static char *av[4]; static const char *tx[4]; static op_state op; static stringptr nm;
static void vec(size_t n, size_t a, size_t b, size_t k, size_t first) {
	size_t i; char **v;
	tx[0] = first ? "-ab" : "prog"; tx[1] = texts[a]; tx[2] = texts[b];
	v = vf_malloc((n + 1) * sizeof *v);         /* exactly the arguments: nothing behind argc is readable */
	for(i = 0; i <= n; i++) { av[i] = exact(tx[i]); v[i] = av[i]; }
	nm.ptr = exact(names[k]); nm.size = len(names[k]);
	op_init(&op, n + 1, v);
}
void C32_op_get(void) {
	size_t n = any_size(0, 2), a = any_size(0, NT - 1), b = any_size(0, NT - 1), k = any_size(0, 2), f = any_size(0, 1), i; const char *s; char *r, *w = 0; int found = 0;
	if((n < 2 && b) || (n < 1 && a) || (f && k != 1)) return;
	VF_BEGIN(n, a, b, k, f);
	vec(n, a, b, k, f);
	for(i = 1; i <= n && !found; i++) {
		s = skip(tx[i], nm.size);
		if(!s) continue;
		if(pre(s, names[k])) { w = av[i] + (s - tx[i]) + nm.size + 1; found = 1; }
		else if(is(s, names[k]) && i < n) { w = av[i + 1]; found = 1; }
	}
	r = op_get(&op, &nm);
	//@ check value: r == w;
	for(i = 0; i <= n; i++) { int e = is(av[i], tx[i]);
		//@ check arguments_unchanged: e == 1;
	}
	VF_END(n, a, b, k, f);
}
void C32_op_hasflag(void) {
	size_t n = any_size(0, 2), a = any_size(0, NT - 1), b = any_size(0, NT - 1), k = any_size(0, 2), f = any_size(0, 1), i; const char *s; int r, w = 0;
	if((n < 2 && b) || (n < 1 && a) || (f && k != 1)) return;
	VF_BEGIN(n, a, b, k, f);
	vec(n, a, b, k, f);
	for(i = 1; i <= n; i++) { s = skip(tx[i], nm.size); if(s && is(s, names[k])) w = 1; }
	r = op_hasflag(&op, &nm);
	//@ check flag: (r != 0) == w;
	for(i = 0; i <= n; i++) { int e = is(av[i], tx[i]);
		//@ check arguments_unchanged: e == 1;
	}
	VF_END(n, a, b, k, f);
}
/* one argument of arbitrary characters */
void C32_any_text(void) {
	size_t n = any_size(0, 3), k = any_size(0, 1), i; char *t = vf_malloc(n + 1), *r, *w = 0; const char *s; char *v[2]; int h;
	for(i = 0; i < n; i++) { size_t q = any_size(0, 4); t[i] = q == 0 ? '-' : q == 1 ? '=' : q == 2 ? 'a' : q == 3 ? 'b' : (char)VF_ANY('c', 'z'); }
	t[n] = 0;
	VF_BEGIN(n, k);
	v[0] = "p"; v[1] = t;
	nm.ptr = exact(names[k]); nm.size = k + 1;
	op_init(&op, 2, v);
	s = skip(t, nm.size);
	if(s && pre(s, names[k])) w = t + (s - t) + nm.size + 1;
	r = op_get(&op, &nm);
	//@ check value: r == w;
	h = op_hasflag(&op, &nm);
	i = s ? is(s, names[k]) : 0;
	//@ check flag: (h != 0) == i;
	VF_END(n, k);
}
#include <fcntl.h>
#include "vf_sys.h"
void C22_op_printall(void) {
	size_t n = any_size(0, 2), a = any_size(0, 3), i, j, at = 0;
	VF_BEGIN(n, a);
	vec(n, a, 8, 0, 0);
	vf_fdstate[1] = 1; vf_fdflags[1] = O_WRONLY;
	op_printall(&op);
	for(i = 1; i <= n; i++) {
		for(j = 0; tx[i][j]; j++) {
			//@ check text: vf_out[at] == tx[i][j];
			at++;
		}
		//@ check newline: vf_out[at] == '\n';
		at++;
	}
	//@ check complete: vf_outlen == at;
	VF_END(n, a);
}
/* long argument vectors: every argument counts */
void C32_many(void) {
	static const int N[] = { 1, 2, 255, 256, 257, 300 }; size_t k = any_size(0, 5), w = any_size(0, 2), i; int n = N[k], r; char **v = vf_malloc(n * sizeof *v); char *g;
	VF_BEGIN(k, w);
	for(i = 0; i < n; i++) v[i] = "x";
	if(w) v[n - 1] = w == 1 ? "-b" : "-b=q";
	op_init(&op, n, v);
	nm.ptr = exact("b"); nm.size = 1;
	r = op_hasflag(&op, &nm);
	//@ check last_argument_seen: (r != 0) == (n > 1 && w == 1 ? 1 : 0);
	g = op_get(&op, &nm);
	//@ check last_value_found: n > 1 && w == 2 ? g == v[n - 1] + 3 : g == \null;
	op_init(&op, 2147483647, v);
	//@ check whole_count: op.argc == 2147483647 && op.argv == v;
	op_init(&op, 65537, v);
	//@ check whole_count: op.argc == 65537;
	VF_END(k, w);
}
