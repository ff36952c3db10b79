/* C01, C22, C23: formatting into a bounded buffer and to a descriptor. */
#include "vf.h"
#include "vf_sys.h"
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include "format.h"
#include "strlib.h"
#include "logger.h"
#include "stringptr.h"
#ifdef VF_THOROUGH
#define FLEN 4
#define SMAX 9
#else
#define FLEN 3
#define SMAX 6
#endif
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
/* any byte but NUL and 's' (for a directive every argument is an 8-byte number) */
static char fch(void) { char c = Frama_C_char_interval(-128, 127); return c == 0 ? 1 : c == 's' ? 't' : c; }

/* arbitrary format bytes, arbitrary numeric arguments, arbitrary size */
void C01_any_format(void) {
	size_t n = any_size(0, FLEN), sz = any_size(0, SMAX), i, len; char f[8]; char *b; ssize_t r;
	unsigned long v = VF_NONDET() ? 7 : -1UL;
	//@ split v;
	for(i = 0; i < n; i++) f[i] = fch();
	f[n] = 0;
	VF_BEGIN(n, sz, v);
	b = vf_malloc(sz + 1); b++;
	r = ulz_snprintf(b, sz, f, v, v, v, v, v);
	//@ check result_range: r == -1 || r >= 0;
	if(r >= 0 && sz) {
		//@ check fits: r < sz;
		//@ split r;
		i = r;
		//@ check terminated: b[i] == 0;
	}
	if(!sz) {
		//@ check nothing: r == -1 || r == 0;
	}
	VF_END(n, sz, v);
}
/* text directives: the result is the prefix of the full text that fits, and NULL measures it */
void C01_text(void) {
	size_t l = any_size(0, 3), sz = any_size(0, 11), i, k = VF_ANYSZ(0, 3), wl = 0, cut; char s[4], want[16], *b, *h; ssize_t r, m;
	const char *f;
	//@ split k;
	for(i = 0; i < l; i++) s[i] = 'A' + i;
	s[l] = 0;
	VF_BEGIN(l, sz, k);
	if(k == 0) f = "a%s%%b%cc";
	else if(k == 1) f = "%s%c";
	else if(k == 2) f = "%%%s%c%%";
	else f = "%sxyz%c";
	if(k == 0) want[wl++] = 'a';
	if(k == 2) want[wl++] = '%';
	for(i = 0; i < l; i++) want[wl++] = s[i];
	if(k == 0) { want[wl++] = '%'; want[wl++] = 'b'; }
	if(k == 3) { want[wl++] = 'x'; want[wl++] = 'y'; want[wl++] = 'z'; }
	want[wl++] = 'q';
	if(k == 0) want[wl++] = 'c';
	if(k == 2) want[wl++] = '%';
	h = vf_malloc(sz + 2); h[0] = 0x55; h[sz + 1] = 0x66; b = h + 1;
	for(i = 0; i < sz; i++) b[i] = 0x77;
	r = ulz_snprintf(b, sz, f, s, 'q');
	cut = sz == 0 ? 0 : wl < sz ? wl : sz - 1;
	//@ check length: r == cut;
	for(i = 0; i < cut; i++) {
		//@ check prefix: b[i] == want[i];
	}
	if(sz) {
		//@ check terminated: b[cut] == 0;
	}
	//@ check before: h[0] == 0x55;
	//@ check behind: h[sz + 1] == 0x66;
	m = ulz_snprintf(0, sz, f, s, 'q');
	//@ check measure: m == wl;
	r = ulz_snprintf(b, sz, "a%s", (char*)0);
	//@ check null_string: r == -1;
	VF_END(l, sz, k);
}
/* %c of any byte and the width limits */
void C01_width(void) {
	size_t k = any_size(0, 5), i, w = 0; char f[12]; char d1 = Frama_C_char_interval('0', '9'), d2 = Frama_C_char_interval('0', '9'); char b[40]; ssize_t r;
	unsigned long v = VF_NONDET() ? 7 : -1UL;
	//@ split v;
	//@ split d1;
	//@ split d2;
	VF_BEGIN(k, d1, d2, v);
	i = 0; f[i++] = '%'; f[i++] = '.';
	if(k >= 1) { f[i++] = d1; w = d1 - '0'; }
	if(k >= 2) { f[i++] = d2; w = w * 10 + d2 - '0'; }
	if(k >= 4) { f[i++] = '0'; w = w * 10; }
	f[i++] = k % 2 ? 'x' : 'd'; f[i++] = 0;
	b[34] = 0x66;
	r = ulz_snprintf(b, 34, f, v);
	if(k == 0) {
		//@ check no_digits: r == -1;
	} else {
		//@ check result: r == -1 || r >= 1;
		//@ check fits: r < 34;
	}
	//@ check behind: b[34] == 0x66;
	VF_END(k, d1, d2, v);
}
void C01_stringptr_format(void) {
	size_t k = any_size(0, 4); stringptr *r; char big[1200]; size_t i;
	VF_BEGIN(k);
	size_t l = k == 0 ? 0 : k == 1 ? 3 : k == 2 ? 999 : k == 3 ? 1000 : 1100;
	for(i = 0; i < l; i++) big[i] = 'A';
	big[l] = 0;
	vf_oom_on = 1;
	r = stringptr_format("%s", big);
	if(!r) {
		//@ check fails_only_without_memory: vf_oom_hit == 1;
		//@ check nothing_left: vf_live == 0;
	} else {
		size_t want = l < 1000 ? l : 999;
		//@ check length: r->size == want;
		//@ check terminated: r->ptr[want] == 0;
		for(i = 0; i < want; i++) {
			//@ check content: r->ptr[i] == 'A';
		}
		stringptr_free(r);
		//@ check freed: vf_live == 0;
	}
	vf_oom_on = 0;
	r = stringptr_format("%q", 1);
	//@ check bad_directive: r == \null;
	//@ check bad_directive_leak: vf_live == 0;
	r = stringptr_format(0);
	//@ check null: r == \null;
	VF_END(k);
}

void C13_stringptr_format(void) { C01_stringptr_format(); }
/* ---- C23 ------------------------------------------------------------- */
static void ref_uns(uint64_t v, unsigned base, int lower, size_t width, char *out, size_t *o) {
	char t[24]; size_t n = 0;
	do { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : (lower ? 'a' : 'A') + d - 10; v /= base; } while(v);
	while(width > n) { out[(*o)++] = '0'; width--; }
	while(n) out[(*o)++] = t[--n];
}
static void ref_sig(uint64_t v, size_t width, char *out, size_t *o) {
	if(v >> 63) { out[(*o)++] = '-'; v = ~v + 1; }
	ref_uns(v, 10, 0, width, out, o);
}
static const char *const dir[] = { "%d", "%u", "%x", "%X", "%ld", "%lu", "%lld", "%llu", "%zd", "%zu", "%p", "%.11d", "%.8x", "%.12u", "%.20lu", "%c", "%%", "%.10X" , "%s"};
static const char text[] = "T";
/* the reference text of directive k for argument v; 1 if it uses an argument */
static int ref(size_t k, unsigned long v, char *out, size_t *o) {
	switch(k) {
		case 0: ref_sig((int64_t)(int32_t)v, 0, out, o); break;
		case 1: ref_uns((uint32_t)v, 10, 0, 0, out, o); break;
		case 2: ref_uns((uint32_t)v, 16, 1, 0, out, o); break;
		case 3: ref_uns((uint32_t)v, 16, 0, 0, out, o); break;
		case 4: case 6: case 8: ref_sig(v, 0, out, o); break;
		case 5: case 7: case 9: ref_uns(v, 10, 0, 0, out, o); break;
		case 10: ref_uns(v, 16, 0, 0, out, o); break;
		case 11: ref_sig((int64_t)(int32_t)v, 11, out, o); break;
		case 12: ref_uns((uint32_t)v, 16, 1, 8, out, o); break;
		case 13: ref_uns((uint32_t)v, 10, 0, 12, out, o); break;
		case 14: ref_uns(v, 10, 0, 20, out, o); break;
		case 15: out[(*o)++] = (char)v; break;
		case 16: out[(*o)++] = '%'; return 0;
		case 17: ref_uns((uint32_t)v, 16, 0, 10, out, o); break;
		case 18: out[(*o)++] = 'T'; break;
	}
	return 1;
}
/* unknown and incomplete directives, and a NULL string, wherever they are */
void C23_failures(void) {
	static const char *const bad[] = { "%s", "%", "%.", "%.d", "%.5", "%.5.", "%l", "%ll", "%z", "%lx", "%zx", "%ls", "%q", "%-d", "%5d", "% d", "%+d", "%#x", "%i", "%D", "%S", "%P", "%U", "%lc", "%.xd", "%hd", "%n", "%e", "%f" };
	size_t k = any_size(0, sizeof bad / sizeof *bad - 1), pre = any_size(0, 2), post = any_size(0, 1), size = any_size(0, 1), n = 0, i; char f[24], out[40]; const char *q; ssize_t r;
	VF_BEGIN(k, pre, post, size);
	if(pre) { f[n++] = 'a'; if(pre == 2) { f[n++] = '%'; f[n++] = 'd'; } }
	for(q = bad[k]; *q; q++) f[n++] = *q;
	if(post) f[n++] = '|';   /* no directive ends in it, so it completes none */
	f[n] = 0;
	if(pre == 2) r = ulz_snprintf(size ? out : 0, size ? sizeof out : 0, f, 42, (char*) 0);
	else r = ulz_snprintf(size ? out : 0, size ? sizeof out : 0, f, (char*) 0);
	//@ check refused: r == -1;
	VF_END(k, pre, post, size);
}
static unsigned long value(size_t i) {
	switch(i) {
		case 0: return 0x1234567800000000UL;
		case 1: return 0xdeadbeef00000041UL;
		case 2: return 0x000000007fffffffUL;
		case 3: return 0xdeadbeef80000001UL;
		case 4: return ~0UL;
		case 5: return 0x8000000000000000UL + 0x43;
		case 6: return 0x0123456789abcdefUL;
	}
	return 10000000042UL;
}
static void cat(char *f, size_t *n, const char *s) { while(*s) f[(*n)++] = *s++; f[*n] = 0; }
static void fmt_pair(size_t d1, size_t d2, unsigned long a, unsigned long b) {
	char f[40], out[100], want[100]; size_t n = 0, w = 0, i; ssize_t r; unsigned long s1, s2, s3;
	int u1, u2;
	f[0] = '<'; n = 1; cat(f, &n, dir[d1]); cat(f, &n, ","); cat(f, &n, dir[d2]); cat(f, &n, ",%d");
	want[w++] = '<'; u1 = ref(d1, a, want, &w); want[w++] = ','; u2 = ref(d2, b, want, &w); want[w++] = ','; want[w++] = '7'; want[w++] = '7';
	if(d1 == 18) a = (unsigned long)text;
	if(d2 == 18) b = (unsigned long)text;
	s1 = u1 ? a : u2 ? b : 77; s2 = u1 ? (u2 ? b : 77) : u2 ? 77 : 0; s3 = 77;
	r = ulz_snprintf(out, sizeof out, f, s1, s2, s3);
	//@ check length: r == w;
	for(i = 0; i < w; i++) {
		//@ check text: out[i] == want[i];
	}
	//@ check terminated: out[w] == 0;
}
/* each directive, alone among others, with the arguments at the edges of the types */
void C23_directives(void) {
	size_t d = any_size(0, 18), v = any_size(0, 7);
	if(d == 15 && v == 0) return;   /* %c of NUL */
	VF_BEGIN(d, v);
	fmt_pair(d, 0, value(v), value((v + 3) % 8));
	VF_END(d, v);
}
/* nothing of one directive leaks into the next one */
void C23_pairs(void) {
	size_t d1 = any_size(0, 18), d2 = any_size(0, 18);
	VF_BEGIN(d1, d2);
	fmt_pair(d1, d2, value(1), value(3));
	VF_END(d1, d2);
}
/* every digit position, whatever the digits above: v = base^(p+1)*q + d*base^p + low */
static uint64_t ipow(unsigned b, size_t p) { uint64_t r = 1; while(p--) r *= b; return r; }
/* qd digits above position p, the topmost at least 2 */
static void one_digit(unsigned base, size_t p, unsigned d, size_t dk, size_t qd, int neg) {
	uint64_t pw = ipow(base, p), q, v; char out[40]; ssize_t r; char c, want; size_t len = p + 1 + qd, i;
	q = Frama_C_unsigned_long_interval(2 * ipow(base, qd - 1), ipow(base, qd) - 1);
	v = q * base * pw + d * pw;
	if(neg) v = -v;
	if(dk < 4) {
		unsigned v32 = q * base * pw + d * pw;
		if(neg) v32 = -v32;
		if(dk == 0) { int i32 = v32; r = ulz_snprintf(out, sizeof out, dir[dk], i32); }
		else r = ulz_snprintf(out, sizeof out, dir[dk], v32);
	} else r = ulz_snprintf(out, sizeof out, dir[dk], v);
	//@ check length: r == len + neg;
	//@ check terminated: out[len + neg] == 0;
	want = d < 10 ? '0' + d : (dk == 2 ? 'a' : 'A') + d - 10;
	//@ check digit: out[neg + qd] == want;
	for(i = 0; i < p; i++) {
		//@ check low_digits: out[neg + qd + 1 + i] == '0';
	}
	if(neg) {
		//@ check sign: out[0] == '-';
	}
	for(i = 0; i < qd; i++) { c = out[neg + i];
		//@ check high_digits: ('0' <= c <= '9') || (base == 16 && ((dk == 2 ? 'a' : 'A') <= c <= (dk == 2 ? 'f' : 'F')));
	}
	c = out[neg];
	//@ check no_leading_zero: c != '0';
}
static const char kdir[] = { 0, 0, 4, 4, 5, 1 }, kneg[] = { 0, 1, 0, 1, 0, 0 }, kmax[] = { 9, 9, 18, 18, 19, 9 };
void C23_digit_dec(void) {
	size_t k = any_size(0, 5), p = any_size(0, 17), d = any_size(0, 9), w = any_size(0, 1), qd;
	if(p + 2 > kmax[k]) return;
	VF_BEGIN(k, p, d, w);
	one_digit(10, p, d, kdir[k], w ? kmax[k] - p - 1 : 1, kneg[k]);
	VF_END(k, p, d, w);
}
static const char hdir[] = { 2, 3, 10 }, hmax[] = { 8, 8, 16 };
void C23_digit_hex(void) {
	size_t k = any_size(0, 2), p = any_size(0, 14), d = any_size(0, 15), w = any_size(1, 2);
	if(p + 1 + w > hmax[k]) return;
	VF_BEGIN(k, p, d, w);
	one_digit(16, p, d, hdir[k], w, 0);
	VF_END(k, p, d, w);
}
/* unknown and incomplete directives: every byte behind % */
void C23_unknown(void) {
	size_t k = any_size(0, 2); char c = Frama_C_char_interval(-128, 127), f[6], out[40]; ssize_t r; size_t i = 0; int ok;
	//@ split c;
	VF_BEGIN(k, c);
	f[i++] = '%';
	if(k == 1) f[i++] = 'l';
	if(k == 2) f[i++] = 'z';
	f[i++] = c; f[i++] = 0;
	r = ulz_snprintf(out, sizeof out, f, c == 's' && k == 0 ? (unsigned long)text : 9UL);
	if(k == 0) ok = c == '%' || c == 's' || c == 'c' || c == 'd' || c == 'u' || c == 'x' || c == 'X' || c == 'p';
	else ok = c == 'd' || c == 'u';
	//@ check known: ok ==> r == 1;
	//@ check refused: !ok ==> r == -1;
	VF_END(k, c);
}
/* ---- logging ----------------------------------------------------------- */
static void logfd(int fd) { vf_fdstate[fd] = 1; vf_fdflags[fd] = O_WRONLY; }
static void out_is(const char *want, size_t n) { size_t i;
	//@ check out_length: vf_outlen == n;
	for(i = 0; i < n; i++) {
		//@ check out_text: vf_out[i] == want[i];
	}
}
void C23_log_put(void) {
	size_t k = any_size(0, 6), v = any_size(0, 7); unsigned long a = value(v), nx = value((v + 3) % 8); char want[80]; size_t w = 0;
	stringptr sp, *spp = &sp; char nt[3] = "ab"; char *c = nt; const char *cc = nt; int in = a; unsigned un = a; long ln = a; unsigned long ul = a; vario x; int in2 = nx;
	VF_BEGIN(k, v);
	logfd(7); sp.ptr = nt; sp.size = 2;
	switch(k) {
		case 0: x.type = VT_STRINGPTR; x.ptr = &spp; break;
		case 1: x.type = VT_CHAR_STAR; x.ptr = &c; break;
		case 2: x.type = VT_CONST_CHAR_STAR; x.ptr = &cc; break;
		case 3: x.type = VT_INT; x.ptr = &in; break;
		case 4: x.type = VT_UNSIGNED; x.ptr = &un; break;
		case 5: x.type = VT_LONG; x.ptr = &ln; break;
		case 6: x.type = VT_ULONG; x.ptr = &ul; break;
	}
	vario y; y.type = VT_INT; y.ptr = &in2;
	if(k < 3) { want[w++] = 'a'; want[w++] = 'b'; }
	if(k == 3) ref_sig((int64_t)in, 0, want, &w);
	if(k == 4) ref_uns(un, 10, 0, 0, want, &w);
	if(k == 5) ref_sig(ln, 0, want, &w);
	if(k == 6) ref_uns(ul, 10, 0, 0, want, &w);
	ref_sig((int64_t)in2, 0, want, &w);
	want[w++] = '\n';
	log_put(7, &x, &y, (vario*)0);
	//@ check fd: vf_outfd == 7;
	out_is(want, w);
	VF_END(k, v);
}
/* the VARI* argument macros build the descriptor that belongs to their operand's type */
void C23_log_macros(void) {
	size_t k = any_size(0, 6), v = any_size(0, 7); unsigned long a = value(v); char want[80]; size_t w = 0; char nt[3] = "ab"; stringptr sp;
	VF_BEGIN(k, v);
	logfd(7); sp.ptr = nt; sp.size = 2;
	if(k == 0) { want[w++] = 'a'; want[w++] = 'b'; log_put(7, VARIS(&sp), VNIL); }
	if(k == 1) { want[w++] = 'x'; want[w++] = 'y'; want[w++] = 'z'; log_put(7, VARISL("xyz"), VNIL); }
	if(k == 2) { want[w++] = 'a'; want[w++] = 'b'; want[w++] = 'b'; log_put(7, VARIC(nt), VARICC(nt + 1), VNIL); }
	if(k == 3) { ref_sig((int64_t)(int)a, 0, want, &w); log_put(7, VARII((int) a), VNIL); }
	if(k == 4) { ref_uns((unsigned)a, 10, 0, 0, want, &w); log_put(7, VARIU((unsigned) a), VNIL); }
	if(k == 5) { ref_sig((long)a, 0, want, &w); log_put(7, VARIL((long) a), VNIL); }
	if(k == 6) { ref_uns(a, 10, 0, 0, want, &w); log_put(7, VARIUL(a), VNIL); }
	want[w++] = '\n';
	out_is(want, w);
	VF_END(k, v);
}
void C23_log_putd(void) {
	size_t s = any_size(0, 1), v = any_size(0, 7), w = 0; char want[40];
	VF_BEGIN(s, v);
	logfd(7);
	log_putd(7, value(v), s ? 4 : 0);
	if(s) ref_sig(value(v), 0, want, &w); else ref_uns(value(v), 10, 0, 0, want, &w);
	out_is(want, w);
	VF_END(s, v);
}
/* a width belongs to its own directive; a missing string is refused */
void C23_width_own(void) {
	size_t k = any_size(0, 3); char out[40], *none = 0; ssize_t r; const char *f = k == 0 ? "%.5s%.2d" : k == 1 ? "%.9c%.3x" : k == 2 ? "%.12%%.4u" : "%.1s%.2lu";
	VF_BEGIN(k);
	r = k == 2 ? ulz_snprintf(out, sizeof out, f, 7UL) : ulz_snprintf(out, sizeof out, f, k == 1 ? (unsigned long)'T' : (unsigned long)text, 7UL);
	//@ check own_width: r == (k == 0 || k == 3 ? 3 : k == 1 ? 4 : 5);
	//@ check own_text: out[r - 1] == '7' && out[r - 2] == '0';
	r = ulz_snprintf(out, sizeof out, k == 0 ? "%s" : k == 1 ? "a%sb" : k == 2 ? "%s%d" : "%d%s", k == 3 ? 1UL : 0UL, 0UL);
	//@ check no_string: r == -1;
	VF_END(k);
}
void C22_log_putd(void) {
	size_t s = any_size(0, 1), v = any_size(0, 12), w = 0; char want[40]; int fd = VF_ANY(0, 9); uint64_t x = v < 8 ? value(v) : v == 8 ? 0 : v == 9 ? 0x8000000000000000UL : v == 10 ? 10000000000000000000UL : v == 11 ? 9 : 0x7fffffffffffffffUL;
	//@ split fd;
	VF_BEGIN(s, v, fd);
	logfd(fd);
	log_putd(fd, x, s ? 1 : 0);
	if(s) ref_sig(x, 0, want, &w); else ref_uns(x, 10, 0, 0, want, &w);
	out_is(want, w);
	//@ check one_write: vf_writes == 1 && vf_outfd == fd;
	VF_END(s, v, fd);
}
void C22_printf(void) {
	size_t k = any_size(0, 1), l = any_size(0, 3), i; int fd = k ? 6 : 1; char s[4];
	for(i = 0; i < l; i++) s[i] = 'A' + i;
	s[l] = 0;
	VF_BEGIN(k, l);
	logfd(fd);
	if(k) ulz_fprintf(6, "%s", s); else ulz_printf("%s", s);
	//@ check one_write: l ? vf_writes == 1 && vf_outfd == fd : vf_writes <= 1;
	out_is(s, l);
	vf_writes = 0; vf_outlen = 0;
	if(k) ulz_fprintf(6, "abc%q"); else ulz_printf("abc%q");
	//@ check nothing_on_failure: vf_outlen == 0;
	VF_END(k, l);
}
/* output longer than the internal buffer is cut, never over-read */
// opts: -eva-auto-loop-unroll 6000
void C22_printf_long(void) {
	size_t k = any_size(0, 1), d = any_size(0, 2); static char big[4200];
	VF_BEGIN(k, d);
	size_t l = 4094 + d, i;
	logfd(k ? 6 : 1);
	memset(big, 'x', l); big[l] = 0;
	if(k) ulz_fprintf(6, "%s", big); else ulz_printf("%s", big);
	//@ check cut: vf_outlen == (l < 4096 ? l : 4095);
	VF_END(k, d);
}
static char msg[] = "no such";
static int errno_seen;
char *vf_strerror(int e) { errno_seen = e; return msg; }
void C22_log_text(void) {
	size_t k = any_size(0, 2), l = any_size(0, 3), i; char s[4]; stringptr p; int fd = VF_ANY(0, 9);
	//@ split fd;
	for(i = 0; i < l; i++) s[i] = 'A' + i;
	s[l] = 0;
	VF_BEGIN(k, fd);
	logfd(fd); vf_io_err = VF_NONDET();
	if(k == 0) { char *e = vf_malloc(l + 1); e++; for(i = 0; i < l; i++) e[i] = s[i]; p.ptr = e; p.size = l; log_puts(fd, &p); log_puts(fd, 0); }
	if(k == 1) { log_putc(fd, s); log_putc(fd, 0); }
	if(k == 2) { log_putln(fd); l = 1; s[0] = '\n'; }
	if(!vf_io_failed) {
		out_is(s, l);
		if(l) {
			//@ check one_write: vf_writes == 1 && vf_outfd == fd;
		}
	}
		VF_END(k, fd);
}
void C22_log_puterror(void) {
	int e = VF_ANY(1, 133), er = VF_NONDET(); char want[] = "oops: no such\n";
	//@ split e;
	//@ split er;
	VF_BEGIN(er);
	logfd(2); errno = e; vf_io_err = er;
	log_puterror(2, "oops");
	//@ check errno_at_entry: errno_seen == e;
	if(!vf_io_failed) out_is(want, sizeof want - 1);
	VF_END(er);
}
