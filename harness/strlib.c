/* C01, C02, C04, C13, C24: the C-string helpers and converters.  Buffers are heap objects of exactly
   the documented size, so one byte too far is an invalid access. */
#include "vf.h"
#include <string.h>
#include <stdint.h>
#include "strlib.h"
#include "filelib.h"
#include "md5.h"
#include "stringptr.h"
#ifdef VF_THOROUGH
#define HMAX 6
#else
#define HMAX 4
#endif
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static int any_byte(void) { int c = VF_ANY(0, 255);
	//@ split c;
	return c; }
static char pick(const char *set) { size_t n = 0, k; while(set[n]) n++; k = VF_ANYSZ(0, n - 1);
	//@ split k;
	return set[k]; }
/* exactly n bytes in front of the end of an object */
static char *exact(size_t n) { char *b = vf_malloc(n + 1); return b + 1; }

/* ---- C01: sized buffers ------------------------------------------------ */
void C01_base64dec(void) {
	static const char *const tails[] = { "", "=", "==", "===", "=A", "==A", "!", "!A", "=!", "A=A=" };
	size_t e = any_size(0, 9), t = any_size(0, 9), dl = any_size(0, 8), L, i, r, pad, ok, full; char *src; unsigned char *d; const char *p = tails[t];
	VF_BEGIN(e, t, dl);
	for(L = 0; p[L]; L++) ;
	L += e;
	src = exact(L + 1);
	for(i = 0; i < e; i++) src[i] = 'A' + i;
	for(i = e; i < L; i++) src[i] = p[i - e];
	src[L] = 0;
	d = (unsigned char*) exact(dl);
	for(i = 0; i < dl; i++) d[i] = 0x77;
	r = base64dec(d, src, dl);
	pad = t < 3 ? t : 0;
	full = L / 4 * 3;
	ok = t < 3 && L % 4 == 0 && L && dl >= full + 1;
	//@ check result: r == (ok ? full - pad : 0);
	if(ok) {
		//@ check terminated: d[full] == 0;
		for(i = full + 1; i < dl; i++) {
			//@ check behind: d[i] == 0x77;
		}
	}
	VF_END(e, t, dl);
}
void C01_base64enc_str(void) {
	size_t n = any_size(0, 7), dl = any_size(0, 13), i, need; unsigned char *s = (unsigned char*) exact(n + 1); char *d = exact(dl); int r, ok;
	VF_BEGIN(n, dl);
	for(i = 0; i < n; i++) s[i] = 'A' + i;
	s[n] = 0;
	r = base64enc_str(d, s, dl);
	need = (n + 2) / 3 * 4;
	ok = dl >= need + 1;
	//@ check result: r == (ok ? 1 : 0);
	if(ok) {
		//@ check terminated: d[need] == 0;
		for(i = 0; i < need; i++) { char c = d[i];
			//@ check nonempty: c != 0;
		}
	}
	VF_END(n, dl);
}
static size_t fg_len; static int fg_eof;
char *vf_fgets(char *b, int n, FILE *f) {
	size_t i, l;
	if(n <= 0) return 0;
	if(n == 1) { b[0] = 0; return b; }
	if(fg_eof) return 0;
	l = fg_len < n - 1 ? fg_len : n - 1;
	for(i = 0; i < l; i++) b[i] = 'A' + i;
	if(fg_len >= 1 && l == fg_len) b[l - 1] = VF_NONDET() ? '\n' : 'x';
	b[l] = 0;
	return b;
}
void C01_read_stdin_line(void) {
	size_t sz = any_size(0, 6), l = any_size(1, 6), chomp = any_size(0, 1), eof = any_size(0, 1); stringptr r; char *b = exact(sz);
	VF_BEGIN(sz, chomp, eof);
	fg_len = l; fg_eof = eof;
	r = read_stdin_line(b, sz, chomp);
	if(r.ptr) {
		//@ check where: r.ptr == b;
		//@ check fits: r.size < sz;
		//@ split r.size;
		l = r.size;
		//@ check terminated: b[l] == 0;
		if(l) { char c = b[l - 1];
			//@ check no_nul: c != 0;
			//@ check chomped: chomp ==> c != '\n';
		}
	} else {
		//@ check nothing: r.size == 0;
	}
	VF_END(sz, chomp, eof);
}

/* ---- C02: fixed sizes --------------------------------------------------- */
void C02_raw2hex(void) {
	size_t n = any_size(0, 4), i; unsigned char *s = (unsigned char*) exact(n); char *d = exact(2 * n + 1);
	VF_BEGIN(n);
	vf_any_bytes(s, n);
	raw2hex(d, s, n);
	//@ check terminated: d[2 * n] == 0;
	for(i = 0; i < 2 * n; i++) { char c = d[i];
		//@ check alphabet: '0' <= c <= '9' || 'a' <= c <= 'f';
	}
	VF_END(n);
}
void C02_hex2raw(void) {
	size_t n = any_size(0, 3), r; char *s = exact(n + 1); unsigned char *d = (unsigned char*) exact((n + 1) / 2);
	vf_any_cstr(s, n);
	VF_BEGIN(n);
	r = hex2raw(s, d);
	//@ check length: r == (n + 1) / 2;
	VF_END(n);
}
/* every byte of the result comes from its own two digits */
void C02_hex2raw_place(void) {
	size_t n = any_size(1, 5), i, r; char *s = exact(n + 1); unsigned char *d = (unsigned char*) exact((n + 1) / 2);
	VF_BEGIN(n);
	for(i = 0; i < n; i++) s[i] = i % 2 ? 'a' + i : '1' + i;
	s[n] = 0;
	r = hex2raw(s, d);
	for(i = 0; i < (n + 1) / 2; i++) {
		size_t hi = n % 2 ? 2 * i - 1 : 2 * i, lo = hi + 1; unsigned h, l, w;
		h = n % 2 && !i ? 0 : hi % 2 ? 10 + hi : 1 + hi;
		l = lo % 2 ? 10 + lo : 1 + lo;
		w = h * 16 + l;
		//@ check byte: d[i] == w;
	}
	VF_END(n);
}
void C02_base64enc(void) {
	size_t n = any_size(0, 7), i, L; unsigned char *s = (unsigned char*) exact(n); char *d = exact(BASE64ENC_BUFSIZE(n));
	VF_BEGIN(n);
	vf_any_bytes(s, n);
	base64enc(d, s, n);
	L = (n + 2) / 3 * 4;
	//@ check terminated: d[L] == 0;
	for(i = 0; i < L; i++) { char c = d[i];
		int pad = i >= L - (n % 3 == 0 ? 0 : 3 - n % 3);
		//@ check alphabet: pad ? c == '=' : 'A' <= c <= 'Z' || 'a' <= c <= 'z' || '0' <= c <= '9' || c == '+' || c == '/';
	}
	VF_END(n);
}
static uint64_t ipow(unsigned b, size_t p) { uint64_t r = 1; while(p--) r *= b; return r; }
/* a number with exactly n digits in the base, the first at least `lead` */
static uint64_t digits(unsigned base, size_t n, uint64_t max, unsigned lead) {
	uint64_t lo = n == 1 ? lead : ipow(base, n - 1) * lead, m = max, hi; size_t k = 0;
	while(m) { m /= base; k++; }
	hi = n >= k ? max : ipow(base, n) - 1;
	return Frama_C_unsigned_long_interval(lo, hi);
}
static void text_is(char *p, size_t n, int neg, unsigned base, int lower) {
	size_t i; char c;
	//@ check terminated: p[n + neg] == 0;
	if(neg) {
		//@ check sign: p[0] == '-';
	}
	for(i = neg; i < n + neg; i++) { c = p[i];
		//@ check alphabet: '0' <= c <= '9' || (base > 10 && (!lower || base > 36) && 'A' <= c <= 'Z') || (base > 10 && (lower || base > 36) && 'a' <= c <= 'z');
	}
}
/* itoa/utoa: every length, and every digit in every place of it (the other digits 1, or 0) */
void C02_itoa(void) {
	size_t n = any_size(1, 10), p = any_size(0, 9), d = any_size(0, 9), k = any_size(0, 2), z = any_size(0, 1), neg = k == 1, i; char *b = exact(12), *r; uint64_t v = 0;
	if(p >= n || (d == 0 && p == n - 1) || (n == 10 && p == 9 && d > 1) || (z && p == n - 1)) return;
	VF_BEGIN(n, p, d, k, z);
	for(i = 0; i < n; i++) v = v * 10 + (n - 1 - i == p ? d : z && i ? 0 : 1);
	if(k == 2) { r = utoa(v, b + 1);
		//@ check where: r == b + 1;
	} else { r = itoa(neg ? -(int64_t)v : v, b);
		//@ check where2: r == b;
	}
	if(neg) {
		//@ check sign: r[0] == '-';
	}
	for(i = 0; i < n; i++) {
		//@ check digit: r[neg + i] == '0' + (n - 1 - i == p ? d : z && i ? 0 : 1);
	}
	//@ check terminated: r[neg + n] == 0;
	VF_END(n, p, d, k, z);
}
/* the extremes, exactly */
void C02_itoa_edges(void) {
	size_t k = any_size(0, 9), i; char *b = exact(12), *r; const char *w;
	VF_BEGIN(k);
	switch(k) {
		case 0: r = itoa((-2147483647-1), b); w = "-2147483648"; break;
		case 1: r = itoa(2147483647, b); w = "2147483647"; break;
		case 2: r = itoa(0, b); w = "0"; break;
		case 3: r = itoa(-1, b); w = "-1"; break;
		case 4: r = itoa(1000000000, b); w = "1000000000"; break;
		case 5: r = itoa(-1000000000, b); w = "-1000000000"; break;
		case 6: r = utoa(0xffffffffu, b + 1); w = "4294967295"; break;
		case 7: r = utoa(0x80000000u, b + 1); w = "2147483648"; break;
		case 8: r = utoa(0, b + 1); w = "0"; break;
		default: r = utoa(1000000000u, b + 1); w = "1000000000"; break;
	}
	for(i = 0; w[i]; i++) {
		//@ check text: r[i] == w[i];
	}
	//@ check terminated: r[i] == 0;
	VF_END(k);
}
static const unsigned bases[] = { 2, 8, 10, 16, 36, 62 };
static const unsigned maxd[] = { 64, 22, 20, 16, 13, 11 }, maxs[] = { 63, 21, 19, 16, 13, 11 };
/* no length given: digits + sign + terminator is enough */
void C02_nts_auto(void) {
	size_t k = any_size(0, 5), nn = any_size(0, 4), sg = any_size(0, 1), neg = any_size(0, 1), n, pad = any_size(0, 1); unsigned base; char *b, *r; uint64_t v;
	n = nn < 3 ? nn + 1 : (sg ? maxs[k] : maxd[k]) - (nn == 3);
	if(neg && !sg) return;
	base = bases[k];
	v = digits(base, n, sg ? ~0UL >> 1 : ~0UL, n > 1 && nn != 4 ? (base > 2 ? 2 : 1) : 1);
	VF_BEGIN(k, nn, sg, neg, pad);
	if(neg) v = -v;
	b = exact(n + neg + 1);
	r = numberToString(v, base, b, 0, (sg ? NTS_SIGNED_TYPE : 0) | (pad ? NTS_PAD : 0));
	//@ check inside: \base_addr(r) == \base_addr(b) && r >= b;
	if(r == b && nn != 4 && base > 2) text_is(r, n, neg, base, 0);
	VF_END(k, nn, sg, neg, pad);
}
/* a length given: never more than that, plus sign and terminator, whatever the number */
void C02_nts_maxlen(void) {
	size_t k = any_size(0, 5), ml = any_size(1, 6), sg = any_size(0, 1), pad = any_size(0, 1), big = any_size(0, 4); char *b, *r; uint64_t v; size_t i;
	VF_BEGIN(k, ml, sg, pad, big);
	v = big == 0 ? 0 : big == 1 ? 1 : big == 2 ? ~0UL : big == 3 ? 1UL << 63 : 123456;
	b = exact(ml + sg + 1);
	r = numberToString(v, bases[k], b, ml, (sg ? NTS_SIGNED_TYPE : 0) | (pad ? NTS_PAD : 0) | (k == 4 ? NTS_LOWERCASE_CHARS : 0));
	//@ check inside: \base_addr(r) == \base_addr(b) && b <= r <= b + ml + sg;
	for(i = 0; r[i]; i++) ;
	//@ check ends: r + i <= b + ml + sg;
	VF_END(k, ml, sg, pad, big);
}
void C02_nts_base(void) {
	unsigned base = VF_ANYSZ(0, 0xffffffffu); char *b = exact(66), *r; int bad;
	VF_BEGIN(0);
	if(base == 0 || base > 62) {
		r = numberToString(Frama_C_unsigned_long_interval(0, -1UL), base, b, 0, VF_ANY(0, 7));
		//@ check refused: r == \null;
	}
	VF_END(0);
}
void C02_toString(void) {
	size_t k = any_size(0, 9), i; char *b, *r; const char *w;
	VF_BEGIN(k);
	switch(k) {
		case 0: r = intToString((-2147483647-1), b = exact(12)); w = "-2147483648"; break;
		case 1: r = intToString(2147483647, b = exact(11)); w = "2147483647"; break;
		case 2: r = intToString(-1, b = exact(3)); w = "-1"; break;
		case 3: r = uintToString(0xffffffffu, b = exact(11)); w = "4294967295"; break;
		case 4: r = uintToString(0, b = exact(2)); w = "0"; break;
		case 5: r = int64ToString(-0x7fffffffffffffffL - 1, b = exact(21)); w = "-9223372036854775808"; break;
		case 6: r = int64ToString(0x7fffffffffffffffL, b = exact(20)); w = "9223372036854775807"; break;
		case 7: r = uint64ToString(~0UL, b = exact(21)); w = "18446744073709551615"; break;
		case 8: r = uint64ToString(0x100000000UL, b = exact(11)); w = "4294967296"; break;
		default: r = int64ToString(-5000000000L, b = exact(12)); w = "-5000000000"; break;
	}
	for(i = 0; w[i]; i++) {
		//@ check text: r[i] == w[i];
	}
	//@ check terminated: r[i] == 0;
	VF_END(k);
}
/* each octet in each place, the others arbitrary */
void C02_stringfromipv4(void) {
	size_t pos = any_size(0, 3), i, o, dots = 0; int v = any_byte(); unsigned char ip[4], oth = (unsigned char)pick("\x07\x5c\xc8"); char *b = exact(16);
	for(i = 0; i < 4; i++) if(i == pos) ip[i] = v; else ip[i] = oth;
	VF_BEGIN(pos, v);
	stringfromipv4(ip, b);
	for(i = o = 0; i < 4; i++) {
		unsigned x = ip[i];
		if(x >= 100) {
			//@ check hundreds: b[o] == '0' + x / 100;
			o++;
		}
		if(x >= 10) {
			//@ check tens: b[o] == '0' + x / 10 % 10;
			o++;
		}
		//@ check units: b[o] == '0' + x % 10;
		o++;
		if(i < 3) {
			//@ check dot: b[o] == '.';
			o++;
		}
	}
	//@ check terminated: b[o] == 0;
	VF_END(pos, v);
}
void C02_ipv4fromstring(void) {
	size_t n = any_size(0, 5), i, dots = 0; char *s = exact(n + 1); unsigned char *d = (unsigned char*) exact(4); int r;
	for(i = 0; i < n; i++) { s[i] = pick(".1x"); dots += s[i] == '.'; }
	s[n] = 0;
	VF_BEGIN(n, dots);
	r = ipv4fromstring(s, d);
	//@ check result: r == (dots >= 3 ? 1 : 0);
	VF_END(n, dots);
}
void C02_ipv4fromstring_value(void) {
	size_t pos = any_size(0, 3), i, o = 0; int v = any_byte(); unsigned char *d = (unsigned char*) exact(4); char *s = exact(16); int r;
	VF_BEGIN(pos, v);
	for(i = 0; i < 4; i++) {
		unsigned x = i == pos ? v : 9 + 70 * i;
		if(x >= 100) s[o++] = '0' + x / 100;
		if(x >= 10) s[o++] = '0' + x / 10 % 10;
		s[o++] = '0' + x % 10;
		s[o++] = i == 3 ? 0 : '.';
	}
	r = ipv4fromstring(s, d);
	//@ check ok: r == 1;
	for(i = 0; i < 4; i++) { unsigned x = i == pos ? v : 9 + 70 * i;
		//@ check octet: d[i] == x;
	}
	VF_END(pos, v);
}
// opts: -eva-auto-loop-unroll 70
void C02_md5str(void) {
	size_t n = any_size(0, 3), k = any_size(0, 3), i; char *d = exact(33); unsigned char *s = (unsigned char*) exact(n);
	VF_BEGIN(n, k);
	for(i = 0; i < n; i++) s[i] = k == 0 ? 0 : k == 1 ? 'a' : k == 2 ? 0xff : 0x80 + i;
	md5str(d, s, n);
	//@ check terminated: d[32] == 0;
	for(i = 0; i < 32; i++) { char c = d[i];
		//@ check alphabet: '0' <= c <= '9' || 'a' <= c <= 'f';
	}
	VF_END(n, k);
}
/* the same for every digest */
// soft: 1
// opts: -eva-auto-loop-unroll 70
void C02_md5str_any(void) {
	size_t n = any_size(0, 2), i; char *d = exact(33); unsigned char *s = (unsigned char*) exact(n);
	VF_BEGIN(n);
	vf_any_bytes(s, n);
	md5str(d, s, n);
	//@ check terminated: d[32] == 0;
	for(i = 0; i < 32; i++) { char c = d[i];
		//@ check alphabet: '0' <= c <= '9' || 'a' <= c <= 'f';
	}
	VF_END(n);
}
void C02_rc4(void) {
	size_t n = any_size(0, 3), kl = any_size(1, 3), inplace = any_size(0, 1); unsigned char *k = (unsigned char*) exact(kl), *s = (unsigned char*) exact(n), *d;
	VF_BEGIN(n, kl, inplace);
	d = inplace ? s : (unsigned char*) exact(n);
	vf_any_bytes(k, kl); vf_any_bytes(s, n);
	rc4(d, s, n, k, kl);
	VF_END(n, kl, inplace);
}

/* ---- C04 ---------------------------------------------------------------- */
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char *gen(size_t n, const char *set) { size_t i; char *s = exact(n + 1); for(i = 0; i < n; i++) s[i] = pick(set); s[n] = 0; return s; }
void C04_strstr_uc(void) {
	size_t n = any_size(0, HMAX), m = any_size(0, 3), i, j, want; char *h = gen(n, "aB"), *e = exact(m), *r; char h0 = h[0];
	for(i = 0; i < m; i++) e[i] = pick("AB");
	VF_BEGIN(n, m);
	want = n;
	if(m) for(i = n; i-- > 0; ) { for(j = 0; j < m && i + j < n && up(h[i + j]) == e[j]; j++) ; if(j == m) want = i; }
	r = strstr_uc(h, e, m);
	//@ check found: want < n ==> r == h + want;
	//@ check none: want == n ==> r == \null;
	//@ check unmodified: h[n] == 0 && h[0] == h0;
	VF_END(n, m);
}
void C04_strstr_uc_fold(void) {
	int c = any_byte(); char nd = pick("AMZ@[a`{mz09\x80\xff"), h[2], e[1], *r; int hit;
	VF_BEGIN(c);
	h[0] = c; h[1] = 0; e[0] = nd;
	hit = c && up(h[0]) == nd;
	r = strstr_uc(h, e, 1);
	//@ check fold: r == (hit ? &h[0] : (char*)0);
	VF_END(c);
}
void C04_strstar(void) {
	size_t n = any_size(0, HMAX), m = any_size(0, 3), i, j, want; char *h = gen(n, "ab"), *e = exact(m), *r;
	for(i = 0; i < m; i++) e[i] = pick("ab*");
	VF_BEGIN(n, m);
	want = n;
	if(m) for(i = n; i-- > 0; ) { for(j = 0; j < m && i + j < n && (e[j] == '*' || h[i + j] == e[j]); j++) ; if(j == m) want = i; }
	r = strstar(h, e, m);
	//@ check found: want < n ==> r == h + want;
	//@ check none: want == n ==> r == \null;
	VF_END(n, m);
}
static int lead(char c) { return c == ' ' || c == '\t' || c == '\n' || c == ':' || c == ',' || c == '.' || c == ';' || c == '-'; }
static int trail(char c) { return lead(c) || c == '\r'; }
static void word(size_t n, char *h, size_t m, char *e) {
	size_t i, j, want = n; char *r;
	for(i = n; i-- > 0; ) {
		for(j = 0; j < m && i + j < n && up(h[i + j]) == e[j]; j++) ;
		if(j == m && (i == 0 || lead(h[i - 1])) && (i + m == n || trail(h[i + m]))) want = i;
	}
	r = findword(h, e, m);
	//@ check found: want < n ==> r == h + want;
	//@ check none: want == n ==> r == \null;
}
void C04_findword(void) {
	size_t n = any_size(0, HMAX + 1), m = any_size(1, 2), i; char *h = gen(n, "a b"), *e = exact(m);
	e[0] = 'A'; if(m > 1) e[1] = pick("AB");
	VF_BEGIN(n, m);
	word(n, h, m, e);
	VF_END(n, m);
}
void C04_findword_delim(void) {
	int c = any_byte(); size_t pos = any_size(0, 2); char *h, *e = exact(1);
	if(!c) return;
	VF_BEGIN(c, pos);
	e[0] = 'A'; h = exact(4); h[0] = pos == 2 ? 'x' : 'A'; h[1] = 'a'; h[2] = 'a'; h[3] = 0;
	if(pos == 0) { h[0] = c; h[1] = 'A'; h[2] = 0; word(2, h, 1, e); }
	if(pos == 1) { h[0] = 'a'; h[1] = c; h[2] = 0; word(2, h, 1, e); }
	if(pos == 2) { h[1] = c; word(3, h, 1, e); }
	VF_END(c, pos);
}
void C04_strends(void) {
	size_t n = any_size(0, HMAX), m = any_size(0, 3), i; char *h = gen(n, "ab"), *e = gen(m, "ab"); int r, w = m <= n;
	VF_BEGIN(n, m);
	for(i = 0; i < m && w; i++) w = h[n - m + i] == e[i];
	r = strends(h, e);
	//@ check suffix: (r != 0) == (w != 0);
	VF_END(n, m);
}
void C04_containsChar(void) {
	size_t n = any_size(0, HMAX), i; char *h = gen(n, "ab"), c = pick("abc"); int w = 0, r;
	VF_BEGIN(n, c);
	for(i = 0; i < n; i++) if(h[i] == c) w = 1;
	r = containsChar(h, c);
	//@ check result: (r != 0) == (w != 0);
	r = containsChar(0, c);
	//@ check null: r == 0;
	VF_END(n, c);
}
void C04_strdup_n(void) {
	size_t n = any_size(0, HMAX), i; char *h = exact(n), *r; int live;
	for(i = 0; i < n; i++) h[i] = i == 1 ? 0 : 'A' + i;
	VF_BEGIN(n);
	live = vf_live; vf_oom_on = 1;
	r = strdup_n(h, n);
	if(!r) {
		//@ check fails_for_reason: n == 0 || vf_oom_hit;
		//@ check no_leak: vf_live == live;
	} else {
		//@ check owned: vf_live == live + 1;
		for(i = 0; i < n; i++) {
			//@ check copy: r[i] == (i == 1 ? 0 : 'A' + i);
		}
		//@ check terminated: r[n] == 0;
		vf_free(r);
		//@ check one_block: vf_live == live;
	}
	VF_END(n);
}
void C13_strdup_n(void) { C04_strdup_n(); }
void C04_strtoint(void) {
	size_t n = any_size(0, 4), wide = any_size(0, 1), neg, i; char *h; long v = 0, r;
	h = exact(n);
	for(i = 0; i < n; i++) h[i] = pick(i ? "0159" : "-0159");
	neg = n && h[0] == '-';
	VF_BEGIN(n, wide, neg);
	for(i = neg; i < n; i++) v = v * 10 + (h[i] - '0');
	if(neg) v = -v;
	r = wide ? strtoint64(h, n) : strtoint(h, n);
	//@ check value: r == v;
	VF_END(n, wide, neg);
}
void C04_strtoint_long(void) {
	size_t k = any_size(0, 4); long r, w;
	VF_BEGIN(k);
	switch(k) {
		case 0: r = strtoint("2147483647", 10); w = 2147483647L; break;
		case 1: r = strtoint("-2147483647", 11); w = -2147483647L; break;
		case 2: r = strtoint64("9223372036854775807", 19); w = 9223372036854775807L; break;
		case 3: r = strtoint64("-9223372036854775807", 20); w = -9223372036854775807L; break;
		default: r = strtoint64("123456789012", 12); w = 123456789012L; break;
	}
	//@ check value: r == w;
	VF_END(k);
}
void C04_isnumericipv4(void) {
	static const char cls[] = "0.9/:x";
	size_t n = any_size(0, 8), i, dots = 0, dig = 0, bad = 0, grp = 0, maxgrp = 0, empty = 0; char *s = exact(n + 1); int r, strict;
	for(i = 0; i < n; i++) s[i] = pick("1.");
	s[n] = 0;
	VF_BEGIN(n);
	for(i = 0; i <= n; i++) {
		if(i == n || s[i] == '.') { if(!grp) empty = 1; if(grp > maxgrp) maxgrp = grp; grp = 0; dots += i < n; }
		else { grp++; dig++; }
	}
	strict = dots == 3 && !empty && maxgrp <= 3;
	r = isnumericipv4(s);
	//@ check accepts: strict ==> r == 1;
	//@ check rejects_dots: dots != 3 ==> r == 0;
	for(i = 0; i < n; i++) if(s[i] == '.' && (i == 0 || s[i - 1] == '.')) {
		//@ check rejects_empty_groups: r == 0;
	}
	VF_END(n);
}
void C04_isnumericipv4_chars(void) {
	int c = any_byte(); size_t pos = any_size(0, 6); char s[8] = "1.2.3.4"; int r;
	VF_BEGIN(c, pos);
	s[pos] = c;
	r = isnumericipv4(s);
	if(pos % 2 == 0) {
		//@ check digit: r == (('0' <= c <= '9') ? 1 : 0);
	} else {
		//@ check dot: r == (c == '.' ? 1 : 0);
	}
	VF_END(c, pos);
}
void C04_getFileExt(void) {
	size_t n = any_size(0, HMAX), i, want = 0, found = 0; char *f = exact(n), *r;
	for(i = 0; i < n; i++) { f[i] = pick(".x"); if(f[i] == '.') { found = 1; want = i + 1; } }
	VF_BEGIN(n, found, want);
	r = getFileExt(f, n);
	//@ check behind_last_dot: r == (found ? f + want : (char*)0);
	VF_END(n, found, want);
}

/* ---- C24 ---------------------------------------------------------------- */
void C24_classes(void) {
	int c = any_byte(); char x[1], y[1]; int u, l, d, r, up_, lo_;
	VF_BEGIN(c);
	x[0] = c;
	u = c >= 'A' && c <= 'Z'; l = c >= 'a' && c <= 'z'; d = c >= '0' && c <= '9';
	r = isAlpha(x);
	//@ check alpha: (r != 0) == (u || l || d);
	r = isNumber(x);
	//@ check number: (r != 0) == (d != 0);
	r = isLetter(x);
	//@ check letter: (r != 0) == (u || l);
	r = isUpper(x);
	//@ check upper: (r != 0) == (u != 0);
	r = isLower(x);
	//@ check lower: (r != 0) == (l != 0);
	y[0] = c; makeupper(y); up_ = (unsigned char)y[0];
	//@ check makeupper: up_ == (l ? c - 32 : c);
	y[0] = c; makelower(y); lo_ = (unsigned char)y[0];
	//@ check makelower: lo_ == (u ? c + 32 : c);
	VF_END(c);
}
static int hexd(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void C24_hex(void) {
	int c = any_byte(), h = hexd(c), r; char x[3]; unsigned char o[2]; char t[3]; size_t k;
	VF_BEGIN(c);
	x[0] = c; x[1] = 0;
	r = hexval(x);
	//@ check hexval: r == (h < 0 ? 0 : h);
	if(h >= 0) {
		k = hex2raw(x, o);
		//@ check odd: k == 1 && o[0] == h;
		x[0] = c; x[1] = '3'; x[2] = 0; k = hex2raw(x, o);
		//@ check high: k == 1 && o[0] == h * 16 + 3;
		x[0] = 'C'; x[1] = c; x[2] = 0; k = hex2raw(x, o);
		//@ check low: k == 1 && o[0] == 0xc0 + h;
	}
	o[0] = c;
	raw2hex(t, o, 1);
	//@ check high_digit: t[0] == (c / 16 < 10 ? '0' + c / 16 : 'a' + c / 16 - 10);
	//@ check low_digit: t[1] == (c % 16 < 10 ? '0' + c % 16 : 'a' + c % 16 - 10);
	VF_END(c);
}
static int b64c(unsigned v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/'; }
static int b64v(int c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
/* each byte value in each place of a group, for groups of 1, 2 and 3 bytes */
void C24_base64_encode(void) {
	int c = any_byte(); size_t n = any_size(1, 3), pos = any_size(0, 2), k = any_size(0, 1), i; unsigned char s[4] = { 0xa5, 0x3c, 0x96, 0 }; char d[6]; unsigned n24; int w;
	if(pos >= n || (k && !c)) return;
	VF_BEGIN(c, n, pos, k);
	s[pos] = c; s[n] = 0;
	if(k) base64enc_str(d, s, 5); else base64enc(d, s, n);
	n24 = s[0] << 16 | (n > 1 ? s[1] << 8 : 0) | (n > 2 ? s[2] : 0);
	for(i = 0; i < 4; i++) {
		w = i > n ? '=' : b64c(n24 >> (18 - 6 * i) & 63);
		//@ check symbol: d[i] == w;
	}
	//@ check terminated: d[4] == 0;
	VF_END(c, n, pos, k);
}
/* each byte in each place of an encoded group, with 0 to 2 pads */
void C24_base64_decode(void) {
	int c = any_byte(); size_t pos = any_size(0, 3), pad = any_size(0, 2), i, r; char s[6] = "Qm9x"; unsigned char d[5]; unsigned n24 = 0; int ok = 1, w;
	if(pos + pad >= 4) return;
	VF_BEGIN(c, pos, pad);
	s[4] = 0;
	for(i = 0; i < pad; i++) s[3 - i] = '=';
	s[pos] = c;
	for(i = 0; i < 4; i++) { int v = i >= 4 - pad ? 0 : b64v((unsigned char)s[i]); if(v < 0) ok = 0; n24 = n24 << 6 | (v < 0 ? 0 : v); }
	if(pos == 3 && c == '=') ok = 0, pad = 1;
	d[3] = 1;
	r = base64dec(d, s, 5);
	if(pos == 3 && c == '=') {
		//@ check one_pad: r == 2;
		pad = 0;
	} else if(pos + pad == 3 && pad == 1 && c == '=') {
		//@ check two_pads: r == 1;
	} else if(!ok) {
		//@ check rejected: r == 0;
	} else {
		//@ check length: r == 3 - pad;
		for(i = 0; i < 3 - pad; i++) { w = n24 >> (16 - 8 * i) & 255;
			//@ check byte: d[i] == w;
		}
		//@ check terminated: d[3] == 0;
	}
	VF_END(c, pos, pad);
}
void C24_digits(void) {
	size_t v = any_size(0, 61), base = any_size(2, 62), lower = any_size(0, 1); char b[70], *r; int w;
	if(base % 2 || v >= base || v + 4 < base && v % 8) return;
	VF_BEGIN(v, base, lower);
	r = numberToString(v, base, b, 0, lower ? NTS_LOWERCASE_CHARS : 0);
	w = v < 10 ? '0' + v : v < 36 ? (lower && base <= 36 ? 'a' : 'A') + v - 10 : 'a' + v - 36;
	//@ check digit: r[0] == w && r[1] == 0;
	VF_END(v, base, lower);
}
