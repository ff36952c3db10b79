/* C42: decoding inverts encoding.
   C42_<kind>_<n>: messages of n bytes; one byte, at every place, is split over all 256 values; the other
   bytes are 0x5a, 0xff or 0 (n=3: a fixed mixed pattern; n=2, 4: 17 values of the byte, one per nibble).
   C42_<kind>_<n>_<pos>: the same with every other byte abstract (any value).  Their states are joined inside
   the digit lookup, and value-set and known-bits domains carry the distinguished byte through; this can prove
   but not refute (soft). */
#include "vf.h"
#include <string.h>
#include <stdint.h>
#include "strlib.h"
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static int any_byte(void) { int c = VF_ANY(0, 255);
	//@ split c;
	return c; }
static unsigned char *exact(size_t n) { unsigned char *b = vf_malloc(n + 1); return b + 1; }
void C42_hex_1(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 0 };
	size_t n = 1, pos = any_size(0, 0), x = any_size(0, 0), g = 1, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c < 0) return;
	VF_BEGIN(c, pos, x);
	s = exact(1 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 1 + 1); o = exact(1);
	for(i = 0; i < 1; i++) s[i] = w; s[pos] = c; s[1] = 0x5a;
	raw2hex(t, s, 1);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_hex_2(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 0 };
	size_t n = 2, pos = any_size(0, 1), x = any_size(0, 2), g = 1, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c % 17 && c != 1 || c < 0) return;
	VF_BEGIN(c, pos, x);
	s = exact(2 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 2 + 1); o = exact(2);
	for(i = 0; i < 2; i++) s[i] = w; s[pos] = c; s[2] = 0x5a;
	raw2hex(t, s, 2);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_hex_3(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 0 };
	size_t n = 3, pos = any_size(0, 2), x = 0, g = 1, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c < 0) return;
	VF_BEGIN(c, pos, x);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 3 + 1); o = exact(3);
	for(i = 0; i < 3; i++) s[i] = w ^ i * 0x63; s[pos] = c; s[3] = 0x5a;
	raw2hex(t, s, 3);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_hex_4(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 0 };
	size_t n = 4, pos = any_size(0, 3), x = any_size(0, 2), g = 2, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c % 17 && c != 1 || c < 0) return;
	VF_BEGIN(c, pos, x);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 4 + 1); o = exact(4);
	for(i = 0; i < 4; i++) s[i] = w; s[pos] = c; s[4] = 0x5a;
	raw2hex(t, s, 4);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_base64_1(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 0 };
	size_t n = 1, pos = any_size(0, 0), x = any_size(0, 0), g = 1, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c < 0) return;
	VF_BEGIN(c, pos, x);
	s = exact(1 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	for(i = 0; i < 1; i++) s[i] = w; s[pos] = c; s[1] = 0x5a;
	base64enc(t, s, 1);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_base64_2(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 0 };
	size_t n = 2, pos = any_size(0, 1), x = any_size(0, 2), g = 1, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c % 17 && c != 1 || c < 0) return;
	VF_BEGIN(c, pos, x);
	s = exact(2 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	for(i = 0; i < 2; i++) s[i] = w; s[pos] = c; s[2] = 0x5a;
	base64enc(t, s, 2);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_base64_3(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 0 };
	size_t n = 3, pos = any_size(0, 2), x = 0, g = 1, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c < 0) return;
	VF_BEGIN(c, pos, x);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	for(i = 0; i < 3; i++) s[i] = w ^ i * 0x63; s[pos] = c; s[3] = 0x5a;
	base64enc(t, s, 3);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_base64_4(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 0 };
	size_t n = 4, pos = any_size(0, 3), x = any_size(0, 2), g = 2, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c % 17 && c != 1 || c < 0) return;
	VF_BEGIN(c, pos, x);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	for(i = 0; i < 4; i++) s[i] = w; s[pos] = c; s[4] = 0x5a;
	base64enc(t, s, 4);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_base64str_1(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 1 };
	size_t n = 1, pos = any_size(0, 0), x = any_size(0, 0), g = 1, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c < 1) return;
	VF_BEGIN(c, pos, x);
	s = exact(1 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	for(i = 0; i < 1; i++) s[i] = w; s[pos] = c; s[1] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_base64str_2(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 1 };
	size_t n = 2, pos = any_size(0, 1), x = any_size(0, 2), g = 1, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c % 17 && c != 1 || c < 1) return;
	VF_BEGIN(c, pos, x);
	s = exact(2 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	for(i = 0; i < 2; i++) s[i] = w; s[pos] = c; s[2] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_base64str_3(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 1 };
	size_t n = 3, pos = any_size(0, 2), x = 0, g = 1, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c < 1) return;
	VF_BEGIN(c, pos, x);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	for(i = 0; i < 3; i++) s[i] = w ^ i * 0x63; s[pos] = c; s[3] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
void C42_base64str_4(void) {
	static const unsigned char rest[] = { 0x5a, 0xff, 1 };
	size_t n = 4, pos = any_size(0, 3), x = any_size(0, 2), g = 2, r, i; int c = any_byte(), k; unsigned char *s, *o, w = rest[x]; char *t;
	if(c % 17 && c != 1 || c < 1) return;
	VF_BEGIN(c, pos, x);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	for(i = 0; i < 4; i++) s[i] = w; s[pos] = c; s[4] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c, pos, x);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// soft: 1
// ladder: 1
void C42_hex_2_0(void) {
	size_t n = 2, pos = 0, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(2 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 2 + 1); o = exact(2);
	vf_any_bytes(s, 2); s[0] = c; s[2] = 0x5a;
	raw2hex(t, s, 2);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// soft: 1
// ladder: 1
void C42_hex_2_1(void) {
	size_t n = 2, pos = 1, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(2 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 2 + 1); o = exact(2);
	vf_any_bytes(s, 2); s[1] = c; s[2] = 0x5a;
	raw2hex(t, s, 2);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// soft: 1
// ladder: 1
void C42_base64_3_0(void) {
	size_t n = 3, pos = 0, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_bytes(s, 3); s[0] = c; s[3] = 0x5a;
	base64enc(t, s, 3);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// soft: 1
// ladder: 1
void C42_base64_3_1(void) {
	size_t n = 3, pos = 1, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_bytes(s, 3); s[1] = c; s[3] = 0x5a;
	base64enc(t, s, 3);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// soft: 1
// ladder: 1
void C42_base64_3_2(void) {
	size_t n = 3, pos = 2, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_bytes(s, 3); s[2] = c; s[3] = 0x5a;
	base64enc(t, s, 3);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// soft: 1
// ladder: 1
void C42_base64str_3_0(void) {
	size_t n = 3, pos = 0, g = 1, r; int c = VF_ANY(1, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_cstr((char*) s, 3); s[0] = c; s[3] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// soft: 1
// ladder: 1
void C42_base64str_3_1(void) {
	size_t n = 3, pos = 1, g = 1, r; int c = VF_ANY(1, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_cstr((char*) s, 3); s[1] = c; s[3] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// soft: 1
// ladder: 1
void C42_base64str_3_2(void) {
	size_t n = 3, pos = 2, g = 1, r; int c = VF_ANY(1, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_cstr((char*) s, 3); s[2] = c; s[3] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_hex_1_0(void) {
	size_t n = 1, pos = 0, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(1 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 1 + 1); o = exact(1);
	vf_any_bytes(s, 1); s[0] = c; s[1] = 0x5a;
	raw2hex(t, s, 1);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_hex_3_0(void) {
	size_t n = 3, pos = 0, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 3 + 1); o = exact(3);
	vf_any_bytes(s, 3); s[0] = c; s[3] = 0x5a;
	raw2hex(t, s, 3);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_hex_3_1(void) {
	size_t n = 3, pos = 1, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 3 + 1); o = exact(3);
	vf_any_bytes(s, 3); s[1] = c; s[3] = 0x5a;
	raw2hex(t, s, 3);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_hex_3_2(void) {
	size_t n = 3, pos = 2, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(3 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 3 + 1); o = exact(3);
	vf_any_bytes(s, 3); s[2] = c; s[3] = 0x5a;
	raw2hex(t, s, 3);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_hex_4_0(void) {
	size_t n = 4, pos = 0, g = 2, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 4 + 1); o = exact(4);
	vf_any_bytes(s, 4); s[0] = c; s[4] = 0x5a;
	raw2hex(t, s, 4);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_hex_4_1(void) {
	size_t n = 4, pos = 1, g = 2, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 4 + 1); o = exact(4);
	vf_any_bytes(s, 4); s[1] = c; s[4] = 0x5a;
	raw2hex(t, s, 4);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_hex_4_2(void) {
	size_t n = 4, pos = 2, g = 2, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 4 + 1); o = exact(4);
	vf_any_bytes(s, 4); s[2] = c; s[4] = 0x5a;
	raw2hex(t, s, 4);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_hex_4_3(void) {
	size_t n = 4, pos = 3, g = 2, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(2 * 4 + 1); o = exact(4);
	vf_any_bytes(s, 4); s[3] = c; s[4] = 0x5a;
	raw2hex(t, s, 4);
	r = hex2raw(t, o);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64_1_0(void) {
	size_t n = 1, pos = 0, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(1 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_bytes(s, 1); s[0] = c; s[1] = 0x5a;
	base64enc(t, s, 1);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64_2_0(void) {
	size_t n = 2, pos = 0, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(2 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_bytes(s, 2); s[0] = c; s[2] = 0x5a;
	base64enc(t, s, 2);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64_2_1(void) {
	size_t n = 2, pos = 1, g = 1, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(2 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_bytes(s, 2); s[1] = c; s[2] = 0x5a;
	base64enc(t, s, 2);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64_4_0(void) {
	size_t n = 4, pos = 0, g = 2, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_bytes(s, 4); s[0] = c; s[4] = 0x5a;
	base64enc(t, s, 4);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64_4_1(void) {
	size_t n = 4, pos = 1, g = 2, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_bytes(s, 4); s[1] = c; s[4] = 0x5a;
	base64enc(t, s, 4);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64_4_2(void) {
	size_t n = 4, pos = 2, g = 2, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_bytes(s, 4); s[2] = c; s[4] = 0x5a;
	base64enc(t, s, 4);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64_4_3(void) {
	size_t n = 4, pos = 3, g = 2, r; int c = VF_ANY(0, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_bytes(s, 4); s[3] = c; s[4] = 0x5a;
	base64enc(t, s, 4);
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64str_1_0(void) {
	size_t n = 1, pos = 0, g = 1, r; int c = VF_ANY(1, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(1 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_cstr((char*) s, 1); s[0] = c; s[1] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64str_2_0(void) {
	size_t n = 2, pos = 0, g = 1, r; int c = VF_ANY(1, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(2 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_cstr((char*) s, 2); s[0] = c; s[2] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64str_2_1(void) {
	size_t n = 2, pos = 1, g = 1, r; int c = VF_ANY(1, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(2 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_cstr((char*) s, 2); s[1] = c; s[2] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64str_4_0(void) {
	size_t n = 4, pos = 0, g = 2, r; int c = VF_ANY(1, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_cstr((char*) s, 4); s[0] = c; s[4] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64str_4_1(void) {
	size_t n = 4, pos = 1, g = 2, r; int c = VF_ANY(1, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_cstr((char*) s, 4); s[1] = c; s[4] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64str_4_2(void) {
	size_t n = 4, pos = 2, g = 2, r; int c = VF_ANY(1, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_cstr((char*) s, 4); s[2] = c; s[4] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
// opts: -eva-split-return="" -eva-domains equality,bitwise -eva-plevel 4000 -eva-slevel-function chrpos:0,hval:0
// tier: thorough
// soft: 1
// ladder: 1
void C42_base64str_4_3(void) {
	size_t n = 4, pos = 3, g = 2, r; int c = VF_ANY(1, 255), k; unsigned char *s, *o; char *t;
	//@ split c;
	VF_BEGIN(c);
	s = exact(4 + 1); o = exact(3 * g + 1);
	t = (char*) exact(4 * g + 1);
	vf_any_cstr((char*) s, 4); s[3] = c; s[4] = 0;
	k = base64enc_str(t, s, 4 * g + 1);
	//@ check encoded: k != 0;
	r = base64dec(o, t, 3 * g + 1);
	//@ check length: r == n;
	//@ check byte: o[pos] == c;
	VF_END(c);
}
