/* C33: byte order helpers.  One byte of the word (every place, all 256 values) is known, all other bits are
   abstract (known-bits domain). */
#include "vf.h"
#include <stdint.h>
#include "endianness.h"
#include "macros.h"
#ifdef IS_LITTLE_ENDIAN
#define IS_LE 1
#else
#define IS_LE 0
#endif
// file-opts: -eva-domains bitwise,equality
static int any_byte(void) { int c = VF_ANY(0, 255);
	//@ split c;
	return c; }
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
void C33_byteswap16(void) {
	int c = any_byte(); size_t pos = any_size(0, 1); uint16_t x, r; unsigned k, rest = VF_ANY(0, 0xffff);
	VF_BEGIN(c, pos);
	x = (rest & ~(0xffu << 8 * pos)) | (unsigned) c << 8 * pos;
	r = byteswap16(x);
	k = r >> 8 * (1 - pos) & 0xff;
	//@ check swapped: k == c;
	VF_END(c, pos);
}
void C33_byteswap32(void) {
	int c = any_byte(); size_t pos = any_size(0, 3); uint32_t x, r, rest = Frama_C_unsigned_int_interval(0, 0xffffffffu); unsigned k;
	VF_BEGIN(c, pos);
	x = (rest & ~(0xffu << 8 * pos)) | (uint32_t) c << 8 * pos;
	r = byteswap32(x);
	k = r >> 8 * (3 - pos) & 0xff;
	//@ check swapped: k == c;
	VF_END(c, pos);
}
void C33_byteswap64(void) {
	int c = any_byte(); size_t pos = any_size(0, 7); uint64_t x, r, rest = Frama_C_unsigned_long_interval(0, 0xffffffffffffffffu); unsigned k;
	VF_BEGIN(c, pos);
	x = (rest & ~(0xfful << 8 * pos)) | (uint64_t) c << 8 * pos;
	r = byteswap64(x);
	k = r >> 8 * (7 - pos) & 0xff;
	//@ check swapped: k == c;
	VF_END(c, pos);
}
/* operands that are expressions or narrower/signed types */
void C33_operands(void) {
	int c = any_byte(); size_t pos = any_size(0, 3); uint32_t x, r, q; uint16_t h; unsigned k; unsigned char b; int sx;
	VF_BEGIN(c, pos);
	x = (uint32_t) c << 8 * pos; q = x << 8 | x >> 24;
	r = byteswap32(x << 8 | x >> 24);
	//@ check expression: r == ((q & 0xff) << 24 | (q & 0xff00) << 8 | (q >> 8 & 0xff00) | q >> 24);
	r = byteswap32(pos < 9 ? x : 7u);
	//@ check conditional: r == (uint32_t) c << 8 * (3 - pos);
	b = c;
	r = byteswap32(b + 0u);
	//@ check narrow: r == (uint32_t) c << 24;
	h = byteswap16(b | 0x1200);
	//@ check narrow16: h == (uint16_t) (c << 8 | 0x12);
	r = le32(x | 0x5a0000u); h = le16((uint16_t) (c << 8 | 1));
	k = IS_LE;
	//@ check little_endian_machine: k == 1;
	//@ check le32: r == (x | 0x5a0000);
	//@ check le16: h == (uint16_t) (c << 8 | 1);
	VF_END(c, pos);
}
/* signed operands and operands wider than the result: only the named bytes count */
void C33_operand_types(void) {
	int c = any_byte(); size_t pos = any_size(0, 3); uint32_t x, r, want; uint64_t wide; int sx; long sl; unsigned char b0, b1;
	VF_BEGIN(c, pos);
	x = 0x11223344; x = (x & ~(0xffu << 8 * pos)) | (uint32_t) c << 8 * pos;
	want = x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24;
	sx = x;
	r = byteswap32(sx);
	//@ check signed32: r == want;
	wide = x | 0x5aa5c33c00000000UL;
	r = byteswap32(wide);
	//@ check wide32: r == want;
	sl = sx;
	r = byteswap32(sl);
	//@ check long32: r == want;
	if(pos < 2) {
		b0 = x; b1 = x >> 8; want = (uint32_t) b0 << 8 | b1;
		r = byteswap16(x);
		//@ check wide16: r == want;
		r = byteswap16((short) sx);
		//@ check signed16: r == want;
		r = byteswap16(sl);
		//@ check long16: r == want;
	}
	VF_END(c, pos);
}
void C33_minmax(void) {
	long a = VF_ANY(-3, 3), b = VF_ANY(-3, 3), r; size_t n; int arr[7]; struct { char c[5]; } sa[3];
	//@ split a;
	//@ split b;
	VF_BEGIN(a, b);
	r = MIN(a, b);
	//@ check min: r == (a < b ? a : b);
	r = MAX(a, b);
	//@ check max: r == (a > b ? a : b);
	r = 10 + MIN(a & 3, b | 1) * 2;
	//@ check min_grouping: r == 10 + ((a & 3) < (b | 1) ? (a & 3) : (b | 1)) * 2;
	r = 10 + MAX(a & 3, b | 1) * 2;
	//@ check max_grouping: r == 10 + ((a & 3) > (b | 1) ? (a & 3) : (b | 1)) * 2;
	r = MAX(a, a < b ? b : a) - MIN(a ? a : b, b);
	//@ check conditional_operands: r == (a < b ? b : a) - ((a ? a : b) < b ? (a ? a : b) : b);
	n = ARRAY_SIZE(arr) * 100 / ARRAY_SIZE(sa);
	//@ check array_size: n == 233;
	n = 2 * WORD_SIZE;
	//@ check word_size: n == 16;
	VF_END(a, b);
}
/* the documented sizes for operands that are arbitrary expressions (strlib.h) */
#include "strlib.h"
void C33_base64_sizes(void) {
	size_t n = any_size(0, 40), m = any_size(0, 3), c = any_size(0, 1), r, w;
	VF_BEGIN(n, m, c);
	r = BASE64ENC_BYTES(n); w = (n + 2) / 3 * 4;
	//@ check enc: r == w;
	r = BASE64ENC_BUFSIZE(n);
	//@ check enc_buf: r == w + 1;
	r = 2 * BASE64ENC_BYTES(n) + 3 * BASE64ENC_BUFSIZE(n);
	//@ check enc_grouping: r == 5 * w + 3;
	r = BASE64ENC_BYTES(c ? n : m); w = ((c ? n : m) + 2) / 3 * 4;
	//@ check enc_conditional: r == w;
	r = BASE64ENC_BUFSIZE(m ? m + n : n | 1); w = ((m ? m + n : n | 1) + 2) / 3 * 4 + 1;
	//@ check enc_expression: r == w;
	r = BASE64ENC_BUFSIZE(n << 1); w = (n * 2 + 2) / 3 * 4 + 1;
	//@ check enc_shift: r == w;
	r = BASE64DEC_BYTES(n); w = n / 4 * 3;
	//@ check dec: r == w;
	r = BASE64DEC_BUFSIZE(n);
	//@ check dec_buf: r == w + 1;
	r = 2 * BASE64DEC_BYTES(n) + 3 * BASE64DEC_BUFSIZE(n);
	//@ check dec_grouping: r == 5 * w + 3;
	r = BASE64DEC_BYTES(c ? n : m); w = (c ? n : m) / 4 * 3;
	//@ check dec_conditional: r == w;
	r = BASE64DEC_BUFSIZE(n + m); w = (n + m) / 4 * 3 + 1;
	//@ check dec_sum: r == w;
	VF_END(n, m, c);
}
/* operands that are expressions of every precedence, and operands with one evaluation's worth of meaning */
void C33_byteswap_expressions(void) {
	size_t k = any_size(0, 3), c = any_size(0, 1); static const uint32_t A[] = { 0x01020304u, 0xfffefdfcu, 0x80000001u, 0x7f00ff10u }; uint32_t a = A[k], b = A[(k + 1) & 3], r; uint64_t x, q; unsigned r16;
#define SW32(v) (((v) >> 24 & 0xff) | ((v) >> 8 & 0xff00) | ((v) << 8 & 0xff0000) | (v) << 24)
#define SW16(v) (((v) >> 8 & 0xff) | ((v) << 8 & 0xff00))
	VF_BEGIN(k, c);
	{ uint32_t o = a | b, e = a ^ b, w = SW32(o);
	r = byteswap32(a | b);
	//@ check or32: r == w;
	w = SW32(e); r = byteswap32(a ^ b);
	//@ check xor32: r == w;
	}
	r = byteswap32(c ? a : b);
	{ uint32_t e = c ? a : b, w = SW32(e);
	//@ check conditional32: r == w;
	r16 = byteswap16(c ? a : b); w = SW16(e);
	//@ check conditional16: r16 == w;
	e = a | b; w = SW16(e); r16 = byteswap16(a | b);
	//@ check or16: r16 == w;
	e = a + b; w = SW16(e); r16 = byteswap16(a + b);
	//@ check plus16: r16 == w;
	r16 = 3 + byteswap16(a) * 2; w = 3 + SW16(a) * 2;
	//@ check grouped16: r16 == w;
	r = byteswap32(a) - 1; w = SW32(a) - 1;
	//@ check grouped32: r == w;
	r = le32(c ? a : b); w = c ? a : b;
	//@ check le32: r == w;
	r = le16(c ? a & 0xffff : b & 0xffff); w = (c ? a : b) & 0xffff;
	//@ check le16: r == w;
	}
	x = (uint64_t) a << 32 | b;
	q = byteswap64((uint64_t) a << 32 | b);
	{ uint64_t w = (uint64_t) SW32(b) << 32 | SW32(a);
	//@ check swap64: q == w;
	}
	VF_END(k, c);
}
