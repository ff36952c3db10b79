/* C28: bit arrays, every index and content. */
#include "vf.h"
#include <string.h>
#include "bitarray.h"
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
#ifdef VF_THOROUGH
#define MAXB 24
#define NV 256
#define VAL(k) (k)
#else
#define MAXB 18
#define NV 20
#define VAL(k) ((k) < 8 ? 1u << (k) : (k) < 16 ? 255u & ~(1u << ((k) - 8)) : (k) == 16 ? 0u : (k) == 17 ? 255u : (k) == 18 ? 0x5au : 0xc3u)
#endif
static unsigned char rev(unsigned char x) { unsigned char r = 0; int i; for(i = 0; i < 8; i++) if(x & (1 << i)) r |= 0x80 >> i; return r; }
void C28_size_required(void) {
	size_t n = any_size(0, 130), s;
	VF_BEGIN(n);
	s = BA_SIZE_REQUIRED(n);
	//@ check enough: s * 8 >= n;
	//@ check least: s == 0 || (s - 1) * 8 < n;
	VF_END(n);
}
/* op 0: set true, 1: set false, 2: set by condition, 3: read only; the addressed byte takes all 256 values */
static void step(int op, int c) {
	size_t n = any_size(1, MAXB), i = n - 1, j, len, k = any_size(0, NV - 1); unsigned char *b, old; int g, w; unsigned v = VAL(k);
	VF_BEGIN(n, i, v);
	len = BA_SIZE_REQUIRED(n); b = vf_malloc(len);
	for(j = 0; j < len; j++) b[j] = 0xa5 ^ j;
	b[i / 8] = v; old = v;
	g = BA_GET(b, i);
	//@ check get: g == ((old >> (i % 8)) & 1);
	if(op == 0) BA_SET_TRUE(b, i);
	else if(op == 1) BA_SET_FALSE(b, i);
	else if(op == 2) BA_SET(b, i, c);
	w = op == 0 ? 1 : op == 1 ? 0 : op == 2 ? c != 0 : g;
	g = BA_GET(b, i);
	//@ check stored: g == w;
	for(j = 0; j < len; j++) { unsigned char e = j == i / 8 ? (old & ~(1 << (i % 8))) | (w << (i % 8)) : 0xa5 ^ j;
		//@ check only_that_bit: b[j] == e;
	}
	VF_END(n, i, v);
}
// opts: -eva-ilevel 300
void C28_set_true(void) { step(0, 0); }
// opts: -eva-ilevel 300
void C28_set_false(void) { step(1, 0); }
// opts: -eva-ilevel 300
void C28_set_on(void) { step(2, 4); }
// opts: -eva-ilevel 300
void C28_set_off(void) { step(2, 0); }
void C28_get_swapped(void) {
	size_t i = any_size(0, 15); unsigned v = VF_ANY(0, 255); unsigned char *b; int g;
	//@ split v;
	VF_BEGIN(i, v);
	b = vf_malloc(2); b[0] = b[1] = ~v; b[i / 8] = v;
	g = BA_GET_SWAPPED(b, i);
	//@ check mirrored: g == ((v >> (7 - i % 8)) & 1);
	VF_END(i, v);
}
void C28_bytes(void) {
	size_t v = any_size(0, 255); int b[8], i; unsigned char m, l;
	VF_BEGIN(v);
	for(i = 0; i < 8; i++) b[i] = (v >> i) & 1;
	m = BYTEM(b[7], b[6], b[5], b[4], b[3], b[2], b[1], b[0]);
	l = BYTEL(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]);
	//@ check msb_first: m == v;
	//@ check lsb_first: l == v;
	VF_END(v);
}
/* operands are arbitrary expressions */
void C28_byte_expressions(void) {
	size_t v = any_size(0, 255); unsigned char m, l;
	VF_BEGIN(v);
	m = BYTEM(v >> 7 & 1, v > 127 ? v >> 6 & 1 : (v >> 6) & 1, v >> 5 & 1, v >> 4 & 1, v >> 3 & 1, v >> 2 & 1, v >> 1 & 1, v & 1);
	l = BYTEL(v & 1, v >> 1 & 1, v & 4 ? 1 : 0, v >> 3 & 1, v >> 4 & 1, v >> 5 & 1, v & 64 ? 1 : 0, v & 128 ? 1 : 0);
	//@ check msb_first: m == v;
	//@ check lsb_first: l == v;
	VF_END(v);
}
void C28_index_expressions(void) {
	size_t i = any_size(0, 11), n = any_size(0, 40), s = any_size(0, 1), r, k, j = i; int g; unsigned char *b;
	VF_BEGIN(i, n, s);
	r = BA_SIZE_REQUIRED(s ? n : n + 1); k = s ? n : n + 1;
	//@ check size_conditional: r == k / 8 + (k % 8 != 0 ? 1 : 0);
	r = 2 * BA_SIZE_REQUIRED(n);
	//@ check size_grouping: r == 2 * (n / 8 + (n % 8 != 0 ? 1 : 0));
	b = vf_malloc(3); b[0] = b[1] = b[2] = s ? 255 : 0;
	if(s) BA_SET(b + 1, i & 7, i > 99); else BA_SET(b + 1, i & 7, i < 99);
	g = BA_GET(s ? b + 1 : b, s ? i & 7 : 8 + (i & 7));
	//@ check one_bit: g == 1 - s && b[1] == (s ? 255 - (1 << (i & 7)) : 1 << (i & 7));
	//@ check others: b[0] == (s ? 255 : 0) && b[2] == b[0];
	VF_END(i, n, s);
}
