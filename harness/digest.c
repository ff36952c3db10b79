/* C31: streaming digests.  Position-coded messages through constant propagation; abstract contents
   for the memory clauses. */
#include "vf.h"
#include <string.h>
#include "md5.h"
#include "sha512.h"
#include "crc32.h"
#include "crc32c.h"
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static unsigned char msg[700];
static unsigned char *fill(size_t n) { unsigned char *m = vf_malloc(n); size_t i; for(i = 0; i < n; i++) m[i] = msg[i] = i * 7 + (i >> 3) + 1; return m; }
static void feed(md5_ctx *c, const unsigned char *m, size_t n) { unsigned char *q = vf_malloc(n); size_t i; for(i = 0; i < n; i++) q[i] = m[i]; md5_update(c, q, n); vf_free(q); }
/* lengths that put the end of the message and of the chunks around every block boundary */
static const size_t L[] = { 0, 1, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129 };
static void digest_eq(const unsigned char *a, const unsigned char *b, size_t n) { size_t i; for(i = 0; i < n; i++) {
		//@ check same_digest: a[i] == b[i];
	} }
// opts: -eva-auto-loop-unroll 900
void C31_md5_chunks(void) {
	size_t a = any_size(0, 12), b = any_size(0, 12), i; md5_ctx c, d; unsigned char h[16], g[16], h2[16]; md5_ctx s;
	VF_BEGIN(a, b);
	fill(L[a] + L[b]);
	memset(&d, 0x33, sizeof d);
	md5_init(&d); feed(&d, msg, L[a] + L[b]);
	md5_init(&c); feed(&c, msg, L[a]); feed(&c, msg + L[a], L[b]);
	s = c;
	md5_end(&d, h);
	md5_end(&c, g);
	digest_eq(h, g, 16);
	//@ check context_kept: c.count == s.count && c.val[0] == s.val[0] && c.val[1] == s.val[1] && c.val[2] == s.val[2] && c.val[3] == s.val[3];
	for(i = 0; i < 1; i++) md5_end(&c, h2);
	digest_eq(h2, g, 16);
	VF_END(a, b);
}
/* the published digests of the position-coded message (Python hashlib) */
static const size_t ML[] = {0,1,55,56,57,63,64,65,119,120,121,127,128,129,200};
static const unsigned char MD[][16] = {
{212,29,140,217,143,0,178,4,233,128,9,152,236,248,66,126},
{85,165,64,8,173,27,165,137,170,33,13,38,41,193,223,65},
{240,147,231,53,118,51,247,138,188,222,117,190,243,247,191,161},
{163,215,124,15,230,107,89,103,159,87,94,247,155,35,133,105},
{79,134,8,37,0,41,132,33,4,209,180,155,137,3,75,37},
{162,87,240,59,207,151,194,109,81,192,90,19,81,48,168,227},
{12,31,56,211,247,132,69,152,218,159,141,135,141,100,177,65},
{240,148,212,160,219,201,91,69,79,158,160,202,111,47,218,40},
{239,145,206,146,41,170,5,26,211,209,202,185,128,100,108,99},
{74,130,185,206,160,112,128,150,72,15,233,252,208,129,153,98},
{228,74,15,150,18,153,14,242,237,233,164,252,160,43,111,77},
{61,210,12,128,156,60,35,112,175,15,107,135,42,70,3,161},
{223,234,181,243,27,37,177,26,17,7,135,208,86,135,175,159},
{98,97,201,213,102,171,174,176,214,19,214,195,4,247,55,51},
{43,189,161,117,127,254,108,28,199,52,247,134,11,33,231,245} };
static const size_t SL[] = {0,1,111,112,113,127,128,129,239,240,241,255,256,257,300};
static const unsigned char SD[][64] = {
{207,131,225,53,126,239,184,189,241,84,40,80,214,109,128,7,214,32,228,5,11,87,21,220,131,244,169,33,211,108,233,206,71,208,209,60,93,133,242,176,255,131,24,210,135,126,236,47,99,185,49,189,71,65,122,129,165,56,50,122,249,39,218,62},
{123,84,182,104,54,193,251,221,19,210,68,29,158,20,52,220,98,202,103,127,182,143,95,230,106,70,75,170,222,205,189,0,87,111,141,107,90,195,188,200,8,68,183,213,11,28,198,96,52,68,187,231,207,207,143,192,170,30,227,198,54,217,227,57},
{144,189,127,10,10,195,110,210,119,70,254,178,103,179,74,190,57,160,249,81,142,114,128,55,170,220,224,77,66,225,66,34,160,246,39,72,210,16,5,88,162,47,50,126,132,152,98,175,179,187,148,239,3,12,2,24,250,75,113,108,5,55,179,136},
{61,226,48,2,125,53,83,227,187,108,195,228,31,117,62,18,159,245,157,212,182,32,113,239,60,139,104,217,66,146,53,8,193,71,209,204,154,185,56,70,58,237,253,55,39,215,56,138,132,16,6,89,41,13,134,169,238,213,31,126,109,17,170,93},
{159,242,228,28,48,154,14,98,96,102,1,180,248,222,11,4,34,37,217,207,80,170,139,46,70,20,6,114,217,252,156,129,78,53,25,0,249,146,113,182,94,134,88,202,96,131,96,53,219,111,236,11,73,2,182,32,209,37,11,152,159,209,15,244},
{182,132,1,25,217,15,101,140,204,4,32,142,144,116,24,200,20,37,159,18,7,59,137,71,183,113,215,64,112,242,239,61,241,239,153,209,66,117,25,15,170,224,92,192,190,112,244,217,161,125,87,187,110,60,181,143,25,167,39,224,81,252,40,93},
{161,109,41,64,224,212,167,90,17,1,173,222,6,156,182,148,92,72,98,111,1,158,82,238,29,181,203,242,201,133,245,249,126,208,17,213,233,125,140,24,21,215,248,236,217,136,43,83,110,14,242,24,4,85,215,217,62,8,128,239,62,100,5,47},
{115,28,248,106,104,218,227,132,17,180,36,151,100,85,145,77,73,110,96,55,171,108,172,28,27,89,203,64,177,128,69,11,71,30,2,83,215,42,180,161,1,88,198,43,249,122,159,82,250,3,238,171,168,243,91,125,5,102,80,178,170,215,95,73},
{242,255,7,226,138,28,22,33,93,135,224,224,27,232,160,234,74,44,182,74,35,44,195,139,157,211,77,206,95,223,67,183,184,205,25,107,147,219,96,62,38,68,65,206,244,193,255,40,216,216,135,208,168,10,206,219,218,147,120,190,56,197,186,157},
{90,133,165,145,46,155,107,60,80,24,133,48,50,139,16,176,176,243,234,94,10,89,96,101,28,18,28,193,191,208,182,244,58,20,45,37,187,67,207,108,50,81,230,138,39,189,234,30,149,206,74,23,221,16,104,25,65,102,188,13,216,82,163,29},
{241,43,126,176,103,144,13,136,59,251,134,125,242,92,63,184,81,141,143,3,45,126,21,200,102,105,57,80,137,31,238,13,33,233,144,234,22,84,57,211,80,245,89,130,242,50,157,46,165,216,5,7,76,249,137,33,41,97,31,138,57,172,22,131},
{86,189,45,84,55,131,25,231,95,229,224,38,41,82,40,204,35,241,43,211,139,50,74,48,233,202,252,188,0,147,127,112,21,164,161,175,229,37,74,147,193,48,5,16,28,43,171,164,205,132,12,78,50,150,230,76,90,119,221,198,64,134,52,153},
{255,89,42,79,69,66,162,253,18,172,79,27,131,225,184,65,236,94,243,23,207,50,100,52,108,112,234,44,177,246,229,62,96,156,252,211,56,249,117,87,87,56,146,83,221,228,180,4,121,158,155,198,39,41,11,61,45,221,236,126,78,109,52,89},
{45,108,37,160,64,28,20,84,3,25,135,1,120,237,127,52,147,2,24,30,233,78,62,185,184,71,218,243,44,168,228,179,161,44,251,166,55,194,208,176,222,94,16,119,138,54,134,133,149,49,65,202,4,218,61,136,237,206,254,57,142,226,219,1},
{98,102,57,73,18,163,13,42,112,214,122,209,1,138,230,150,65,243,28,93,159,39,58,23,215,230,190,141,232,114,156,14,11,93,143,227,214,191,206,78,233,168,207,17,101,15,220,118,163,234,153,209,20,194,116,73,220,59,18,61,46,22,162,210} };
static const size_t CL[] = {0,1,2,3,4,5,7,8,9,16,31};
static const unsigned CD[] = {0x0u,0xa505df1bu,0x5619ab8cu,0xa6e524bcu,0xe4a7405fu,0x4a346871u,0x69c0e1f0u,0xa7018cf0u,0xa914c5afu,0x428e5689u,0x8bb91730u};
static const unsigned CCD[] = {0x0u,0xa016d052u,0x681ab76au,0x622ce98u,0x7cf5f5c0u,0x3efa0bdcu,0x8522a30u,0xb34e718cu,0xc67a8801u,0xa6cf75c1u,0xd7777301u};
// opts: -eva-auto-loop-unroll 900
void C31_md5_padding(void) {
	size_t k = any_size(0, 14), i; md5_ctx c; unsigned char h[16];
	VF_BEGIN(k);
	fill(ML[k]);
	memset(&c, 0x44, sizeof c);
	md5_init(&c); feed(&c, msg, ML[k]); md5_end(&c, h);
	digest_eq(h, MD[k], 16);
	VF_END(k);
}
static void sfeed(sha512_ctx *c, const unsigned char *m, size_t n) { unsigned char *q = vf_malloc(n); size_t i; for(i = 0; i < n; i++) q[i] = m[i]; sha512_update(c, q, n); vf_free(q); }
// opts: -eva-auto-loop-unroll 900
void C31_sha512_padding(void) {
	size_t k = any_size(0, 14), cut = any_size(0, 2); sha512_ctx c; unsigned char *h;
	if(cut * 128 > SL[k]) return;
	VF_BEGIN(k, cut);
	fill(SL[k]);
	memset(&c, 0x44, sizeof c);
	sha512_init(&c); if(cut) sfeed(&c, msg, cut * 128); sfeed(&c, msg + cut * 128, SL[k] - cut * 128); h = sha512_end(&c);
	digest_eq(h, SD[k], 64);
	VF_END(k, cut);
}
// opts: -eva-auto-loop-unroll 900
void C31_crc_chunks(void) {
	size_t k, cut, c = any_size(0, 1), i; CRC32C_CTX x; unsigned char *m, *m2, h[4]; unsigned w;
	if(c) CRC32C_InitTables(); else CRC32_InitTables();
	k = any_size(0, 10); cut = any_size(0, 6);
	if(cut > CL[k]) return;
	VF_BEGIN(k, cut, c);
	fill(CL[k]);
	m = vf_malloc(cut); m2 = vf_malloc(CL[k] - cut);
	for(i = 0; i < cut; i++) m[i] = msg[i];
	for(i = cut; i < CL[k]; i++) m2[i - cut] = msg[i];
	memset(&x, 0x44, sizeof x);
	if(c) { CRC32C_Init(&x); CRC32C_Update(&x, m, cut); CRC32C_Update(&x, m2, CL[k] - cut); CRC32C_Final(h, &x); }
	else { CRC32_Init(&x); CRC32_Update(&x, m, cut); CRC32_Update(&x, m2, CL[k] - cut); CRC32_Final(h, &x); }
	w = c ? CCD[k] : CD[k];
	//@ check crc: h[0] == (w & 255) && h[1] == ((w >> 8) & 255) && h[2] == ((w >> 16) & 255) && h[3] == (w >> 24);
	VF_END(k, cut, c);
}
/* long messages: the compression state of the preceding blocks is set to the initial one, the length to
   the given number; expected: one or two blocks of padding behind it */
static const unsigned long BC[] = {0x20000000UL,0x100000000UL,0x1fffffffffffff80UL,0x48d159e26af00UL};
static const unsigned char BD[][16] = {
{220,101,194,169,98,247,181,101,69,231,132,13,222,121,73,248},
{168,139,100,48,195,188,254,89,102,73,47,52,22,22,146,242},
{224,87,197,75,66,175,136,167,112,116,159,221,240,86,137,214},
{250,184,255,171,211,240,38,96,2,22,161,253,175,135,63,251},
{103,21,2,114,95,219,122,216,180,107,178,112,16,70,101,202},
{179,112,58,178,68,9,79,160,176,126,221,85,247,221,135,120},
{185,3,181,43,115,160,121,19,82,196,121,31,148,158,170,13},
{55,98,127,53,227,173,89,214,244,186,253,240,147,227,215,140},
{7,111,187,129,18,222,186,127,92,79,193,200,193,119,93,20},
{167,194,174,31,234,66,93,51,94,197,218,95,212,135,27,247},
{245,135,107,16,148,23,164,183,104,143,70,115,116,52,97,66},
{172,34,131,187,17,134,197,211,158,42,225,169,50,30,113,86} };
static const unsigned long SBC[] = {0x20000000UL,0x100000000UL,0x2000000000000000UL,0xa000000000000000UL,0x48d159e26af00UL};
static const unsigned char SBD[][64] = {
{253,163,122,206,57,13,190,204,62,131,126,217,170,36,144,27,215,19,226,244,168,99,169,221,98,153,184,169,96,87,15,98,211,172,18,52,205,210,199,197,20,148,215,153,175,81,159,149,210,26,189,163,112,43,219,25,85,244,80,52,252,121,192,92},
{243,82,29,136,179,86,114,6,240,112,71,118,201,180,199,47,121,56,251,231,126,36,126,55,244,245,43,237,132,163,85,106,141,186,170,244,126,22,177,46,213,233,125,16,218,67,114,101,5,63,55,55,230,162,64,45,245,11,126,14,117,207,46,231},
{95,202,149,223,216,184,66,66,12,90,231,191,31,239,62,205,16,205,197,215,129,152,74,84,184,63,150,191,222,98,181,200,101,249,111,242,111,244,77,116,170,238,99,86,151,10,143,186,137,236,28,106,50,60,75,122,68,48,141,24,6,198,124,82},
{44,222,66,182,211,35,198,29,134,38,7,144,190,222,127,224,27,184,173,88,88,235,172,118,107,236,226,189,116,71,18,79,47,104,148,41,244,189,231,194,222,79,118,213,198,84,111,162,190,202,153,89,25,206,111,69,190,98,112,244,112,253,74,132},
{255,26,30,65,246,12,16,219,93,192,126,114,95,216,231,59,20,13,188,213,68,17,187,18,161,156,224,37,188,183,246,189,110,219,231,200,130,208,22,155,206,69,185,64,149,213,179,213,7,149,230,93,39,135,179,116,76,123,150,176,111,136,209,40},
{49,234,208,204,203,198,228,23,103,165,120,140,64,118,12,214,248,42,71,253,72,28,241,153,245,147,164,184,88,80,35,244,65,244,218,207,230,235,182,64,227,180,1,86,9,2,157,248,8,17,155,195,101,15,255,174,145,49,126,91,212,254,80,94},
{78,21,88,139,7,63,104,240,117,146,233,165,17,144,167,224,14,46,250,170,54,95,179,24,242,126,130,229,198,223,148,168,98,213,75,130,92,239,204,59,210,137,119,252,239,199,253,140,172,40,31,51,73,119,121,126,163,149,219,255,33,49,26,114},
{244,158,14,58,37,170,135,179,40,126,118,101,49,62,122,180,235,40,153,242,130,223,98,179,65,220,109,20,97,99,177,209,89,140,30,40,243,149,131,6,152,63,167,228,163,55,229,93,113,132,245,108,161,170,199,73,244,169,8,174,41,237,162,128},
{60,242,206,52,244,57,219,86,39,132,98,146,176,8,231,206,196,50,185,197,224,152,165,91,93,148,112,43,5,75,149,255,83,109,12,11,73,124,108,236,80,125,61,255,145,40,201,33,116,63,207,210,220,79,86,41,59,63,191,172,76,36,183,172},
{151,39,202,200,245,255,206,127,81,64,76,117,92,172,21,152,218,201,186,255,120,71,122,250,205,128,90,122,157,7,87,161,2,191,215,87,109,94,151,22,202,72,226,232,64,112,201,120,6,107,126,245,244,193,29,246,105,85,185,119,172,211,69,86},
{160,20,150,114,201,61,43,249,37,59,231,250,9,100,61,49,87,217,132,224,109,96,63,71,43,233,243,99,217,95,140,206,149,66,19,249,211,139,89,94,95,40,120,146,181,148,199,84,204,241,35,89,37,248,189,80,16,137,212,64,213,84,83,166},
{94,237,193,223,232,179,164,131,80,88,225,14,131,41,175,238,164,118,92,182,56,119,160,205,53,84,57,97,55,61,213,36,110,200,114,106,166,211,113,232,212,110,5,229,4,81,227,66,6,10,66,183,166,180,82,168,190,255,43,57,37,83,47,252},
{53,195,26,49,241,245,224,177,9,132,99,47,136,110,122,114,206,106,50,179,33,97,224,172,51,158,53,111,197,92,169,7,22,52,139,128,141,146,249,80,117,190,221,87,61,123,242,80,247,253,81,55,58,69,204,174,239,54,8,119,62,5,65,194},
{217,67,38,216,97,104,84,88,206,18,20,64,204,2,216,161,32,250,252,54,215,233,159,255,103,236,225,186,93,73,88,171,93,240,247,169,84,51,92,223,38,18,201,130,108,49,111,171,16,236,93,194,198,175,195,108,37,242,228,159,205,181,197,211},
{218,123,244,156,88,94,10,26,170,60,159,235,144,202,183,11,129,107,251,182,27,100,10,157,91,204,2,233,72,213,120,107,196,56,90,35,145,139,74,250,41,86,112,81,71,114,83,50,245,102,80,138,107,156,238,213,192,57,182,204,37,228,205,16} };
static const size_t BT[] = { 0, 5, 60 };
static const size_t SBT[] = { 0, 5, 120 };
// opts: -eva-auto-loop-unroll 900
void C31_md5_long(void) {
	size_t k = any_size(0, 3), t = any_size(0, 2); md5_ctx c; unsigned char h[16];
	VF_BEGIN(k, t);
	fill(BT[t]);
	md5_init(&c); c.count = BC[k]; feed(&c, msg, BT[t]); md5_end(&c, h);
	digest_eq(h, BD[k * 3 + t], 16);
	VF_END(k, t);
}
// opts: -eva-auto-loop-unroll 900
void C31_sha512_long(void) {
	size_t k = any_size(0, 4), t = any_size(0, 2); sha512_ctx c; unsigned char *h;
	VF_BEGIN(k, t);
	fill(SBT[t]);
	sha512_init(&c); c.b = SBC[k]; sfeed(&c, msg, SBT[t]); h = sha512_end(&c);
	digest_eq(h, SBD[k * 3 + t], 64);
	VF_END(k, t);
}
/* any content: nothing outside the context, the input and the output is touched */
static const size_t AL[] = { 0, 1, 63, 64, 65, 130 };
// opts: -eva-auto-loop-unroll 900 -eva-ilevel 8
void C31_any_md5(void) {
	size_t k = any_size(0, 5); md5_ctx c; unsigned char *m, *h;
	VF_BEGIN(k);
	m = vf_malloc(AL[k]); vf_any_bytes(m, AL[k]); h = vf_malloc(16);
	md5_init(&c); md5_update(&c, m, AL[k]); md5_update(&c, m, AL[k]); md5_end(&c, h);
	VF_END(k);
}
// opts: -eva-auto-loop-unroll 900 -eva-ilevel 8
void C31_any_sha512(void) {
	size_t k = any_size(0, 5); sha512_ctx s; unsigned char *m, *h;
	VF_BEGIN(k);
	m = vf_malloc(AL[k]); vf_any_bytes(m, AL[k]);
	sha512_init(&s); sha512_update(&s, m, AL[k]); h = sha512_end(&s);
	//@ check digest_in_context: h >= (unsigned char*)&s && h + 64 <= (unsigned char*)(&s + 1);
	VF_END(k);
}
// opts: -eva-auto-loop-unroll 900 -eva-ilevel 8
void C31_any_crc(void) {
	size_t w = any_size(0, 1), k; CRC32C_CTX x; unsigned char *m, *h;
	if(w) CRC32C_InitTables(); else CRC32_InitTables();
	k = any_size(0, 9);
	VF_BEGIN(k, w);
	m = vf_malloc(k); vf_any_bytes(m, k); h = vf_malloc(4);
	if(w) { CRC32C_Init(&x); CRC32C_Update(&x, m, k); CRC32C_Final(h, &x); }
	else { CRC32_Init(&x); CRC32_Update(&x, m, k); CRC32_Final(h, &x); }
	VF_END(k, w);
}
/* more than 4 GB in one piece: the length counts in full (only that is decided here) */
// opts: -absolute-valid-range 0x1000-0xfffffffffffffff -eva-auto-loop-unroll 0 -eva-slevel 4
// ladder: 1
// only: full_length
// soft: refuted
void C31_sha512_huge(void) {
	size_t k = any_size(0, 3); sha512_ctx c; static const size_t add[] = { 1UL << 32, (1UL << 32) + 5, (5UL << 33) + 128, (1UL << 36) - 1 }; uint64_t b;
	VF_BEGIN(k);
	sha512_init(&c);
	b = c.b;
	//@ check full_length: b == 0;
	sha512_update(&c, (unsigned char*)0x10000, add[k]);
	b = c.b;
	//@ check full_length: b == add[k];
	VF_END(k);
}
