/* C10, C34: hbmap_foreach over every pattern of empty, single and double buckets. */
#include "vf.h"
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include "hbmap.h"
#ifdef VF_THOROUGH
#define NB 6
#else
#define NB 5
#endif
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static int cmpint(const void *a, const void *b) { int x = *(const int*) a, y = *(const int*) b; return x < y ? -1 : x > y; }
static unsigned hashf(const int k) { return k; }   /* key 10*j+b: bucket by the key modulo NB */
typedef hbmap(int, int, NB) M;
static M m;
static void walk(size_t mask, size_t twice) {
	size_t b, left = 0, last = 0; hbmap_iter it; unsigned seen = 0, seen2 = 0, want = 0, want2 = 0;
	hbmap_init(&m, cmpint, hashf);
	for(b = 0; b < NB; b++) if(mask >> b & 1) {
		int k = b; hbmap_insert(&m, k, 100 + (int) b); want |= 1u << b; left++;
		if(twice == b) { k = b + NB; hbmap_insert(&m, k, 200 + (int) b); want2 |= 1u << b; left++; }
	}
	hbmap_foreach(&m, it) {
		int k = hbmap_getkey(&m, it), v = hbmap_getval(&m, it); size_t j = k >= NB ? k - NB : k, vw = (k >= NB ? 200 : 100) + j;
		//@ check an_entry: 0 <= k < 2 * NB;
		//@ check its_value: v == vw;
		//@ check not_left: left > 0;
		left--;
		if(k >= NB) {
			//@ check second_once: !(seen2 >> j & 1);
			seen2 |= 1u << j;
		} else {
			//@ check once: !(seen >> j & 1);
			seen |= 1u << j; }
		//@ check bucket_order: j >= last;
		last = j;
	}
	//@ check all_visited: seen == want && seen2 == want2;
	hbmap_fini(&m, 0);
}
// opts: -eva-auto-loop-unroll 20
void C34_hbmap_foreach(void) { size_t mask = any_size(0, (1 << NB) - 1), twice = any_size(0, NB);
	VF_BEGIN(mask, twice);
	walk(mask, twice);
	VF_END(mask, twice);
}
// opts: -eva-auto-loop-unroll 20
void C10_hbmap_iterate(void) { size_t mask = any_size(0, (1 << NB) - 1);
	VF_BEGIN(mask);
	walk(mask, mask % (NB + 1));
	VF_END(mask);
}
/* deleting every entry from inside the loop, as the header documents */
// opts: -eva-auto-loop-unroll 20
void C34_hbmap_delete_all(void) { size_t mask = any_size(0, (1 << NB) - 1), twice = any_size(0, NB), b, n = 0, want = 0; hbmap_iter it;
	VF_BEGIN(mask, twice);
	hbmap_init(&m, cmpint, hashf);
	for(b = 0; b < NB; b++) if(mask >> b & 1) {
		int k = b; hbmap_insert(&m, k, 1); want++;
		if(twice == b) { k = b + NB; hbmap_insert(&m, k, 2); want++; }
	}
	hbmap_foreach(&m, it) { while(hbmap_iter_index_valid(&m, it)) { hbmap_delete(&m, it); n++; } }
	//@ check all_deleted: n == want;
	n = 0;
	hbmap_foreach(&m, it) n++;
	//@ check empty: n == 0;
	hbmap_fini(&m, 0);
	VF_END(mask, twice);
}
