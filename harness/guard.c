/* C27: guarded allocations; mmap, mprotect and munmap are models that record the mapping.
   Addresses are absolute numbers, so any page arithmetic can be followed. */
// file-opts: -absolute-valid-range 0x100000-0x1fffff
#include "vf.h"
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
#include "guard_alloc.c"
static unsigned long base, len, rw_lo, rw_hi, na_lo, na_hi; static int mapped, fail, failed;
#define BASE 0x100000UL
void *vf_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
	//@ check one_mapping: mapped == 0 && n > 0;
	//@ check anonymous_private: (flags & MAP_ANONYMOUS) != 0 && (flags & MAP_PRIVATE) != 0 && a == \null;
	if(fail == 1) { failed = 1; errno = ENOMEM; return MAP_FAILED; }
	n = (n + 4095) & ~4095UL;
	base = BASE; len = n; mapped = 1; rw_lo = BASE; rw_hi = (prot & PROT_WRITE) && (prot & PROT_READ) ? BASE + n : BASE;
	na_lo = BASE; na_hi = prot == PROT_NONE ? BASE + n : BASE;
	return (void*)BASE;
}
int vf_mprotect(void *p, size_t n, int prot) {
	unsigned long a = (unsigned long)p;
	//@ check page_aligned: a % 4096 == 0;
	n = (n + 4095) & ~4095UL;
	//@ check inside_mapping: mapped == 1 && a >= base && a + n <= base + len;
	if(fail == 2) { failed = 1; errno = ENOMEM; return -1; }
	if((prot & PROT_WRITE) && (prot & PROT_READ)) { if(rw_lo == rw_hi) { rw_lo = a; rw_hi = a + n; } else { if(a < rw_lo) rw_lo = a; if(a + n > rw_hi) rw_hi = a + n; } }
	else if(a <= rw_lo && a + n >= rw_hi) rw_lo = rw_hi = a; else { if(a <= rw_lo && a + n > rw_lo) rw_lo = a + n; if(a < rw_hi && a + n >= rw_hi) rw_hi = a; }
	if(prot == PROT_NONE) { if(na_lo == na_hi) { na_lo = a; na_hi = a + n; } else { if(a < na_lo && a + n >= na_lo) na_lo = a; if(a + n > na_hi && a <= na_hi) na_hi = a + n; } }
	else if(a <= na_lo && a + n >= na_hi) na_lo = na_hi = a; else { if(a <= na_lo && a + n > na_lo) na_lo = a + n; if(a < na_hi && a + n >= na_hi) na_hi = a; }
	return 0;
}
int vf_munmap(void *p, size_t n) {
	unsigned long a = (unsigned long)p;
	n = (n + 4095) & ~4095UL;
	//@ check unmaps_the_mapping: mapped == 1 && a == base && n == len;
	mapped = 2;
	return 0;
}
static const size_t sizes[] = { 0, 1, 79, 80, 4095, 4096, 4097, 8191, 8192, 8193, 3 * 4096 + 80, (1UL << 20) - 1, 1UL << 20, (1UL << 20) + 1, (1UL << 31) - 1, 1UL << 31, (1UL << 32) - 4096, (1UL << 32) + 5, 5UL << 32 };
static void one(size_t n) {
	char *m; unsigned long a;
	m = guard_alloc(n); a = (unsigned long)m;
	if(!m) {
		//@ check fails_for_reason: failed == 1;
		//@ check nothing_mapped: mapped != 1;
	} else {
		//@ check all_steps_succeeded: failed == 0 && mapped == 1;
		//@ check block_writable: rw_lo <= a && a + n <= rw_hi;
		//@ check guard_follows: a + n == rw_hi && na_lo <= rw_hi && rw_hi + 4096 <= na_hi && na_hi <= base + len;
		guard_free(m, n);
		//@ check unmapped: mapped == 2;
	}
}
void C27_sizes(void) {
	size_t k = any_size(0, 18), f = any_size(0, 2);
	VF_BEGIN(k, f);
	fail = f;
	one(sizes[k]);
	VF_END(k, f);
}
/* every remainder modulo the page size that the tier covers */
#ifdef VF_THOROUGH
#define NR 1024
#else
#define NR 128
#endif
// opts: -eva-split-limit 2000
void C27_remainders(void) {
	size_t k = any_size(0, NR - 1), n;
	VF_BEGIN(k);
	n = 3 * 4096 + k * (4096 / NR);
	one(n);
	VF_END(k);
}
