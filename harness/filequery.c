/* C35: file queries.  stat gives every size and time or fails. */
#include "vf.h"
#include "vf_sys.h"
#include "filelib.h"
static long any_class(void) {      /* representatives of every magnitude: a truncation to any narrower type shows */
	long k = Frama_C_interval(0, 9);
	//@ split k;
	return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 255 : k == 3 ? 65536 : k == 4 ? 0x7fffffffL : k == 5 ? 0x80000000L
		: k == 6 ? 0xffffffffL : k == 7 ? 0x100000001L : k == 8 ? 0x123456789abcL : 0x7fffffffffffffffL; }
void C35_getfilesize(void) {
	long sz = any_class(), err = Frama_C_interval(0, 1); char name[] = "dir/f"; size_t r; int nfd;
	//@ split err;
	VF_BEGIN(sz, err);
	vf_statsize = sz; vf_io_err = err; vf_close_any = 0;
	r = getfilesize(name);
	//@ check size_or_0: vf_io_failed ? r == 0 : r == sz;
	//@ check same_file: vf_stat_path == &name[0] || vf_open_path == &name[0];
	//@ check follows_links: vf_nlstat == 0;
	//@ check nothing_left_open: vf_openfds == 0;
	VF_END(sz, err);
}
void C35_getFileModTime(void) {
	long t = any_class(), neg = Frama_C_interval(0, 1), err = Frama_C_interval(0, 1); char name[] = "dir/f"; time_t r;
	//@ split err;
	//@ split neg;
	if(neg) t = -t - 3;
	VF_BEGIN(t, err);
	vf_statmtime = t; vf_statsize = 77; vf_io_err = err;
	r = getFileModTime(name);
	//@ check time_or_0: vf_io_failed ? r == 0 : r == t;
	//@ check same_file: vf_stat_path == &name[0] || vf_open_path == &name[0];
	//@ check follows_links: vf_nlstat == 0;
	//@ check nothing_left_open: vf_openfds == 0;
	VF_END(t, err);
}
