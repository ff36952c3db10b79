/* C01 (timestamp), C25: sleeping and clock arithmetic; the clock calls are models. */
#include "vf.h"
#include <string.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include "timelib.h"
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
/* ---- sleeping -------------------------------------------------------------- */
static long want_s, want_ns; static int calls, done, ints, other, range_only;
int vf_nanosleep(const struct timespec *req, struct timespec *rem) {
	long s = req->tv_sec, ns = req->tv_nsec;
	//@ check nanoseconds_in_range: 0 <= ns < 1000000000 && s >= 0;
	//@ check not_after_the_end: done == 0;
	if(!range_only || calls) {
		//@ check requested_seconds: s == want_s;
		//@ check requested_nanoseconds: ns == want_ns;
	}
	calls++;
	if(ints > 0) {
		ints--;
		want_s = 5 + ints; want_ns = 1000 + ints;
		if(rem) { rem->tv_sec = want_s; rem->tv_nsec = want_ns; }
		errno = EINTR; return -1;
	}
	done = 1;
	if(other) { errno = EINVAL; return -1; }
	return 0;
}
static const long ms[] = { 0, 1, 999, 1000, 1001, 59999, 2147483, 2147484, 4294968, 2147483648L, 86400000123L };
static const long us[] = { 0, 1, 999999, 1000000, 1000001, 2147483, 2147484, 4294967296L, 2147483648000123L, 86400000001L };
void C25_msleep(void) {
	size_t k = any_size(0, 10), in = any_size(0, 3), o = any_size(0, 1); int r, stale = VF_NONDET();
	//@ split stale;
	VF_BEGIN(k, in, o, stale);
	want_s = ms[k] / 1000; want_ns = ms[k] % 1000 * 1000000; ints = in; other = o; errno = stale ? EINTR : 0;
	r = msleep(ms[k]);
	//@ check result: r == (o ? -1 : 0);
	//@ check resumed: calls == in + 1 && done == 1;
	VF_END(k, in, o, stale);
}
void C25_microsleep(void) {
	size_t k = any_size(0, 9), in = any_size(0, 3), o = any_size(0, 1); int r, stale = VF_NONDET();
	//@ split stale;
	VF_BEGIN(k, in, o, stale);
	want_s = us[k] / 1000000; want_ns = us[k] % 1000000 * 1000; ints = in; other = o; errno = stale ? EINTR : 0;
	r = microsleep(us[k]);
	//@ check result: r == (o ? -1 : 0);
	//@ check resumed: calls == in + 1 && done == 1;
	VF_END(k, in, o, stale);
}
/* every duration: the request is well-formed */
void C25_sleep_range(void) {
	size_t k = any_size(0, 1), in = any_size(0, 1); long d = Frama_C_long_interval(0, 0x7fffffffffffffffL); int r;
	VF_BEGIN(k, in);
	range_only = 1; ints = in;
	r = k ? msleep(d) : microsleep(d);
	//@ check result: r == 0;
	VF_END(k, in);
}
/* ---- clocks ---------------------------------------------------------------- */
static long now_s, now_us; static int asked;
int vf_gettimeofday(struct timeval *t, void *z) { t->tv_sec = now_s; t->tv_usec = now_us; asked++; return 0; }
int vf_clock_gettime(int c, struct timespec *t) { t->tv_sec = now_s; t->tv_nsec = now_us * 1000; asked++; return 0; }
static const long secs[] = { 0, 1, 1000000000, 2147483647, 2147483648L, 4294967297L, 9000000000L };
static const long usecs[] = { 0, 1, 999, 1000, 500000, 999999 };
void C25_getutime(void) {
	size_t a = any_size(0, 6), b = any_size(0, 5); long long r; struct timeval t;
	VF_BEGIN(a, b);
	now_s = secs[a]; now_us = usecs[b];
	r = getutime();
	//@ check microseconds: r == secs[a] * 1000000 + usecs[b];
	t.tv_sec = t.tv_usec = -1;
	gettimestamp(&t);
	//@ check current_time: t.tv_sec == secs[a] && t.tv_usec == usecs[b];
	VF_END(a, b);
}
void C25_mspassed(void) {
	size_t a = any_size(0, 6), b = any_size(0, 5), c = any_size(0, 6), d = any_size(0, 5); long r, w; struct timeval t;
	if(c > a || (c == a && d > b)) return;
	VF_BEGIN(a, b, c, d);
	now_s = secs[a]; now_us = usecs[b]; t.tv_sec = secs[c]; t.tv_usec = usecs[d];
	w = ((now_s - t.tv_sec) * 1000000 + now_us - t.tv_usec) / 1000;
	r = mspassed(&t);
	//@ check milliseconds: r == w;
	//@ check argument_unchanged: t.tv_sec == secs[c] && t.tv_usec == usecs[d];
	VF_END(a, b, c, d);
}
static const long nsecs[] = { 0, 1, 500000000, 999999999 };
void C25_timespec_diff(void) {
	size_t a = any_size(0, 6), b = any_size(0, 3), c = any_size(0, 6), d = any_size(0, 3); long long r, w; struct timespec x, y;
	VF_BEGIN(a, b, c, d);
	x.tv_sec = secs[a]; x.tv_nsec = nsecs[b]; y.tv_sec = secs[c]; y.tv_nsec = nsecs[d];
	w = (secs[a] - secs[c]) * 1000000000 + nsecs[b] - nsecs[d];
	r = timespec_diff(&x, &y);
	//@ check nanoseconds: r == w;
	//@ check arguments_unchanged: x.tv_sec == secs[a] && y.tv_nsec == nsecs[d];
	VF_END(a, b, c, d);
}
/* ---- timestamp ------------------------------------------------------------- */
static struct tm T;
time_t vf_time(time_t *t) { if(t) *t = 1700000000; return 1700000000; }
struct tm *vf_localtime_r(const time_t *t, struct tm *r) {
	//@ check converts_the_current_time: *t == 1700000000;
	*r = T; return r;
}
static void put(char *w, int v, int n) { while(n) { w[--n] = '0' + v % 10; v /= 10; } }
static char out[40];
static void stamp(size_t size) {
	char want[20]; size_t r, i, n;
	want[4] = want[7] = '-'; want[10] = ' '; want[13] = want[16] = ':'; want[19] = 0;
	put(want, T.tm_year + 1900, 4); put(want + 5, T.tm_mon + 1, 2); put(want + 8, T.tm_mday, 2); put(want + 11, T.tm_hour, 2); put(want + 14, T.tm_min, 2); put(want + 17, T.tm_sec, 2);
	char *b = vf_malloc(size);
	r = timestamp(b, size);
	if(size) {
		n = size > 19 ? 19 : size - 1;
		//@ check length: r == n;
		for(i = 0; i < n; i++) {
			//@ check text: b[i] == want[i];
		}
		//@ check terminated: b[n] == 0;
	}
}
static const int ylo[] = { -1900, -1800, 70, 126, 8099 };
void C25_timestamp(void) {
	size_t f = any_size(0, 5), y = any_size(0, 4), v = any_size(0, 61);
	if((f && y) || (f == 1 && v > 11) || (f == 2 && (v < 1 || v > 31)) || (f == 3 && v > 23) || (f == 4 && v > 59) || (!f && v)) return;
	VF_BEGIN(f, y, v);
	T.tm_year = f ? 123 : ylo[y]; T.tm_mon = 10; T.tm_mday = 18; T.tm_hour = 17; T.tm_min = 5; T.tm_sec = 9;
	if(f == 1) T.tm_mon = v; if(f == 2) T.tm_mday = v; if(f == 3) T.tm_hour = v; if(f == 4) T.tm_min = v; if(f == 5) T.tm_sec = v;
	stamp(32);
	VF_END(f, y, v);
}
void C01_timestamp(void) {
	size_t n = any_size(0, 24);
	VF_BEGIN(n);
	T.tm_year = 123; T.tm_mon = 10; T.tm_mday = 8; T.tm_hour = 17; T.tm_min = 5; T.tm_sec = 60;
	stamp(n);
	VF_END(n);
}
#include <fcntl.h>
#include "vf_sys.h"
#include "logger.h"
void C22_log_timestamp(void) {
	size_t fd = any_size(1, 4), i; static const char want[] = "2023-11-08 17:05:60";
	VF_BEGIN(fd);
	vf_fdstate[fd] = 1; vf_fdflags[fd] = O_WRONLY;
	T.tm_year = 123; T.tm_mon = 10; T.tm_mday = 8; T.tm_hour = 17; T.tm_min = 5; T.tm_sec = 60;
	log_timestamp(fd);
	//@ check one_write: vf_writes == 1 && vf_outfd == fd;
	//@ check length: vf_outlen == 19;
	for(i = 0; i < 19; i++) {
		//@ check text: vf_out[i] == want[i];
	}
	VF_END(fd);
}
