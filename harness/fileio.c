/* C01, C14, C15, C17: whole-file helpers and the line reader, against a descriptor model in which
   every call may fail and every transfer may be short. */
#include "vf.h"
#include "vf_sys.h"
#include <string.h>
#include <fcntl.h>
#include "stringptr.h"
#include "stringptrlist.h"
#include "fileparser.h"
#include "filelib.h"
#ifdef VF_THOROUGH
#define FMAX 6
#else
#define FMAX 4
#endif
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static void errors(int err, int shrt, int oom) { vf_io_err = err; vf_io_short = shrt; vf_oom_on = oom; }
static char fname[] = "f";

static void fromfile(int content) {
	size_t st = any_size(0, FMAX), fl = any_size(0, FMAX), i; stringptr *r;
	for(i = 0; i < fl; i++) vf_file[i] = i == 1 ? 0 : 'A' + i;
	VF_BEGIN(st, fl);
	vf_flen = fl; vf_statsize = st;
	errors(1, 1, 1);
	r = stringptr_fromfile(fname);
	//@ check no_descriptor_left: vf_openfds == 0;
	if(content) {
		if(r) {
			//@ check complete: r->size == st && st <= fl && st > 0;
			for(i = 0; i < st; i++) {
				//@ check content: r->ptr[i] == (i == 1 ? 0 : 'A' + i);
			}
			//@ check terminated: r->ptr[st] == 0;
			//@ check no_failure: vf_io_failed == 0;
			//@ check read_only: (vf_fdflags[3] & 3) == O_RDONLY && vf_open_path == fname;
		} else {
			//@ check null_for_reason: vf_io_failed || vf_oom_hit || st == 0 || fl < st;
			//@ check nothing_left: vf_live == 0;
		}
	}
	VF_END(st, fl);
}
void C15_fromfile(void) { fromfile(1); }
void C14_fromfile(void) { fromfile(0); }
void C15_fromfile_big(void) {
	size_t k = any_size(0, 2), n, i; stringptr *r;
	VF_BEGIN(k);
	n = 65535 + k;
	memset(vf_file, 'x', n); vf_file[0] = 'F'; vf_file[n - 1] = 'L';
	if(n > 65536) vf_file[65536] = 'M';
	vf_flen = n;
	r = stringptr_fromfile(fname);
	//@ check ok: r != \null;
	//@ check size: r->size == n;
	//@ check first: r->ptr[0] == 'F';
	//@ check middle: r->ptr[30000] == 'x';
	//@ check last: r->ptr[n - 1] == (n > 65536 ? 'M' : 'L');
	//@ check terminated: r->ptr[n] == 0;
	VF_END(k);
}
static void tofile(int content) {
	size_t n = any_size(0, FMAX), i, r; stringptr s; char *b = vf_malloc(n + 1) ; b++;
	for(i = 0; i < n; i++) b[i] = i == 1 ? 0 : 'A' + i;
	VF_BEGIN(n);
	s.ptr = b; s.size = n;
	errors(1, 1, 0);
	r = stringptr_tofile(fname, &s);
	//@ check no_descriptor_left: vf_openfds == 0;
	if(content) {
		//@ check counts_what_was_accepted: r == vf_outlen;
		//@ check at_most_all: r <= n;
		if(!(vf_io_failed & 1)) {
			//@ check everything: r == n;
		}
		for(i = 0; i < n; i++) if(i < r) {
			//@ check content: vf_out[i] == (i == 1 ? 0 : 'A' + i);
		}
		if(vf_nopen) { int fl = vf_fdflags[3];
			//@ check fresh_file: (fl & O_TRUNC) && (fl & O_CREAT) && (fl & 3) == O_WRONLY && !(fl & O_APPEND);
		}
		//@ check source_unchanged: s.ptr == b && s.size == n;
	}
	errors(0, 0, 0);
	r = stringptr_tofile(0, &s);
	//@ check null_name: r == 0 && vf_openfds == 0;
	r = stringptr_tofile(fname, 0);
	//@ check null_buffer: r == 0 && vf_openfds == 0;
	VF_END(n);
}
void C15_tofile(void) { tofile(1); }
void C14_tofile(void) { tofile(0); }
void C15_tofile_big(void) {
	size_t k = any_size(0, 2), n, r; stringptr s; char *b;
	VF_BEGIN(k);
	n = 65535 + k;
	b = vf_malloc(n); memset(b, 'x', n); b[0] = 'F'; b[n - 1] = 'L';
	s.ptr = b; s.size = n;
	r = stringptr_tofile(fname, &s);
	//@ check all: r == n && vf_outlen == n;
	//@ check ends: vf_out[0] == 'F' && vf_out[n - 1] == 'L' && vf_out[30000] == 'x';
	VF_END(k);
}
static void list_tofile(int content) {
	size_t n = any_size(0, 2), a = any_size(0, 2), b = any_size(0, 2), i, w = 0; stringptrlist *l; stringptr s; char d[2], e[2], want[8]; int r;
	VF_BEGIN(n, a, b);
	l = stringptrlist_new(2);
	d[0] = 'a'; d[1] = 'b'; e[0] = 'c'; e[1] = 'd';
	if(n > 0) { s.ptr = d; s.size = a; stringptrlist_add(l, d, a); for(i = 0; i < a; i++) want[w++] = d[i]; want[w++] = '\n'; }
	if(n > 1) { s.ptr = e; s.size = b; stringptrlist_add(l, e, b); for(i = 0; i < b; i++) want[w++] = e[i]; want[w++] = '\n'; }
	errors(1, 1, 0);
	r = stringptrlist_tofile(l, fname, 0640);
	//@ check no_descriptor_left: vf_openfds == 0;
	if(content) {
		if(r) {
			//@ check one: r == 1;
			//@ check complete: vf_outlen == w;
			for(i = 0; i < w; i++) {
				//@ check content: vf_out[i] == want[i];
			}
			int fl = vf_fdflags[3]; i = vf_open_mode;
			//@ check fresh_file: (fl & O_TRUNC) && (fl & O_CREAT) && (fl & 3) == O_WRONLY;
			//@ check mode: i == 0640;
		} else {
			//@ check failed_for_reason: vf_outlen < w || vf_nopen == 0;
		}
	}
	VF_END(n, a, b);
}
void C15_list_tofile(void) { list_tofile(1); }
void C14_list_tofile(void) { list_tofile(0); }
/* file of n characters, newline or a letter (a different one at each place) */
static void gen_of(size_t n, size_t kinds) { size_t i, k; for(i = 0; i < n; i++) { k = any_size(0, kinds - 1); vf_file[i] = k == 2 ? 0 : k ? 'a' + i : '\n'; } vf_flen = n; }
static void gen(size_t n) { gen_of(n, 2); }
static void list_fromfile(int content) {
	size_t n = any_size(0, FMAX), i, p = 0, k = 0, ln; stringptrlist *l; stringptr *s; int r, live; char c0, c1, c2, c3;
	gen_of(n, n < 4 ? 3 : 2);
	c0 = n > 0 ? vf_file[0] : 0; c1 = n > 1 ? vf_file[1] : 0; c2 = n > 2 ? vf_file[2] : 0; c3 = n > 3 ? vf_file[3] : 0;
	VF_BEGIN(n, c0, c1, c2, c3);
	l = stringptrlist_new(4);
	live = vf_live;
	errors(1, 0, 1);
	r = stringptrlist_fromfile(l, fname);
	errors(0, 0, 0);
	//@ check no_descriptor_left: vf_openfds == 0;
	if(content) {
		if(r) {
			//@ check no_failure: vf_io_failed == 0 && vf_oom_hit == 0;
			ln = stringptrlist_getsize(l);
			//@ split ln;
			for(k = 0; k < ln; k++) {
				s = stringptrlist_get(l, k);
				for(i = 0; p + i < n && vf_file[p + i] != '\n'; i++) {
					//@ check text: s->ptr[i] == vf_file[p + i];
				}
				//@ check length: s->size == i;
				//@ check terminated: s->ptr[i] == 0;
				p += i + 1;
			}
			if(p < n) {
				//@ check stops_only_at_blank_line: vf_file[p] == '\n';
			}
		} else {
			//@ check failed_for_reason: vf_io_failed || vf_oom_hit;
		}
		stringptrlist_freeall(l);
		//@ check owned_once: vf_live == 0;
	}
	VF_END(n, c0, c1, c2, c3);
}
void C15_list_fromfile(void) { list_fromfile(1); }
void C14_list_fromfile(void) { list_fromfile(0); }
/* lines around the size of the reader's buffer */
// opts: -eva-auto-loop-unroll 2200
void C15_list_fromfile_long(void) {
	size_t k = any_size(0, 4), nl = any_size(0, 1), n; stringptrlist *l; stringptr *s; int r;
	VF_BEGIN(k, nl);
	n = 1021 + k;
	memset(vf_file, 'x', n); vf_flen = n;
	if(nl) { vf_file[n] = '\n'; vf_flen = n + 1; }
	l = stringptrlist_new(4);
	r = stringptrlist_fromfile(l, fname);
	//@ check result: r == (n < 1024 ? 1 : 0);
	if(n < 1024) { s = stringptrlist_get(l, 0);
		//@ check length: s->size == n;
	}
	//@ check no_descriptor_left: vf_openfds == 0;
	VF_END(k, nl);
}

/* ---- the line reader ---------------------------------------------------- */
static fileparser fp;
/* the whole file, line by line */
void C17_lines(void) {
	size_t n = any_size(0, FMAX + 1), bs = any_size(1, 4), i, p = 0, ln, steps; int r; char *b = vf_malloc(bs + 1); char c0, c1, c2, c3; b++;
	gen(n);
	c0 = n > 0 ? vf_file[0] : 0; c1 = n > 1 ? vf_file[1] : 0; c2 = n > 2 ? vf_file[2] : 0; c3 = n > 3 ? vf_file[3] : 0;
	VF_BEGIN(n, bs, c0, c1, c2, c3);
	r = fileparser_open(&fp, fname);
	//@ check opened: r == 0;
	for(steps = 0; steps < n + 2; steps++) {
		r = fileparser_readline_userbuf(&fp, b, bs);
		if(p >= n) {
			//@ check end: r == -2;
			break;
		}
		for(ln = 0; p + ln < n && vf_file[p + ln] != '\n'; ln++) ;
		if(ln >= bs) {
			//@ check too_long: r == -3;
			//@ check position_kept: vf_fpos == p && fp.fpos == p;
			break;
		}
		//@ check ok: r == 0;
		for(i = 0; i < ln; i++) {
			//@ check text: b[i] == vf_file[p + i];
		}
		//@ check terminated: b[ln] == 0;
		//@ check length: fp.len == ln;
		p += ln + 1;
		//@ check position: vf_fpos == (p < n ? p : n);
	}
	r = fileparser_close(&fp);
	//@ check closed: r == 0 && vf_openfds == 0 && fp.file == -1;
	VF_END(n, bs, c0, c1, c2, c3);
}
/* the same with the parser's own buffer, and getline */
void C17_readline(void) {
	size_t n = any_size(0, 3), i, p = 0, ln, steps; int r; stringptr s; char c0, c1, c2;
	gen_of(n, 3);
	c0 = n > 0 ? vf_file[0] : 0; c1 = n > 1 ? vf_file[1] : 0; c2 = n > 2 ? vf_file[2] : 0;
	VF_BEGIN(n, c0, c1, c2);
	fileparser_open(&fp, fname);
	for(steps = 0; steps < n + 2; steps++) {
		r = fileparser_readline(&fp);
		if(p >= n) {
			//@ check end: r == -2;
			break;
		}
		for(ln = 0; p + ln < n && vf_file[p + ln] != '\n'; ln++) ;
		r = fileparser_getline(&fp, &s);
		//@ check ok: r == 0;
		//@ check line: s.size == ln;
		for(i = 0; i < ln; i++) {
			//@ check text: s.ptr[i] == vf_file[p + i];
		}
		//@ check terminated: s.ptr[ln] == 0;
		p += ln + 1;
	}
	VF_END(n, c0, c1, c2);
}
/* one step from the start of any line, with failing calls */
void C17_step_errors(void) {
	size_t n = any_size(0, 4), p = any_size(0, 4), bs = any_size(0, 3), i, ln; int r; char *b = vf_malloc(bs + 1); char c0; b++;
	if(p > n) return;
	gen(n);
	if(p && vf_file[p - 1] != '\n') return;
	VF_BEGIN(n, p, bs);
	fileparser_open(&fp, fname);
	fp.fpos = p; vf_fpos = p;
	errors(1, 0, 0);
	r = fileparser_readline_userbuf(&fp, b, bs);
	for(ln = 0; p + ln < n && vf_file[p + ln] != '\n'; ln++) ;
	if(vf_io_failed) {
		//@ check failure_reported: r != 0;
	} else if(p >= n || !bs) {
		//@ check end: r == -2;
		//@ check position_at_end: fp.fpos == p;
	} else if(ln >= bs) {
		//@ check too_long: r == -3;
		//@ check position_kept: vf_fpos == p && fp.fpos == p;
	} else {
		//@ check ok: r == 0;
		for(i = 0; i < ln; i++) {
			//@ check text: b[i] == vf_file[p + i];
		}
		//@ check terminated: b[ln] == 0;
		//@ check length: fp.len == ln;
	}
	VF_END(n, p, bs);
}
void C01_readline_userbuf(void) { C17_step_errors(); }
void C15_readline(void) { C17_step_errors(); }
static void nextlen(int err) {
	static const size_t lens[] = { 0, 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049 };
	size_t k = any_size(0, 9), term = any_size(0, 1), first = any_size(0, 1), p, n, ln; ssize_t r;
	VF_BEGIN(k, term, first);
	ln = lens[k]; p = first ? 3 : 0;
	vf_file[0] = 'a'; vf_file[1] = 'b'; vf_file[2] = '\n';
	if(ln) memset(vf_file + p, 'x', ln);
	n = p + ln;
	if(term) { vf_file[n++] = '\n'; vf_file[n++] = 'z'; }
	vf_flen = n;
	fileparser_open(&fp, fname);
	if(first) fileparser_readline(&fp);
	errors(err, 0, 0);
	r = fileparser_getnextlinelength(&fp);
	if(err && vf_io_failed) {
		//@ check failure_reported: r == -1;
	} else {
		//@ check length: r == (ln || term ? ln : -1);
		//@ check position: vf_fpos == p;
	}
	//@ check field_restored: fp.fpos == p;
	VF_END(k, term, first);
}
// opts: -eva-auto-loop-unroll 2200
void C17_getnextlinelength(void) { nextlen(0); }
// opts: -eva-auto-loop-unroll 2200
void C17_getnextlinelength_errors(void) { nextlen(1); }
// opts: -eva-auto-loop-unroll 2200
void C17_readline_long(void) {
	size_t k = any_size(0, 4), nl = any_size(0, 1), n, i; int r;
	VF_BEGIN(k, nl);
	n = 1021 + k;
	memset(vf_file, 'x', n); vf_flen = n;
	if(nl) { vf_file[n] = '\n'; vf_flen = n + 1; }
	fileparser_open(&fp, fname);
	r = fileparser_readline(&fp);
	//@ check result: r == (n < 1024 ? 0 : -3);
	if(n < 1024) {
		//@ check length: fp.len == n && fp.buf[n] == 0 && fp.buf[n - 1] == 'x';
	} else {
		//@ check position_kept: vf_fpos == 0 && fp.fpos == 0;
	}
	VF_END(k, nl);
}
static void openclose(void) {
	int r, e;
	VF_BEGIN(0);
	errors(1, 0, 0);
	r = fileparser_open(&fp, fname);
	e = vf_io_failed;
	//@ check open_reports: (r != 0) == (e != 0);
	//@ check open_owns: vf_openfds == (e ? 0 : 1);
	if(!r) {
		//@ check start: fp.fpos == 0 && fp.file == 3;
	}
	r = fileparser_close(&fp);
	//@ check close_releases: r == 0 && vf_openfds == 0;
	r = fileparser_close(&fp);
	//@ check close_again: r == 0;
	r = fileparser_open(0, fname);
	//@ check null_parser: r == -1;
	r = fileparser_open(&fp, 0);
	//@ check null_name: r == -1 && vf_openfds == 0;
	r = fileparser_close(0);
	//@ check null_close: r == -1;
	VF_END(0);
}
void C14_fileparser(void) { openclose(); }
void C15_fileparser_open(void) { openclose(); }
