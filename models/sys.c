/* descriptor model: a typestate table; every result a system call may give is possible */
#include <stddef.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <stdio.h>
#include <string.h>
#include "vf.h"
#include "vf_sys.h"
int vf_close_any, vf_lowest;
int vf_io_err, vf_io_short, vf_io_failed;
int vf_fdstate[VF_NFD], vf_fdflags[VF_NFD], vf_nopen, vf_nclosed, vf_openfds;
const char *vf_open_path;
int vf_open_mode;
char vf_file[VF_FILEMAX]; size_t vf_flen; long vf_fpos; long vf_statsize = -2, vf_statmtime = -2; const char *vf_stat_path; int vf_nlstat;
char vf_out[VF_OUTMAX]; size_t vf_outlen; int vf_outfd; int vf_writes; size_t vf_reads;
static int fails(void) {
	if(vf_io_err && VF_NONDET()) { errno = VF_ANY(1, 133); vf_io_failed = 1; return 1; }
	return 0;
}
int vf_open(const char *p, int fl, ...) {
	va_list ap; int fd;
	if(fails()) return -1;
	if(vf_lowest) { fd = 0; while(fd < VF_NFD && vf_fdstate[fd] == 1) fd++; vf_nopen++; }
	else fd = 3 + vf_nopen++;
	//@ check model_open_bound: fd < VF_NFD;
	if(fl & O_CREAT) { va_start(ap, fl); vf_open_mode = va_arg(ap, int); va_end(ap); }
	vf_fdstate[fd] = 1; vf_fdflags[fd] = fl; vf_openfds++; vf_open_path = p; vf_fpos = 0;
	return fd;
}
int vf_close(int fd) {
	if(vf_close_any && (fd < 0 || fd >= VF_NFD || vf_fdstate[fd] != 1)) { errno = EBADF; return -1; }
	//@ check close_of_open_descriptor: fd >= 0 && fd < VF_NFD && vf_fdstate[fd] == 1;
	vf_fdstate[fd] = 2; vf_openfds--; vf_nclosed++;
	if(vf_io_err && VF_NONDET()) { errno = EIO; return -1; }   /* the descriptor is gone all the same */
	return 0;
}
ssize_t vf_read(int fd, void *buf, size_t n) {
	size_t av, k;
	//@ check read_of_open_descriptor: fd >= 0 && fd < VF_NFD && vf_fdstate[fd] == 1;
	//@ check read_of_readable_descriptor: (vf_fdflags[fd] & 3) != O_WRONLY;
	vf_reads++;
	if(fails()) return -1;
	av = vf_fpos < (long)vf_flen ? vf_flen - vf_fpos : 0;
	k = n < av ? n : av;
	if(vf_io_short && k > 1) { k = VF_ANYSZ(1, k); }
	//@ split k;
	if(k) memcpy(buf, vf_file + vf_fpos, k);
	vf_fpos += k;
	return k;
}
ssize_t vf_write(int fd, const void *buf, size_t n) {
	size_t k = n, i; const char *b = buf; char sink;
	//@ check write_to_open_descriptor: fd >= 0 && fd < VF_NFD && vf_fdstate[fd] == 1;
	//@ check write_to_writable_descriptor: (vf_fdflags[fd] & 3) != O_RDONLY;
	//@ check write_inside_buffer: n == 0 || \valid_read(b + (0 .. n-1));
	vf_outfd = fd; vf_writes++;
	if(fails()) return -1;
	if(vf_io_short && k > 1) { k = VF_ANYSZ(1, k); vf_io_failed |= (k < n) << 1; }
	//@ split k;
	//@ check model_out_bound: vf_outlen + k <= VF_OUTMAX;
	if(k) memcpy(vf_out + vf_outlen, b, k);
	vf_outlen += k;
	return k;
}
off_t vf_lseek(int fd, off_t off, int wh) {
	long np;
	//@ check seek_on_open_descriptor: fd >= 0 && fd < VF_NFD && vf_fdstate[fd] == 1;
	if(fails()) return -1;
	np = wh == SEEK_SET ? off : wh == SEEK_CUR ? vf_fpos + off : (long)vf_flen + off;
	if(np < 0) { errno = EINVAL; return -1; }
	vf_fpos = np;
	return np;
}
static int do_stat(struct stat *st) {
	if(fails()) return -1;
	st->st_size = vf_statsize == -2 ? (long)vf_flen : vf_statsize;
	st->st_mtime = vf_statmtime == -2 ? Frama_C_long_interval(0, 1L << 40) : vf_statmtime;
	st->st_mode = 0100644; st->st_nlink = 1; st->st_blocks = (st->st_size + 511) / 512; st->st_blksize = 4096;
	st->st_atime = Frama_C_long_interval(0, 1L << 40); st->st_ctime = Frama_C_long_interval(0, 1L << 40);
	return 0;
}
int vf_stat(const char *p, struct stat *st) { vf_stat_path = p; return do_stat(st); }
int vf_lstat(const char *p, struct stat *st) { vf_stat_path = p; vf_nlstat++; return do_stat(st); }
int vf_fstat(int fd, struct stat *st) {
	//@ check stat_on_open_descriptor: fd >= 0 && fd < VF_NFD && vf_fdstate[fd] == 1;
	return do_stat(st);
}
int vf_setpgid(pid_t a, pid_t b) { return VF_NONDET() ? -1 : 0; }
int vf_setpgrp(void) { return VF_NONDET() ? -1 : 0; }
