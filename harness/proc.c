/* C14, C16, C30: child processes and daemons; the system calls are models that record what they are
   asked to do and may fail. */
#include "vf.h"
#include "vf_sys.h"
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <spawn.h>
#include "proclib.h"
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static int fa_state, fa_n, fa_op[32], fa_a[32], fa_b[32], failed_errno, may_fail, spawned, waits, reaped, interrupts, status_word;
static posix_spawn_file_actions_t *fa_ptr; static const char *sp_path; static char *const *sp_argv; static char *const *sp_env; static const posix_spawn_file_actions_t *sp_fa; static const posix_spawnattr_t *sp_attr;
static int nope(void) { if(may_fail && !failed_errno && VF_NONDET()) { failed_errno = 24; return 1; } return 0; }
int vf_fa_init(posix_spawn_file_actions_t *f) { if(nope()) return failed_errno; fa_state = 1; fa_ptr = f; return 0; }
int vf_fa_destroy(posix_spawn_file_actions_t *f) {
	//@ check destroy_initialized_actions: fa_state == 1 && f == fa_ptr;
	fa_state = 2; return 0;
}
int vf_fa_addclose(posix_spawn_file_actions_t *f, int fd) {
	//@ check actions_initialized: fa_state == 1 && f == fa_ptr && fd >= 0;
	if(nope()) return failed_errno;
	fa_op[fa_n] = 1; fa_a[fa_n++] = fd; return 0;
}
int vf_fa_adddup2(posix_spawn_file_actions_t *f, int a, int b) {
	//@ check actions_initialized2: fa_state == 1 && f == fa_ptr;
	if(nope()) return failed_errno;
	fa_op[fa_n] = 2; fa_a[fa_n] = a; fa_b[fa_n++] = b; return 0;
}
static int partner[VF_NFD];
int vf_pipe(int *p) {
	if(nope()) { errno = failed_errno; return -1; }
	p[0] = 3 + vf_nopen++; p[1] = 3 + vf_nopen++;
	vf_fdstate[p[0]] = vf_fdstate[p[1]] = 1; vf_fdflags[p[0]] = O_RDONLY; vf_fdflags[p[1]] = O_WRONLY;
	partner[p[0]] = p[1]; partner[p[1]] = p[0]; vf_openfds += 2;
	return 0;
}
int vf_pipe2(int *p, int fl) { return vf_pipe(p); }
/* the child's descriptor table after the recorded actions: which pipe end is where (-1: closed) */
static int child[VF_NFD];
int vf_posix_spawnp(pid_t *pid, const char *path, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *at, char *const *argv, char *const *env) {
	int i;
	//@ check spawn_with_actions: fa_state == 1 && f == fa_ptr;
	if(nope()) return failed_errno;
	for(i = 0; i < VF_NFD; i++) child[i] = vf_fdstate[i] == 1 ? i : -1;
	for(i = 0; i < fa_n; i++) {
		if(fa_op[i] == 1) child[fa_a[i]] = -1;
		else {
			int src = child[fa_a[i]];
			//@ check dup_of_open_descriptor: src >= 0;
			child[fa_b[i]] = src;
		}
	}
	*pid = 4711; spawned = 1; sp_path = path; sp_argv = argv; sp_env = env; sp_attr = at;
	return 0;
}
pid_t vf_waitpid(pid_t pid, int *st, int opt) {
	//@ check waits_for_that_child: pid == 4711 && opt == 0;
	//@ check pipes_closed_first: vf_openfds == 0;
	//@ check reaped_once: reaped == 0;
	waits++;
	if(interrupts > 0) { interrupts--; errno = EINTR; return -1; }
	reaped = 1; if(st) *st = status_word;
	return pid;
}
static struct process P; static char *args[3];
static void std_open(void) { int i; for(i = 0; i < 3; i++) vf_fdstate[i] = 1; vf_fdflags[0] = O_RDONLY; vf_fdflags[1] = vf_fdflags[2] = O_WRONLY; }
static void popen_(int content, int fail) {
	int r, i, e; 
	VF_BEGIN(0);
	std_open(); args[0] = "prog"; args[1] = "x"; may_fail = fail;
	r = process_open(&P, args);
	e = errno;
	if(r) {
		//@ check fails_for_reason: failed_errno != 0;
		//@ check minus_one: r == -1;
		//@ check nothing_left_open: vf_openfds == 0;
		//@ check actions_released: fa_state != 1;
		//@ check not_started: spawned == 0;
		if(content) {
			//@ check errno_tells: e == failed_errno;
		}
	} else {
		//@ check no_failure: failed_errno == 0 && spawned == 1;
		//@ check three_ends_left: vf_openfds == 3;
		for(i = 0; i < 3; i++) { int fd = P.fds[i], o = fd >= 0 && fd < VF_NFD && fd > 2 ? vf_fdstate[fd] == 1 : 0;
			//@ check end_is_open: o == 1;
		}
		if(content) {
			int a = P.fds[0], b = P.fds[1], c = P.fds[2];
			//@ check distinct: a != b && b != c && a != c;
			//@ check stdin_writable: vf_fdflags[a] == O_WRONLY;
			//@ check stdout_readable: vf_fdflags[b] == O_RDONLY && vf_fdflags[c] == O_RDONLY;
			//@ check child_stdin: child[0] == partner[a];
			//@ check child_stdout: child[1] == partner[b];
			//@ check child_stderr: child[2] == partner[c];
			for(i = 3; i < VF_NFD; i++) {
				//@ check child_has_no_pipe_ends: child[i] == -1;
			}
			//@ check program: sp_path == args[0] && sp_argv == (char *const *)args && P.pid == 4711;
		}
	}
	for(i = 0; i < 3; i++) {
		//@ check standard_descriptors_untouched: vf_fdstate[i] == 1;
	}
	VF_END(0);
}
void C16_open(void) { popen_(1, 0); }
void C16_open_failures(void) { popen_(1, 1); }
void C14_process_open(void) { popen_(0, 1); }
static void pclose_(int content) {
	static const unsigned char codes[] = { 0, 1, 2, 126, 127, 128, 129, 254, 255 }; size_t code = codes[any_size(0, 8)], in = any_size(0, 3); int r;
	VF_BEGIN(code, in);
	std_open(); args[0] = "prog";
	r = process_open(&P, args);
	status_word = code << 8; interrupts = in;
	errno = VF_NONDET() ? EINTR : 0;
	r = process_close(&P);
	//@ check reaped: reaped == 1 && waits == in + 1;
	//@ check all_closed: vf_openfds == 0 && fa_state == 2;
	if(content) {
		//@ check exit_status: r == code;
	}
	VF_END(code, in);
}
void C16_close(void) { pclose_(1); }
void C14_process_close(void) { pclose_(0); }

/* ---- daemonize ----------------------------------------------------------- */
static int forked, newsession, dt, case_;
pid_t vf_fork(void) { forked++; return case_ == 0 ? -1 : case_ == 1 ? 0 : 4712; }
pid_t vf_setsid(void) { newsession++;
	//@ check session_in_child: forked == 1 && case_ == 1;
	return 1; }
int vf_getdtablesize(void) { return dt; }
int vf_dup(int fd) {
	int i = 0;
	//@ check dup_of_open_descriptor2: fd >= 0 && fd < VF_NFD && vf_fdstate[fd] == 1;
	while(vf_fdstate[i] == 1) i++;
	vf_fdstate[i] = 1; vf_fdflags[i] = vf_fdflags[fd] & ~O_CLOEXEC; vf_openfds++;
	return i;
}
int vf_dup2(int a, int b) {
	//@ check dup_of_open_descriptor3: a >= 0 && a < VF_NFD && vf_fdstate[a] == 1;
	vf_fdstate[b] = 1; vf_fdflags[b] = vf_fdflags[a] & ~O_CLOEXEC;
	return b;
}
void vf_exit(int c) {
	//@ check only_the_child_goes_on: case_ != 1;
	//@ check exit_code: c == (case_ == 0 ? 1 : 0);
	if(case_ == 0) {
		//@ check reported: vf_outlen > 0 && vf_outfd == 2;
	}
	VF_END(case_, dt);
	Frama_C_abort();
}
void C30_daemonize(void) {
	size_t k = any_size(0, 2), d = any_size(3, 8), i; int hole = VF_ANY(0, 8);
	//@ split hole;
	case_ = k; dt = d;
	for(i = 0; i < d; i++) if(i != hole || i < 3) { vf_fdstate[i] = 1; vf_fdflags[i] = O_RDWR; }
	vf_close_any = 1; vf_lowest = 1;
	VF_BEGIN(case_, dt);
	daemonize();
	//@ check only_in_child: case_ == 1 && forked == 1;
	//@ check own_session: newsession == 1;
	for(i = 0; i < 3; i++) { int fl = vf_fdflags[i];
		//@ check standard_descriptors: vf_fdstate[i] == 1 && (fl & 3) == O_RDWR;
		//@ check inherited_on_exec: (fl & O_CLOEXEC) == 0;
	}
	for(i = 3; i < VF_NFD; i++) {
		//@ check all_others_closed: vf_fdstate[i] != 1;
	}
	//@ check null_device: vf_open_path[0] == '/' && vf_open_path[1] == 'd' && vf_open_path[5] == 'n' && vf_open_path[8] == 'l' && vf_open_path[9] == 0;
	//@ check opened_once: vf_nopen == 1;
	VF_END(case_, dt);
}
