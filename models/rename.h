/* force-included in front of every repo unit and harness: standard headers first, then the
   allocator, string and system calls are redirected to the models (models/*.c, harness/*.c) */
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <glob.h>
#include <spawn.h>
#include <signal.h>
#include <ctype.h>
#include <assert.h>
#undef PATH_MAX
#define PATH_MAX 4096   /* as on the real platform (Frama-C's header says 256) */
#ifndef O_CLOEXEC
#define O_CLOEXEC 02000000
#endif
#ifndef GLOB_PERIOD
#define GLOB_PERIOD 128
#endif
/* heap */
void *vf_malloc(size_t), *vf_calloc(size_t, size_t), *vf_realloc(void*, size_t);
void vf_free(void*);
char *vf_strdup(const char*);
char *vf_strndup(const char*, size_t);
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#define strdup vf_strdup
#define strndup vf_strndup
/* strings */
void *vf_memcpy(void*, const void*, size_t), *vf_memmove(void*, const void*, size_t), *vf_memset(void*, int, size_t);
#define memcpy vf_memcpy
#define memmove vf_memmove
#define memset vf_memset
int vf_memcmp(const void*, const void*, size_t);
void *vf_memchr(const void*, int, size_t), *vf_memrchr(const void*, int, size_t);
void *vf_memmem(const void*, size_t, const void*, size_t);
void *vf_mempcpy(void*, const void*, size_t);
int vf_strcmp(const char*, const char*), vf_strncmp(const char*, const char*, size_t);
int vf_strcasecmp(const char*, const char*), vf_strncasecmp(const char*, const char*, size_t);
char *vf_strstr(const char*, const char*), *vf_strcasestr(const char*, const char*);
char *vf_strchr(const char*, int), *vf_strrchr(const char*, int), *vf_strchrnul(const char*, int);
char *vf_strcpy(char*, const char*), *vf_strncpy(char*, const char*, size_t), *vf_stpcpy(char*, const char*);
char *vf_strcat(char*, const char*), *vf_strncat(char*, const char*, size_t);
size_t vf_strnlen(const char*, size_t), vf_strspn(const char*, const char*), vf_strcspn(const char*, const char*);
char *vf_strpbrk(const char*, const char*);
void vf_bzero(void*, size_t);
#define memcmp vf_memcmp
#define bcmp vf_memcmp
#define memchr vf_memchr
#define memrchr vf_memrchr
#define memmem vf_memmem
#define mempcpy vf_mempcpy
#define strcmp vf_strcmp
#define strncmp vf_strncmp
#define strcasecmp vf_strcasecmp
#define strncasecmp vf_strncasecmp
#define strstr vf_strstr
#define strcasestr vf_strcasestr
#define strchr vf_strchr
#define index vf_strchr
#define strrchr vf_strrchr
#define rindex vf_strrchr
#define strchrnul vf_strchrnul
#define strcpy vf_strcpy
#define strncpy vf_strncpy
#define stpcpy vf_stpcpy
#define strcat vf_strcat
#define strncat vf_strncat
#define strnlen vf_strnlen
#define strspn vf_strspn
#define strcspn vf_strcspn
#define strpbrk vf_strpbrk
#define bzero vf_bzero
#undef index
#undef rindex
#undef isalpha
#undef isdigit
#undef isalnum
#undef isupper
#undef islower
#undef isxdigit
#undef isspace
#undef toupper
#undef tolower
int vf_isalpha(int), vf_isdigit(int), vf_isalnum(int), vf_isupper(int), vf_islower(int), vf_isxdigit(int), vf_isspace(int), vf_toupper(int), vf_tolower(int);
#define isalpha vf_isalpha
#define isdigit vf_isdigit
#define isalnum vf_isalnum
#define isupper vf_isupper
#define islower vf_islower
#define isxdigit vf_isxdigit
#define isspace vf_isspace
#define toupper vf_toupper
#define tolower vf_tolower
void vf_qsort(void*, size_t, size_t, int (*)(const void*, const void*));
void *vf_bsearch(const void*, const void*, size_t, size_t, int (*)(const void*, const void*));
#define qsort vf_qsort
#define bsearch vf_bsearch
/* descriptors */
int vf_open(const char*, int, ...), vf_close(int), vf_dup(int), vf_dup2(int, int), vf_pipe(int*), vf_pipe2(int*, int), vf_mkdir(const char*, mode_t), vf_rmdir(const char*), vf_unlink(const char*);
int vf_fcntl(int, int, ...);
ssize_t vf_read(int, void*, size_t), vf_write(int, const void*, size_t), vf_pread(int, void*, size_t, off_t), vf_pwrite(int, const void*, size_t, off_t);
off_t vf_lseek(int, off_t, int);
int vf_stat(const char*, struct stat*), vf_fstat(int, struct stat*), vf_lstat(const char*, struct stat*);
#define open vf_open
#define close vf_close
#define read vf_read
#define write vf_write
#define pread vf_pread
#define pwrite vf_pwrite
#define lseek vf_lseek
#define dup vf_dup
#define dup2 vf_dup2
#define pipe vf_pipe
#define pipe2 vf_pipe2
#define fcntl vf_fcntl
#define mkdir vf_mkdir
#define rmdir vf_rmdir
#define unlink vf_unlink
#define stat(a,b) vf_stat(a,b)
#define fstat(a,b) vf_fstat(a,b)
#define lstat(a,b) vf_lstat(a,b)
char *vf_fgets(char*, int, FILE*);
#define fgets vf_fgets
char *vf_strerror(int);
#define strerror vf_strerror
/* processes */
pid_t vf_fork(void), vf_setsid(void), vf_waitpid(pid_t, int*, int);
void vf_exit(int);
int vf_getdtablesize(void);
#define fork vf_fork
#define setsid vf_setsid
int vf_setpgid(pid_t, pid_t), vf_setpgrp(void);
#define setpgid vf_setpgid
#define setpgrp vf_setpgrp
#define waitpid vf_waitpid
#define exit vf_exit
#define _exit vf_exit
#define getdtablesize vf_getdtablesize
int vf_posix_spawnp(pid_t*, const char*, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char *const*, char *const*);
int vf_fa_init(posix_spawn_file_actions_t*), vf_fa_destroy(posix_spawn_file_actions_t*), vf_fa_addclose(posix_spawn_file_actions_t*, int), vf_fa_adddup2(posix_spawn_file_actions_t*, int, int);
#define posix_spawnp vf_posix_spawnp
#define posix_spawn vf_posix_spawnp
#define posix_spawn_file_actions_init vf_fa_init
#define posix_spawn_file_actions_destroy vf_fa_destroy
#define posix_spawn_file_actions_addclose vf_fa_addclose
#define posix_spawn_file_actions_adddup2 vf_fa_adddup2
/* glob, random, time, maps */
int vf_glob(const char*, int, int (*)(const char*, int), glob_t*);
void vf_globfree(glob_t*);
#define glob vf_glob
#define globfree vf_globfree
int vf_rand(void);
long vf_random(void);
#define rand vf_rand
#define random vf_random
int vf_nanosleep(const struct timespec*, struct timespec*), vf_gettimeofday(struct timeval*, void*), vf_clock_gettime(int, struct timespec*);
time_t vf_time(time_t*);
struct tm *vf_localtime_r(const time_t*, struct tm*);
#define nanosleep vf_nanosleep
#define gettimeofday vf_gettimeofday
#define clock_gettime vf_clock_gettime
#define time(x) vf_time(x)
#define localtime_r vf_localtime_r
#undef timersub
#undef timeradd
#undef timercmp
#undef timerclear
#undef timerisset
#define timerisset(t) ((t)->tv_sec || (t)->tv_usec)
#define timerclear(t) ((t)->tv_sec = (t)->tv_usec = 0)
#define timercmp(a, b, OP) ((a)->tv_sec == (b)->tv_sec ? (a)->tv_usec OP (b)->tv_usec : (a)->tv_sec OP (b)->tv_sec)
#define timeradd(a, b, r) do { (r)->tv_sec = (a)->tv_sec + (b)->tv_sec; (r)->tv_usec = (a)->tv_usec + (b)->tv_usec; if((r)->tv_usec >= 1000000) { (r)->tv_sec++; (r)->tv_usec -= 1000000; } } while(0)
#define timersub(a, b, r) do { (r)->tv_sec = (a)->tv_sec - (b)->tv_sec; (r)->tv_usec = (a)->tv_usec - (b)->tv_usec; if((r)->tv_usec < 0) { --(r)->tv_sec; (r)->tv_usec += 1000000; } } while(0)
void *vf_mmap(void*, size_t, int, int, int, off_t);
int vf_mprotect(void*, size_t, int), vf_munmap(void*, size_t);
#define mmap vf_mmap
#define mprotect vf_mprotect
#define munmap vf_munmap
#define remove vf_remove
