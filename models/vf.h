/* Environment models and harness vocabulary for the abstract interpreter. */
#ifndef VF_H
#define VF_H
#include "__fc_builtin.h"
#include <stddef.h>
#include <stdarg.h>
#include <sys/types.h>
/* --- abstract values ------------------------------------------------ */
#define VF_ANY(lo,hi)  Frama_C_interval((lo),(hi))
#define VF_ANYSZ(lo,hi) Frama_C_unsigned_long_interval((lo),(hi))
#define VF_NONDET() Frama_C_interval(0,1)
/* fill p[0..n) with arbitrary bytes / arbitrary non-NUL bytes */
void vf_any_bytes(void *p, size_t n);
void vf_any_cstr(char *p, size_t len);            /* len arbitrary non-NUL bytes + NUL */
void vf_any_from(char *p, size_t n, char a, char b); /* n bytes, each a or b */
/* --- heap ------------------------------------------------------------ */
extern int vf_oom_on;      /* 1: allocations may fail */
extern int vf_oom_hit;     /* an allocation failed since reset */
extern int vf_live;        /* number of live heap blocks */
void *vf_malloc(size_t), *vf_calloc(size_t, size_t), *vf_realloc(void*, size_t);
void vf_free(void*);
#define VF_BEGIN(...) Frama_C_show_each_BEGIN(__VA_ARGS__)
#define VF_END(...) Frama_C_show_each_END(__VA_ARGS__)
#endif
