#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "vf.h"
int vf_oom_on = 0, vf_oom_hit = 0, vf_live = 0;
static int vf_alloc_fails(void) {
	if(vf_oom_on && VF_NONDET()) { vf_oom_hit = 1; errno = ENOMEM; return 1; }
	return 0;
}
void *vf_malloc(size_t n) {
	if(vf_alloc_fails()) return 0;
	vf_live++;
	return malloc(n);
}
void *vf_calloc(size_t n, size_t m) {
	if(vf_alloc_fails()) return 0;
	vf_live++;
	return calloc(n, m);
}
void *vf_realloc(void *p, size_t n) {
	if(vf_alloc_fails()) return 0;
	if(!p) vf_live++;
	return realloc(p, n);
}
void vf_free(void *p) {
	if(p) { vf_live--; free(p); }
}
char *vf_strdup(const char *s) {
	size_t l = strlen(s) + 1;
	char *p = vf_malloc(l);
	if(!p) return 0;
	memcpy(p, s, l);
	return p;
}
void vf_any_bytes(void *p, size_t n) { if(n) Frama_C_make_unknown(p, n); }
static char vf_nonnul(void) {        /* exact as a set: needs -eva-ilevel > 255 */
	char c = Frama_C_char_interval(-128, 127);
	return c ? c : 1;
}
void vf_any_cstr(char *p, size_t len) {
	size_t i;
	//@ loop unroll 600;
	for(i = 0; i < len; i++) {
		p[i] = vf_nonnul();
	}
	p[len] = 0;
}
char *vf_strndup(const char *s, size_t n) {
	size_t l = 0; char *p;
	while(l < n && s[l]) l++;
	p = vf_malloc(l + 1);
	if(!p) return 0;
	memcpy(p, s, l); p[l] = 0;
	return p;
}
