/* string.h / ctype.h / stdlib.h models (plain C, so that every comparison partitions) */
#include <stddef.h>
#include <string.h>
#include "vf.h"
#define LOOP
int vf_memcmp(const void *a, const void *b, size_t n) {
	const unsigned char *x = a, *y = b; size_t i;
	for(i = 0; i < n; i++) { if(x[i] < y[i]) return -1; if(x[i] > y[i]) return 1; }
	return 0;
}
void *vf_memchr(const void *a, int c, size_t n) {
	const unsigned char *x = a; size_t i;
	for(i = 0; i < n; i++) if(x[i] == (unsigned char)c) return (void*)(x + i);
	return 0;
}
void *vf_memrchr(const void *a, int c, size_t n) {
	const unsigned char *x = a;
	while(n) { n--; if(x[n] == (unsigned char)c) return (void*)(x + n); }
	return 0;
}
void *vf_memmem(const void *h, size_t hl, const void *n, size_t nl) {
	const char *x = h; size_t i;
	if(nl > hl) return 0;
	for(i = 0; i <= hl - nl; i++) if(!vf_memcmp(x + i, n, nl)) return (void*)(x + i);
	return 0;
}
void *vf_mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
int vf_strcmp(const char *a, const char *b) {
	const unsigned char *x = (void*)a, *y = (void*)b; size_t i;
	for(i = 0;; i++) { if(x[i] < y[i]) return -1; if(x[i] > y[i]) return 1; if(!x[i]) return 0; }
}
int vf_strncmp(const char *a, const char *b, size_t n) {
	const unsigned char *x = (void*)a, *y = (void*)b; size_t i;
	for(i = 0; i < n; i++) { if(x[i] < y[i]) return -1; if(x[i] > y[i]) return 1; if(!x[i]) return 0; }
	return 0;
}
int vf_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int vf_islower(int c) { return c >= 'a' && c <= 'z'; }
int vf_isdigit(int c) { return c >= '0' && c <= '9'; }
int vf_isalpha(int c) { return vf_isupper(c) || vf_islower(c); }
int vf_isalnum(int c) { return vf_isalpha(c) || vf_isdigit(c); }
int vf_isxdigit(int c) { return vf_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int vf_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int vf_toupper(int c) { return vf_islower(c) ? c - 32 : c; }
int vf_tolower(int c) { return vf_isupper(c) ? c + 32 : c; }
int vf_strcasecmp(const char *a, const char *b) {
	size_t i;
	for(i = 0;; i++) {
		int x = vf_tolower((unsigned char)a[i]), y = vf_tolower((unsigned char)b[i]);
		if(x < y) return -1; if(x > y) return 1; if(!x) return 0;
	}
}
int vf_strncasecmp(const char *a, const char *b, size_t n) {
	size_t i;
	for(i = 0; i < n; i++) {
		int x = vf_tolower((unsigned char)a[i]), y = vf_tolower((unsigned char)b[i]);
		if(x < y) return -1; if(x > y) return 1; if(!x) return 0;
	}
	return 0;
}
char *vf_strchr(const char *s, int c) {
	for(;; s++) { if(*s == (char)c) return (char*)s; if(!*s) return 0; }
}
char *vf_strchrnul(const char *s, int c) {
	for(;; s++) if(*s == (char)c || !*s) return (char*)s;
}
char *vf_strrchr(const char *s, int c) {
	const char *r = 0;
	for(;; s++) { if(*s == (char)c) r = s; if(!*s) return (char*)r; }
}
char *vf_strstr(const char *h, const char *n) {
	size_t l = strlen(n);
	for(;; h++) { if(!vf_strncmp(h, n, l)) return (char*)h; if(!*h) return 0; }
}
char *vf_strcasestr(const char *h, const char *n) {
	size_t l = strlen(n);
	for(;; h++) { if(!vf_strncasecmp(h, n, l)) return (char*)h; if(!*h) return 0; }
}
char *vf_stpcpy(char *d, const char *s) { for(; (*d = *s); d++, s++); return d; }
char *vf_strcpy(char *d, const char *s) { vf_stpcpy(d, s); return d; }
char *vf_strncpy(char *d, const char *s, size_t n) {
	size_t i;
	for(i = 0; i < n && s[i]; i++) d[i] = s[i];
	for(; i < n; i++) d[i] = 0;
	return d;
}
char *vf_strcat(char *d, const char *s) { vf_stpcpy(d + strlen(d), s); return d; }
char *vf_strncat(char *d, const char *s, size_t n) {
	size_t l = strlen(d), i;
	for(i = 0; i < n && s[i]; i++) d[l + i] = s[i];
	d[l + i] = 0;
	return d;
}
size_t vf_strnlen(const char *s, size_t n) { size_t i; for(i = 0; i < n && s[i]; i++); return i; }
size_t vf_strspn(const char *s, const char *a) { size_t i; for(i = 0; s[i] && vf_strchr(a, s[i]); i++); return i; }
size_t vf_strcspn(const char *s, const char *a) { size_t i; for(i = 0; s[i] && !vf_strchr(a, s[i]); i++); return i; }
char *vf_strpbrk(const char *s, const char *a) { s += vf_strcspn(s, a); return *s ? (char*)s : 0; }
void vf_bzero(void *p, size_t n) { memset(p, 0, n); }
/* any correct sort is an acceptable model of qsort: insertion sort, stable */
void vf_qsort(void *b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
	char *p = b, t[64]; size_t i, j;
	//@ check vf_qsort_model_item_size: sz <= 64;
	for(i = 1; i < n; i++)
		for(j = i; j > 0 && cmp(p + (j-1)*sz, p + j*sz) > 0; j--) {
			memcpy(t, p + j*sz, sz); memcpy(p + j*sz, p + (j-1)*sz, sz); memcpy(p + (j-1)*sz, t, sz);
		}
}
void *vf_bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
	const char *p = b; size_t lo = 0;
	while(n) {
		size_t m = lo + n/2; int c = cmp(k, p + m*sz);
		if(!c) return (void*)(p + m*sz);
		if(c < 0) n /= 2; else { lo = m+1; n -= n/2+1; }
	}
	return 0;
}
/* copying 0 bytes needs no valid object; otherwise Frama-C's own builtins decide */
void *vf_memcpy(void *d, const void *s, size_t n) { if(n) memcpy(d, s, n); return d; }
void *vf_memmove(void *d, const void *s, size_t n) { if(n) memmove(d, s, n); return d; }
void *vf_memset(void *d, int c, size_t n) { if(n) memset(d, c, n); return d; }
