/* C18: sections and values of an ini file held as a list of counted lines. */
#include "vf.h"
#include <string.h>
#include "iniparser.h"
static size_t any_size(size_t lo, size_t max) { size_t s = VF_ANYSZ(lo, max);
	//@ split s;
	return s; }
static const char *const lines[] = { "", "[a]", "[ab]x", "a=1", "ab=", "[", "[a", "=y", "[] ", "ba=2" };
#ifdef VF_THOROUGH
#define NLINES 10
#define NCOUNT 5
#else
#define NLINES 6
#define NCOUNT 4
#endif
static const char *const names[] = { "a", "ab", "", "b" };
static size_t len(const char *s) { size_t n = 0; while(s[n]) n++; return n; }
/* a counted string whose object ends with its last byte */
static void counted(stringptr *r, const char *s) { size_t n = len(s), i; char *b = vf_malloc(n + 1); b++; for(i = 0; i < n; i++) b[i] = s[i]; r->ptr = b; r->size = n; }
static stringptr L[3]; static const char *T[3];
static stringptrlist *file(size_t n, size_t a, size_t b, size_t c) {
	stringptrlist *l = stringptrlist_new(4); size_t i;
	for(i = 0; i < n; i++) { T[i] = lines[i == 0 ? a : i == 1 ? b : c]; counted(&L[i], T[i]); stringptrlist_add(l, L[i].ptr, L[i].size); }
	return l;
}
static int header(const char *s, const char *name) {
	size_t n = len(name), i;
	if(len(s) < n + 2 || s[0] != '[' || s[n + 1] != ']') return 0;
	for(i = 0; i < n; i++) if(s[i + 1] != name[i]) return 0;
	return 1;
}
static void section(size_t n, const char *name, size_t from, size_t *start, size_t *count) {
	size_t i, j;
	*start = *count = 0;
	for(i = from; i < n; i++) if(header(T[i], name)) {
		for(j = i + 1; j < n && T[j][0] != '['; j++) ;
		*start = i + 1; *count = j - i - 1;
		return;
	}
}
void C18_sections(void) {
	size_t n = any_size(0, 3), a = any_size(0, NLINES - 1), b = any_size(0, NLINES - 1), c = any_size(0, NLINES - 1), k = any_size(0, 2), st, ct; stringptrlist *l; stringptr nm; ini_section s;
	if((n < 3 && c) || (n < 2 && b) || (n < 1 && a)) return;
	VF_BEGIN(n, a, b, c, k);
	l = file(n, a, b, c); counted(&nm, names[k]);
	s = iniparser_get_section(l, &nm);
	section(n, names[k], 0, &st, &ct);
	//@ check first_start: s.startline == st;
	//@ check first_count: s.linecount == ct;
	if(st) {
		size_t prev = st + ct;
		s = iniparser_get_next_section(l, &nm, &s);
		section(n, names[k], prev, &st, &ct);
		//@ check next_start: s.startline == st;
		//@ check next_count: s.linecount == ct;
	}
	VF_END(n, a, b, c, k);
}
static const size_t vl[] = { 3, 4, 7, 9, 0, 8 };
#ifdef VF_THOROUGH
#define NVL 6
#else
#define NVL 4
#endif
void C18_values(void) {
	size_t n = any_size(0, 2), a = any_size(0, NVL - 1), b = any_size(0, NVL - 1), k = any_size(0, 3), from = any_size(0, 2), st = any_size(0, 2), ct = any_size(0, 2), i, j, kl; stringptrlist *l; stringptr nm, v; ini_section s; ssize_t r, w = -1;
	if((n < 2 && b) || (n < 1 && a) || st + ct > n || from < st) return;
	VF_BEGIN(n, a, b, k, from, st, ct);
	l = file(n, vl[a], vl[b], 0); counted(&nm, names[k]); kl = nm.size;
	s.startline = st; s.linecount = ct;
	for(i = from; i < st + ct && w < 0; i++) {
		for(j = 0; j < kl && T[i][j] == names[k][j]; j++) ;
		if(j == kl && T[i][j] == '=') w = i;
	}
	r = iniparser_getvalue_at(l, &s, &nm, &v, from);
	//@ check line: r == w;
	if(w >= 0) {
		//@ check value: v.ptr == L[w].ptr + kl + 1 && v.size == L[w].size - kl - 1;
	} else {
		//@ check nothing: v.ptr == \null && v.size == 0;
	}
	if(from == st) {
		v.size = 77;
		iniparser_getvalue(l, &s, &nm, &v);
		//@ check same: w >= 0 ? v.ptr == L[w].ptr + kl + 1 && v.size == L[w].size - kl - 1 : v.ptr == \null && v.size == 0;
	}
	VF_END(n, a, b, k, from, st, ct);
}
/* any line text up to four characters against every class of character */
void C18_line_chars(void) {
	size_t n = any_size(0, 4), i, k = any_size(0, 1), kl, hd, kv; char t[6]; stringptrlist *l; stringptr nm, v; ini_section s; const char *name = k ? "a" : "";
	for(i = 0; i < n; i++) { size_t q = any_size(0, 4); t[i] = q == 0 ? '[' : q == 1 ? ']' : q == 2 ? '=' : q == 3 ? 'a' : 0; }
	t[n] = 0;
	VF_BEGIN(n, k);
	l = stringptrlist_new(1);
	char *b = vf_malloc(n + 1); b++; for(i = 0; i < n; i++) b[i] = t[i];
	stringptrlist_add(l, b, n);
	counted(&nm, name); kl = k;
	hd = n >= kl + 2 && t[0] == '[' && t[kl + 1] == ']' && (!kl || t[1] == 'a');
	kv = n > kl && t[kl] == '=' && (!kl || t[0] == 'a');
	s = iniparser_get_section(l, &nm);
	//@ check header: s.startline == (hd ? 1 : 0) && s.linecount == 0;
	s = iniparser_file_as_section(l);
	//@ check whole_file: s.startline == 0 && s.linecount == 1;
	iniparser_getvalue(l, &s, &nm, &v);
	//@ check value: kv ? v.ptr == b + kl + 1 && v.size == n - kl - 1 : v.ptr == \null && v.size == 0;
	VF_END(n, k);
}
void C18_count(void) {
	size_t n = any_size(0, NCOUNT), i, e; char t[6]; stringptrlist *l; size_t r, w; 
	for(i = 0; i < n; i++) { size_t q = any_size(0, 4); t[i] = q == 0 ? '[' : q == 1 ? ']' : q == 2 ? ' ' : q == 3 ? '\t' : 'a'; }
	VF_BEGIN(n);
	l = stringptrlist_new(2);
	char *b = vf_malloc(n + 1); b++; for(i = 0; i < n; i++) b[i] = t[i];
	stringptrlist_add(l, "[x]", 3);
	stringptrlist_add(l, b, n);
	for(e = n; e && (t[e - 1] == ' ' || t[e - 1] == '\t'); e--) ;
	w = n >= 3 && t[0] == '[' && t[e - 1] == ']';
	r = iniparser_count_sections(l);
	//@ check count: r == 1 + w;
	VF_END(n);
}
