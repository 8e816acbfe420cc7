/* C library functions the analysed sources may call and that the abstract machine has no
   built-in model of, written in C so that they are interpreted like the program itself.
   Linked into the module only when something refers to them (llvm-link -only-needed). */
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>

extern void *malloc(size_t);
extern size_t strlen(const char *);
extern int tolower(int);
extern void *memcpy(void *, const void *, size_t);
extern void *memmove(void *, const void *, size_t);
extern long strtol(const char *, char **, int);
extern double strtod(const char *, char **);
extern void xalloc_die(void);

#define F(t, n) t n
typedef unsigned char uc;

void *memchr(const void *s, int c, size_t n) {
	for (size_t i = 0; i < n; i++) if (((const uc *)s)[i] == (uc)c) return (uc *)s + i;
	return NULL;
}
void *rawmemchr(const void *s, int c) {
	const uc *p = s; while (*p != (uc)c) p++; return (void *)p;
}
void *memrchr(const void *s, int c, size_t n) {
	while (n--) if (((const uc *)s)[n] == (uc)c) return (uc *)s + n;
	return NULL;
}
char *strchrnul(const char *s, int c) {
	while (*s && *s != (char)c) s++;
	return (char *)s;
}
static int in_set(char c, const char *set) {
	for (; *set; set++) if (*set == c) return 1;
	return 0;
}
size_t strspn(const char *s, const char *set) {
	size_t n = 0; while (s[n] && in_set(s[n], set)) n++; return n;
}
size_t strcspn(const char *s, const char *set) {
	size_t n = 0; while (s[n] && !in_set(s[n], set)) n++; return n;
}
char *strpbrk(const char *s, const char *set) {
	for (; *s; s++) if (in_set(*s, set)) return (char *)s;
	return NULL;
}
char *strstr(const char *h, const char *n) {
	for (;; h++) {
		size_t i = 0;
		while (n[i] && h[i] == n[i]) i++;
		if (!n[i]) return (char *)h;
		if (!*h) return NULL;
	}
}
char *strtok_r(char *s, const char *d, char **save) {
	if (!s) s = *save;
	s += strspn(s, d);
	if (!*s) { *save = s; return NULL; }
	char *e = s + strcspn(s, d);
	if (*e) *e++ = 0;
	*save = e;
	return s;
}
char *__strtok_r(char *s, const char *d, char **save) { return strtok_r(s, d, save); }
static char *tok_save;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_save); }
char *strsep(char **sp, const char *d) {
	char *s = *sp;
	if (!s) return NULL;
	char *e = s + strcspn(s, d);
	if (*e) { *e = 0; *sp = e + 1; } else *sp = NULL;
	return s;
}
int strncasecmp(const char *a, const char *b, size_t n) {
	for (size_t i = 0; i < n; i++) {
		int x = tolower((uc)a[i]), y = tolower((uc)b[i]);
		if (x != y) return x - y;
		if (!x) return 0;
	}
	return 0;
}
int strcoll(const char *a, const char *b) {
	while (*a && *a == *b) { a++; b++; }
	return (uc)*a - (uc)*b;
}
char *strncpy(char *d, const char *s, size_t n) {
	size_t i = 0;
	for (; i < n && s[i]; i++) d[i] = s[i];
	for (; i < n; i++) d[i] = 0;
	return d;
}
char *strncat(char *d, const char *s, size_t n) {
	char *e = d + strlen(d);
	size_t i = 0;
	for (; i < n && s[i]; i++) e[i] = s[i];
	e[i] = 0;
	return d;
}
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *stpncpy(char *d, const char *s, size_t n) {
	size_t i = 0, l;
	for (; i < n && s[i]; i++) d[i] = s[i];
	l = i;
	for (; i < n; i++) d[i] = 0;
	return d + l;
}
size_t strlcpy(char *d, const char *s, size_t n) {
	size_t i = 0;
	if (n) { for (; i + 1 < n && s[i]; i++) d[i] = s[i]; d[i] = 0; }
	return strlen(s);
}
size_t strlcat(char *d, const char *s, size_t n) {
	size_t l = 0;
	while (l < n && d[l]) l++;
	return l + strlcpy(d + l, s, n - l);
}
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (uc *)d + n; }
void bzero(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((uc *)p)[i] = 0; }
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }

int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
long long atoll(const char *s) { return strtol(s, NULL, 10); }
double atof(const char *s) { return strtod(s, NULL); }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
long imaxabs(long v) { return v < 0 ? -v : v; }
int isgraph(int c) { return c > 32 && c < 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return (c > 32 && c < 48) || (c > 57 && c < 65) || (c > 90 && c < 97) || (c > 122 && c < 127); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == 32 || c == 9; }
int isascii(int c) { return c >= 0 && c < 128; }
int toascii(int c) { return c & 127; }

void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t mid = lo + (hi - lo) / 2;
		const void *p = (const char *)base + mid * sz;
		int r = cmp(key, p);
		if (r == 0) return (void *)p;
		if (r < 0) hi = mid; else lo = mid + 1;
	}
	return NULL;
}
/* insertion sort; the order of equal elements is that of the input (glibc's merge sort too) */
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	char *b = base, *t = malloc(sz);
	for (size_t i = 1; i < n; i++) {
		size_t j = i;
		memcpy(t, b + i * sz, sz);
		while (j > 0 && cmp(b + (j - 1) * sz, t) > 0) {
			memcpy(b + j * sz, b + (j - 1) * sz, sz);
			j--;
		}
		memcpy(b + j * sz, t, sz);
	}
	extern void free(void *);
	free(t);
}

/* gnulib */
void *xmemdup(const void *p, size_t n) { void *r = malloc(n); memcpy(r, p, n); return r; }
void *xnmalloc(size_t n, size_t s) { return malloc(n * s); }
void *xreallocarray(void *p, size_t n, size_t s) { extern void *realloc(void *, size_t); return realloc(p, n * s); }
void *xnrealloc(void *p, size_t n, size_t s) { extern void *realloc(void *, size_t); return realloc(p, n * s); }
void *reallocarray(void *p, size_t n, size_t s) { extern void *realloc(void *, size_t); return realloc(p, n * s); }
