// C library functions as plain code, for the symbolic executor.
#include <stddef.h>
#include <stdint.h>
typedef unsigned char uc;
void *malloc(size_t);
void free(void *);
void *memcpy(void *, const void *, size_t);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(uc)*a - (int)(uc)*b; }
int strncmp(const char *a, const char *b, size_t n) {
    for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(uc)a[i] - (int)(uc)b[i]; if (!a[i]) return 0; }
    return 0;
}
// branch free over the (concrete) length
int memcmp(const void *a, const void *b, size_t n) {
    const uc *x = (const uc *)a, *y = (const uc *)b;
    int r = 0;
    for (size_t i = n; i-- > 0;) { int d = (int)x[i] - (int)y[i]; r = d != 0 ? d : r; }
    return r;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n) != 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) {
    size_t l = strlen(n);
    for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; }
}
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = (char *)malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
void *memchr(const void *s, int c, size_t n) { const uc *p = (const uc *)s; for (size_t i = 0; i < n; i++) if (p[i] == (uc)c) return (void *)(p + i); return 0; }
void *memrchr(const void *s, int c, size_t n) { const uc *p = (const uc *)s; for (size_t i = n; i-- > 0;) if (p[i] == (uc)c) return (void *)(p + i); return 0; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
long strtol(const char *s, char **e, int b) {
    while (isspace(*s)) s++;
    int neg = 0;
    if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
    long v = 0;
    if (b == 0) b = 10;
    while (isdigit(*s) && *s - '0' < b) v = v * b + (*s++ - '0');
    if (e) *e = (char *)s;
    return neg ? -v : v;
}
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
void qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
    char *p = (char *)b;
    char *t = (char *)malloc(w);
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--) {
            memcpy(t, p + j * w, w); memcpy(p + j * w, p + (j - 1) * w, w); memcpy(p + (j - 1) * w, t, w);
        }
    free(t);
}
static int err_no;
int *__errno_location(void) { return &err_no; }
char *strerror(int e) { return (char *)"error"; }
