// Plain-C models of the libc functions the project (or a change to it) may call; only the
// symbolic executor links them, the native replay uses the real libc.
#include <stddef.h>
#include <stdlib.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char *stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
  size_t k = strlen(d), i = 0;
  for (; i < n && s[i]; i++) d[k + i] = s[i];
  d[k + i] = 0;
  return d;
}
int strcmp(const char *a, const char *b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i]) i++;
  return (unsigned char)a[i] - (unsigned char)b[i];
}
int strncmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i];
    if (!a[i]) return 0;
  }
  return 0;
}
char *strchr(const char *s, int c) {
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) {
  const char *r = 0;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
char *strstr(const char *h, const char *n) {
  size_t k = strlen(n);
  for (;; h++) { if (!strncmp(h, n, k)) return (char *)h; if (!*h) return 0; }
}
char *strdup(const char *s) { char *d = malloc(strlen(s) + 1); return strcpy(d, s); }
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i];
  return 0;
}
void *memchr(const void *a, int c, size_t n) {
  const unsigned char *x = a;
  for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i);
  return 0;
}
void bzero(void *p, size_t n) { unsigned char *x = p; for (size_t i = 0; i < n; i++) x[i] = 0; }
void bcopy(const void *s, void *d, size_t n) {
  const unsigned char *x = s; unsigned char *y = d;
  if (y < x) for (size_t i = 0; i < n; i++) y[i] = x[i];
  else for (size_t i = n; i-- > 0;) y[i] = x[i];
}
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
int atoi(const char *s) {
  int r = 0, g = 0;
  while (*s == ' ') s++;
  if (*s == '-') { g = 1; s++; } else if (*s == '+') s++;
  while (*s >= '0' && *s <= '9') r = r * 10 + (*s++ - '0');
  return g ? -r : r;
}
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void qsort(void *b, size_t n, size_t w, int (*f)(const void *, const void *)) {
  char *p = b;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && f(p + (j - 1) * w, p + j * w) > 0; j--)
      for (size_t k = 0; k < w; k++) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
int *__errno_location(void) { static int e; return &e; }
char *strerror(int e) { return (char *)"error"; }
char *strsignal(int e) { return (char *)"signal"; }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) for (const char *p = a; *p; p++) if (*p == *s) return (char *)s; return 0; }
unsigned long strspn(const char *s, const char *a) { unsigned long n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
unsigned long strcspn(const char *s, const char *a) { unsigned long n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
long strtol(const char *s, char **e, int base) {
  long v = 0; int neg = 0, d;
  while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
  if (*s == '-' || *s == '+') neg = *s++ == '-';
  if (!base) base = *s == '0' ? (s[1] | 32) == 'x' ? 16 : 8 : 10;
  if (base == 16 && *s == '0' && (s[1] | 32) == 'x') s += 2;
  for (;; s++) {
    d = *s >= '0' && *s <= '9' ? *s - '0' : (*s | 32) >= 'a' && (*s | 32) <= 'z' ? (*s | 32) - 'a' + 10 : 99;
    if (d >= base) break;
    v = v * base + d;
  }
  if (e) *e = (char *)s;
  return neg ? -v : v;
}
unsigned long strtoul(const char *s, char **e, int base) { return (unsigned long)strtol(s, e, base); }
