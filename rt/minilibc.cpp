// C library functions for the symbolic build (the native replay uses the real
// C library; engine/native trace comparison checks that both agree).
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
extern "C" {
void *malloc(size_t);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
char *strcpy(char *d, const char *s) { size_t i = 0; for (;; ++i) { char c = s[i]; d[i] = c; if (!c) break; } return d; }
char *stpcpy(char *d, const char *s) { size_t i = 0; for (;; ++i) { char c = s[i]; d[i] = c; if (!c) break; } return d + i; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; ++i) e[i] = s[i]; e[i] = 0; return d; }
int strcmp(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) ++i; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char *a, const char *b, size_t n) { size_t i = 0; if (!n) return 0; while (i + 1 < n && a[i] && a[i] == b[i]) ++i; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; ++h) { if (!strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); for (size_t i = 0; i < n; ++i) p[i] = s[i]; return p; }
// no early exit: one path whatever the contents
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; int r = 0; for (size_t i = n; i-- > 0;) { int d = (int)x[i] - (int)y[i]; r = d ? d : r; } return r; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
static inline unsigned in(int c, int lo, int hi) { return (unsigned)((unsigned)(c - lo) <= (unsigned)(hi - lo)); }
int isdigit(int c) { return in(c, '0', '9'); }
int isxdigit(int c) { return in(c, '0', '9') | in(c, 'A', 'F') | in(c, 'a', 'f'); }
int isupper(int c) { return in(c, 'A', 'Z'); }
int islower(int c) { return in(c, 'a', 'z'); }
int isalpha(int c) { return in(c, 'A', 'Z') | in(c, 'a', 'z'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isprint(int c) { return in(c, 32, 126); }
int isspace(int c) { return in(c, 9, 13) | (unsigned)(c == 32); }
int toupper(int c) { return c - (in(c, 'a', 'z') ? 32 : 0); }
int tolower(int c) { return c + (in(c, 'A', 'Z') ? 32 : 0); }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
static int digitOf(int c) { int r = 99; r = in(c, '0', '9') ? c - '0' : r; r = in(c, 'A', 'Z') ? c - 'A' + 10 : r; r = in(c, 'a', 'z') ? c - 'a' + 10 : r; return r; }
static unsigned long parse(const char *s, char **end, int base, bool &negv) {
  const char *p = s; while (isspace(*p)) ++p;
  negv = false; if (*p == '+' || *p == '-') { negv = *p == '-'; ++p; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitOf(p[2]) < 16) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false;
  for (;; ++p) { int d = digitOf(*p); if (d >= base) break; v = v * base + d; any = true; }
  if (end) *end = (char *)(any ? p : s);
  return v;
}
long strtol(const char *s, char **end, int base) { bool n; unsigned long v = parse(s, end, base, n); return n ? -(long)v : (long)v; }
unsigned long strtoul(const char *s, char **end, int base) { bool n; unsigned long v = parse(s, end, base, n); return n ? -v : v; }
long __isoc23_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long __isoc23_strtoul(const char *s, char **end, int base) { return strtoul(s, end, base); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }

struct Out { char *p; size_t n, cap; bool bounded; };
static void outc(Out &o, char c) { if (!o.bounded || o.n + 1 < o.cap) o.p[o.n] = c; ++o.n; }
static void number(Out &o, unsigned long v, bool neg, unsigned base, bool upper, int width, bool zero, bool left, int prec) {
  int len = 1; unsigned long lim = base;
  while (len < 20 && v >= lim) { ++len; unsigned long nl = lim * base; if (nl / base != lim) break; lim = nl; }
  int digits = len; if (prec > digits) digits = prec;
  int total = digits + (neg ? 1 : 0);
  int pad = width > total ? width - total : 0;
  if (!left && !(zero && prec < 0)) for (int i = 0; i < pad; ++i) outc(o, ' ');
  if (neg) outc(o, '-');
  if (!left && zero && prec < 0) for (int i = 0; i < pad; ++i) outc(o, '0');
  for (int i = len; i < digits; ++i) outc(o, '0');
  unsigned long div = 1; for (int i = 1; i < len; ++i) div *= base;
  for (int i = 0; i < len; ++i) { unsigned d = (unsigned)((v / div) % base); outc(o, (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10)); div /= base; }
  if (left) for (int i = 0; i < pad; ++i) outc(o, ' ');
}
static int vfmt(Out &o, const char *f, va_list ap) {
  for (; *f; ++f) {
    if (*f != '%') { outc(o, *f); continue; }
    ++f; bool zero = false, left = false; int width = 0, prec = -1, h = 0, l = 0;
    for (;; ++f) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+' || *f == ' ' || *f == '#') ; else break; }
    if (*f == '*') { width = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    for (;; ++f) { if (*f == 'h') ++h; else if (*f == 'l' || *f == 'z') ++l; else break; }
    switch (*f) {
    case 'd': case 'i': { long v = l ? va_arg(ap, long) : (long)va_arg(ap, int); if (h == 1) v = (short)v; if (h >= 2) v = (signed char)v; bool n = v < 0; number(o, n ? 0ul - (unsigned long)v : (unsigned long)v, n, 10, false, width, zero, left, prec); break; }
    case 'u': case 'x': case 'X': { unsigned long v = l ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (h == 1) v = (unsigned short)v; if (h >= 2) v = (unsigned char)v; number(o, v, false, *f == 'u' ? 10 : 16, *f == 'X', width, zero, left, prec); break; }
    case 'c': { int c = va_arg(ap, int); if (!left) for (int i = 1; i < width; ++i) outc(o, ' '); outc(o, (char)c); if (left) for (int i = 1; i < width; ++i) outc(o, ' '); break; }
    case 's': { const char *s = va_arg(ap, const char *); int n = 0; while ((prec < 0 || n < prec) && s[n]) ++n; if (!left) for (int i = n; i < width; ++i) outc(o, ' '); for (int i = 0; i < n; ++i) outc(o, s[i]); if (left) for (int i = n; i < width; ++i) outc(o, ' '); break; }
    case '%': outc(o, '%'); break;
    default: __builtin_trap();
    }
  }
  if (!o.bounded) o.p[o.n] = 0; else if (o.cap) o.p[o.n < o.cap ? o.n : o.cap - 1] = 0;
  return (int)o.n;
}
int vsprintf(char *b, const char *f, va_list ap) { Out o = {b, 0, 0, false}; return vfmt(o, f, ap); }
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { Out o = {b, 0, n, true}; return vfmt(o, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int puts(const char *) { return 0; }
int printf(const char *, ...) { return 0; }
int putchar(int c) { return c; }
}
