/* symex only: C string functions as plain code (CBMC has built-in models of these). */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include <limits.h>
#include "vf.h"
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b)
{ for (;; ++a, ++b) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char *a, const char *b, size_t n)
{ for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
static int vf_low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b)
{ for (;; ++a, ++b) { int x = vf_low((unsigned char)*a), y = vf_low((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n)
{ for (; n; --n, ++a, ++b) { int x = vf_low((unsigned char)*a), y = vf_low((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int memcmp(const void *a, const void *b, size_t n)
{ const unsigned char *x = a, *y = b; for (; n; --n, ++x, ++y) if (*x != *y) return *x < *y ? -1 : 1; return 0; }
void *memchr(const void *a, int c, size_t n)
{ const unsigned char *x = a; for (; n; --n, ++x) if (*x == (unsigned char)c) return (void *)x; return NULL; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { ++d; ++s; } return d; }
char *strncpy(char *d, const char *s, size_t n)
{ size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n)
{ size_t k = strlen(d), i = 0; for (; i < n && s[i]; ++i) d[k + i] = s[i]; d[k + i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && strchr(set, s[n])) ++n; return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) ++n; return n; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : NULL; }
char *strstr(const char *h, const char *n)
{ size_t l = strlen(n); for (;; ++h) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *d = malloc(n); if (d) memcpy(d, s, n); return d; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *d = malloc(n + 1); if (d) { memcpy(d, s, n); d[n] = 0; } return d; }
static int vf_errno; int *__errno_location(void) { return &vf_errno; }
char *strerror(int e) { return "error"; }
int abs(int v) { return v < 0 ? -v : v; }
unsigned long strtoul(const char *s, char **e, int base)
{
        const char *p = s; int neg = 0, n = 0, ov = 0; unsigned long v = 0;
        while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
        if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
        if (base == 0) base = p[0] == '0' ? 8 : 10;
        for (;; ++p, ++n) { int d = *p >= '0' && *p <= '9' ? *p - '0' : 99; if (d >= base) break; if (v > (~0UL - (unsigned long)d) / (unsigned long)base) ov = 1; v = v * (unsigned long)base + (unsigned long)d; }
        if (e) *e = (char *)(n ? p : s);
        if (ov) return ~0UL; return neg ? 0UL - v : v;
}
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
long long atoll(const char *s) { return strtol(s, 0, 10); }
/* strtod: decimal numerals of at most 15 digits and |exponent| <= 22 (there the single
 * multiplication/division below is correctly rounded); inf/nan/hex and longer ones are limits */
double strtod(const char *s, char **end)
{
        const char *p = s; int neg = 0, nd = 0, ex = 0, any = 0, conc = 1;
        for (const char *q = s;; ++q) { if (vfx_is_symbolic((uint64_t)(unsigned char)*q)) { conc = 0; break; } if (!*q) break; }
        if (conc) { int used = 0; double v = vfx_strtod(s, &used); if (end) *end = (char *)s + used; return v; } /* the host's */
        while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
        if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
        if (*p == 'i' || *p == 'I') {
                if (vf_low(p[1]) == 'n' && vf_low(p[2]) == 'f') {
                        int k = 3; if (!strncasecmp(p + 3, "inity", 5)) k = 8;
                        if (end) *end = (char *)p + k; return neg ? -1.0 / 0.0 : 1.0 / 0.0; }
        }
        if (*p == 'n' || *p == 'N') {
                if (vf_low(p[1]) == 'a' && vf_low(p[2]) == 'n') {
                        const char *q = p + 3;
                        if (*q == '(') { ++q; while ((*q >= '0' && *q <= '9') || (vf_low(*q) >= 'a' && vf_low(*q) <= 'z') || *q == '_') ++q; q = *q == ')' ? q + 1 : p + 3; }
                        if (end) *end = (char *)q; return 0.0 / 0.0; }
        }
        if (*p == '0' && (p[1] == 'x' || p[1] == 'X')) {
                int c = p[2] == '.' ? p[3] : p[2]; c = vf_low(c);
                if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f')) {
                        double hv = 0; int dot = 0, he = 0; p += 2;
                        for (;; ++p) {
                                int d = vf_low(*p);
                                if (d == '.' && !dot) { dot = 1; continue; }
                                if (d >= '0' && d <= '9') d -= '0'; else if (d >= 'a' && d <= 'f') d -= 'a' - 10; else break;
                                hv = hv * 16 + d; if (dot) he -= 4;
                        }
                        if (vf_low(*p) == 'p') {
                                const char *q = p + 1; int en = 0, e = 0, k = 0;
                                if (*q == '+' || *q == '-') { en = *q == '-'; ++q; }
                                for (; *q >= '0' && *q <= '9'; ++q) { if (e < 300) e = e * 10 + (*q - '0'); ++k; }
                                if (k) { p = q; he += en ? -e : e; }
                        }
                        if (end) *end = (char *)p;
                        if (he > 300 || he < -300) vfx_model_limit("strtod hexadecimal exponent");
                        for (; he > 0; --he) hv *= 2;
                        for (; he < 0; ++he) hv /= 2;
                        return neg ? -hv : hv;
                }
        }
        unsigned long m = 0;
        for (; *p >= '0' && *p <= '9'; ++p) { any = 1; if (m || *p != '0') ++nd; m = m * 10 + (unsigned long)(*p - '0'); }
        if (*p == '.') { const char *q = p; ++p; for (; *p >= '0' && *p <= '9'; ++p) { any = 1; if (m || *p != '0') ++nd; m = m * 10 + (unsigned long)(*p - '0'); --ex; } if (!any) p = q; }
        if (!any) { if (end) *end = (char *)s; return 0.0; }
        if (*p == 'e' || *p == 'E') {
                const char *q = p + 1; int en = 0, e = 0, k = 0;
                if (*q == '+' || *q == '-') { en = *q == '-'; ++q; }
                for (; *q >= '0' && *q <= '9'; ++q) { if (e < 1000) e = e * 10 + (*q - '0'); ++k; }
                if (k) { p = q; ex += en ? -e : e; }
        }
        if (end) *end = (char *)p;
        if (nd > 15) vfx_model_limit("strtod more than 15 digits");
        double v = (double)m, t = 1;
        if (m) {
                if (ex > 290 || ex < -290) vfx_model_limit("strtod exponent");
                for (int i = 0; i < (ex < 0 ? -ex : ex); ++i) t *= 10;
                v = ex < 0 ? v / t : v * t;
        }
        return neg ? -v : v;
}
double atof(const char *s) { return strtod(s, 0); }
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
