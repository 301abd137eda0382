/* CBMC only: ctype (C locale), string->number conversions and qsort as plain code. */
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <limits.h>
#include <ctype.h>
#undef isdigit
#undef isspace
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c <= 126; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int vf_dig(int c) { if (isdigit(c)) return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
long strtol(const char *s, char **end, int base)
{
        const char *p = s; int neg = 0;
        while (isspace((unsigned char)*p)) ++p;
        if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
        if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && vf_dig((unsigned char)p[2]) < 16) { p += 2; base = 16; }
        else if (base == 0) base = p[0] == '0' ? 8 : 10;
        unsigned long v = 0; int n = 0, ov = 0;
        for (;; ++p, ++n) {
                int d = vf_dig((unsigned char)*p);
                if (d >= base) break;
                if (v > (unsigned long)(LONG_MAX / base)) ov = 1; else v = v * (unsigned long)base + (unsigned long)d;
                if (v > (unsigned long)LONG_MAX) { if (!(neg && v == (unsigned long)LONG_MAX + 1)) ov = 1; }
        }
        if (end) *end = (char *)(n ? p : s);
        if (ov) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
        return neg ? (long)(0UL - v) : (long)v;
}
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{       /* insertion sort; any permutation a C library may produce is sorted w.r.t. a valid cmp */
        unsigned char *b = base;
        for (size_t i = 1; i < n; ++i)
                for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; --j)
                {
                        unsigned char t[64];
                        if (sz > sizeof t) abort(); /* model limit */
                        memcpy(t, b + (j - 1) * sz, sz); memcpy(b + (j - 1) * sz, b + j * sz, sz); memcpy(b + j * sz, t, sz);
                }
}
/* one fixed moment: what the clock says only seeds random generators */
long time(long *t) { if (t) *t = 1000000007; return 1000000007; }
