/* CBMC only: stdio over in-memory files. Every stream is a fixed-capacity byte array with a
 * position, EOF and error flags; writes beyond `limit` fail (short count / EOF, error flag set).
 * fclose reports an error exactly when a write failed at flush time (flush_fail). */
#include <stdarg.h>
#include <stdio.h>
#include <stddef.h>
#include <string.h>
#include "vf.h"
#ifndef VF_FCAP
#define VF_FCAP 64
#endif
#ifndef VF_NFILES
#define VF_NFILES 3
#endif
#ifndef VF_FMT_MAX
#define VF_FMT_MAX 96
#endif
struct vf_file { unsigned char data[VF_FCAP]; int len, pos, limit; int eof, err, open, buffered, dirty_lost; };
struct vf_file vf_F[VF_NFILES];
int vf_nF = 0;
int vf_open_count = 0;              /* streams handed out by fopen and not closed yet */
static char vf_names[VF_NFILES][8];

static struct vf_file *vf_mk(void)
{
        __CPROVER_assert(vf_nF < VF_NFILES, "MODEL: file table large enough");
        struct vf_file *f = &vf_F[vf_nF++];
        f->len = f->pos = 0; f->limit = VF_FCAP; f->eof = f->err = 0; f->open = 1; f->buffered = 0; f->dirty_lost = 0;
        return f;
}
FILE *vf_stream_in(const unsigned char *p, int n)
{
        struct vf_file *f = vf_mk();
        __CPROVER_assert(n <= VF_FCAP, "MODEL: file capacity");
        for (int i = 0; i < n; ++i) f->data[i] = p[i];
        f->len = n;
        return (FILE *)f;
}
FILE *vf_stream_out(void) { return (FILE *)vf_mk(); }
FILE *vf_stream_out_fail(int limit) { struct vf_file *f = vf_mk(); f->limit = limit; return (FILE *)f; }
FILE *vf_stream_out_lost(int limit) { struct vf_file *f = vf_mk(); f->limit = limit; f->buffered = 1; return (FILE *)f; }
int vf_stream_out_len(FILE *s) { return ((struct vf_file *)s)->len; }
const unsigned char *vf_stream_out_data(FILE *s) { return ((struct vf_file *)s)->data; }
void vf_stream_rewind(FILE *s) { struct vf_file *f = (struct vf_file *)s; f->pos = 0; f->eof = 0; }
const char *vf_file_new(const char *ext)
{
        int k = vf_nF; vf_mk();
        vf_F[k].open = 0; vf_F[k].len = -1;
        vf_names[k][0] = 'f'; vf_names[k][1] = (char)('0' + k); vf_names[k][2] = 0;
        for (int i = 0; i < 5 && ext[i]; ++i) { vf_names[k][2 + i] = ext[i]; vf_names[k][3 + i] = 0; }
        return vf_names[k];
}
const char *vf_file_put(const unsigned char *p, int n, const char *ext)
{
        int k = vf_nF;
        const char *nm = vf_file_new(ext);
        __CPROVER_assert(n <= VF_FCAP, "MODEL: file capacity");
        for (int i = 0; i < n; ++i) vf_F[k].data[i] = p[i];
        vf_F[k].len = n;
        return nm;
}
const char *vf_file_full(const char *ext)
{
        int k = vf_nF;
        const char *nm = vf_file_new(ext);
        vf_F[k].len = 0; vf_F[k].buffered = 1; vf_F[k].limit = 0;
        return nm;
}
static int vf_lookup(const char *name)
{
        for (int k = 0; k < VF_NFILES; ++k)
                if (k < vf_nF && name[0] == 'f' && vf_names[k][0] == 'f' && name[1] == vf_names[k][1]) return k;
        return -1;
}
int vf_file_len(const char *name) { int k = vf_lookup(name); return k < 0 ? -1 : vf_F[k].len; }
int vf_file_byte(const char *name, int i) { int k = vf_lookup(name); if (k < 0 || i < 0 || i >= vf_F[k].len) return -1; return vf_F[k].data[i]; }

FILE *fopen(const char *name, const char *mode)
{
        int k = vf_lookup(name);
        if (k < 0) return NULL;
        struct vf_file *f = &vf_F[k];
        if (mode[0] == 'r') { if (f->len < 0) return NULL; }
        else if (mode[0] == 'w') f->len = 0;
        else { __CPROVER_assert(0, "MODEL: fopen mode"); return NULL; }
        f->pos = 0; f->eof = 0; f->err = 0; f->open = 1;
        ++vf_open_count;
        return (FILE *)f;
}
int fclose(FILE *s)
{
        struct vf_file *f = (struct vf_file *)s;
        __CPROVER_assert(f->open == 1, "VF: stream closed once and only while open");
        f->open = 0;
        --vf_open_count;
        return f->dirty_lost ? EOF : 0;
}
int fflush(FILE *s) { if (s) { struct vf_file *f = (struct vf_file *)s; return f->dirty_lost ? EOF : 0; } return 0; }
int feof(FILE *s) { return ((struct vf_file *)s)->eof; }
int ferror(FILE *s) { return ((struct vf_file *)s)->err; }
void clearerr(FILE *s) { ((struct vf_file *)s)->eof = 0; ((struct vf_file *)s)->err = 0; }
void rewind(FILE *s) { ((struct vf_file *)s)->pos = 0; ((struct vf_file *)s)->eof = 0; ((struct vf_file *)s)->err = 0; }
int fseek(FILE *s, long off, int wh)
{
        struct vf_file *f = (struct vf_file *)s;
        long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : f->len;
        if (b + off < 0) return -1;
        f->pos = (int)(b + off); f->eof = 0;
        return 0;
}
long ftell(FILE *s) { return ((struct vf_file *)s)->pos; }
int fgetc(FILE *s)
{
        struct vf_file *f = (struct vf_file *)s;
        __CPROVER_assert(f->open, "VF: stream used while open");
        if (f->pos >= f->len) { f->eof = 1; return EOF; }
        return f->data[f->pos++];
}
int getc(FILE *s) { return fgetc(s); }
int ungetc(int c, FILE *s)
{
        struct vf_file *f = (struct vf_file *)s;
        if (c == EOF || f->pos == 0) return EOF;
        --f->pos; f->eof = 0;
        if (f->data[f->pos] != (unsigned char)c) f->data[f->pos] = (unsigned char)c;
        return (unsigned char)c;
}
int fputc(int c, FILE *s)
{
        struct vf_file *f = (struct vf_file *)s;
        __CPROVER_assert(f->open, "VF: stream used while open");
        if (f->pos >= f->limit) { if (f->buffered) { f->dirty_lost = 1; return (unsigned char)c; } f->err = 1; return EOF; }
        __CPROVER_assert(f->pos < VF_FCAP, "MODEL: file capacity");
        __CPROVER_assume(f->pos < VF_FCAP);
        f->data[f->pos++] = (unsigned char)c;
        if (f->pos > f->len) f->len = f->pos;
        return (unsigned char)c;
}
int putc(int c, FILE *s) { return fputc(c, s); }
int fputs(const char *p, FILE *s)
{
        for (size_t i = 0; p[i]; ++i) if (fputc((unsigned char)p[i], s) == EOF) return EOF;
        return 1;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *s)
{
        const unsigned char *b = p;
        if (sz == 0 || n == 0) return 0;
        for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < sz; ++j)
                        if (fputc(b[i * sz + j], s) == EOF) return i;
        return n;
}
size_t fread(void *p, size_t sz, size_t n, FILE *s)
{
        unsigned char *b = p;
        if (sz == 0 || n == 0) return 0;
        for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < sz; ++j) {
                        int c = fgetc(s);
                        if (c == EOF) return i;
                        b[i * sz + j] = (unsigned char)c;
                }
        return n;
}
char *fgets(char *b, int n, FILE *s)
{
        int i = 0;
        while (i < n - 1) {
                int c = fgetc(s);
                if (c == EOF) { if (i == 0) return NULL; break; }
                b[i++] = (char)c;
                if (c == '\n') break;
        }
        b[i] = 0;
        return b;
}
/* ---- formatted output: %s %d %i %u %ld %lu %zu %zd %c %%, no width except %0Nx handled by nobody */
struct vf_sink { FILE *f; char *b; size_t cap; int n; int fail; };
static void vf_emit(struct vf_sink *k, int c)
{
        if (k->f) { if (fputc(c, k->f) == EOF) k->fail = 1; }
        else if (k->cap && (size_t)k->n < k->cap - 1) k->b[k->n] = (char)c;
        ++k->n;
}
static void vf_emit_num(struct vf_sink *k, unsigned long long u, int neg, unsigned base, int width, int zero)
{
        char t[24]; int m = 0;
        do { unsigned d = (unsigned)(u % base); t[m++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); u /= base; } while (u && m < 22);
        int w = m + neg;
        if (!zero) for (; w < width; ++w) vf_emit(k, ' ');
        if (neg) vf_emit(k, '-');
        if (zero) for (; w < width; ++w) vf_emit(k, '0');
        while (m > 0) vf_emit(k, t[--m]);
}
static void vf_fmt(struct vf_sink *k, const char *fmt, va_list ap)
{
        for (int i = 0; i < VF_FMT_MAX && fmt[i]; ++i) {
                if (fmt[i] != '%') { vf_emit(k, fmt[i]); continue; }
                int i0 = i;
                ++i;
                int l = 0, zero = 0, width = 0, prec = -1, left = 0;
                while (fmt[i] == '0' || fmt[i] == '-') { if (fmt[i] == '0') zero = 1; else left = 1; ++i; }
                if (fmt[i] == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } ++i; }
                while (fmt[i] >= '0' && fmt[i] <= '9') width = width * 10 + (fmt[i++] - '0');
                if (fmt[i] == '.') { ++i; prec = 0; if (fmt[i] == '*') { prec = va_arg(ap, int); ++i; } while (fmt[i] >= '0' && fmt[i] <= '9') prec = prec * 10 + (fmt[i++] - '0'); }
                while (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'h') { if (fmt[i] != 'h') l = 1; ++i; }
                switch (fmt[i]) {
                case '%': vf_emit(k, '%'); break;
                case 'c': vf_emit(k, va_arg(ap, int)); break;
                case 's': { const char *s = va_arg(ap, const char *); int n = 0; while ((prec < 0 || n < prec) && s[n]) ++n;
                        if (!left) for (int w = n; w < width; ++w) vf_emit(k, ' ');
                        for (int j = 0; j < n; ++j) vf_emit(k, s[j]);
                        if (left) for (int w = n; w < width; ++w) vf_emit(k, ' ');
                        break; }
                case 'd': case 'i': { long v = l ? va_arg(ap, long) : (long)va_arg(ap, int);
                        __CPROVER_assert(!left && prec < 0, "MODEL: printf flags supported");
                        vf_emit_num(k, v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v, v < 0, 10, width, zero); break; }
                case 'u': case 'x': { unsigned long v = l ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
                        __CPROVER_assert(!left && prec < 0, "MODEL: printf flags supported");
                        vf_emit_num(k, v, 0, fmt[i] == 'x' ? 16 : 10, width, zero); break; }
#ifdef VF_SE
                case 'g': case 'f': case 'e': { char spec[16], out[400]; int n = 0; for (int j = i0; j <= i && n < 15; ++j) spec[n++] = fmt[j]; spec[n] = 0;
                        int m = vfx_fmt_double(out, spec, va_arg(ap, double)); for (int j = 0; j < m; ++j) vf_emit(k, out[j]); break; }
#endif
                default: __CPROVER_assert(0, "MODEL: printf conversion supported"); __CPROVER_assume(0);
                }
        }
}
int vfprintf(FILE *s, const char *fmt, va_list ap)
{ struct vf_sink k = { s, 0, 0, 0, 0 }; vf_fmt(&k, fmt, ap); return k.fail ? -1 : k.n; }
int fprintf(FILE *s, const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); struct vf_sink k = { s, 0, 0, 0, 0 }; vf_fmt(&k, fmt, ap); va_end(ap); return k.fail ? -1 : k.n; }
int vsnprintf(char *b, size_t cap, const char *fmt, va_list ap)
{ struct vf_sink k = { 0, b, cap, 0, 0 }; vf_fmt(&k, fmt, ap); if (cap) b[(size_t)k.n < cap ? (size_t)k.n : cap - 1] = 0; return k.n; }
int snprintf(char *b, size_t cap, const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); struct vf_sink k = { 0, b, cap, 0, 0 }; vf_fmt(&k, fmt, ap); va_end(ap);
  if (cap) b[(size_t)k.n < cap ? (size_t)k.n : cap - 1] = 0; return k.n; }
int sprintf(char *b, const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); struct vf_sink k = { 0, b, (size_t)1 << 30, 0, 0 }; vf_fmt(&k, fmt, ap); va_end(ap); b[k.n] = 0; return k.n; }
/* ---- formatted input: %c, %d, blanks, literals */
static int vf_sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int fscanf(FILE *s, const char *fmt, ...)
{
        va_list ap; va_start(ap, fmt);
        int done = 0, c;
        for (int i = 0; i < VF_FMT_MAX && fmt[i]; ++i) {
                if (vf_sp(fmt[i])) { while (vf_sp(c = fgetc(s))) { } if (c != EOF) ungetc(c, s); continue; }
                if (fmt[i] != '%') { c = fgetc(s); if (c == EOF) return done ? done : EOF; if (c != fmt[i]) { ungetc(c, s); return done; } continue; }
                ++i;
                if (fmt[i] == 'c') { c = fgetc(s); if (c == EOF) return done ? done : EOF; *va_arg(ap, char *) = (char)c; ++done; }
                else if (fmt[i] == 'd') {
                        while (vf_sp(c = fgetc(s))) { }
                        if (c == EOF) return done ? done : EOF;
                        int neg = 0, nd = 0; long v = 0;
                        if (c == '+' || c == '-') { neg = c == '-'; c = fgetc(s); }
                        while (c >= '0' && c <= '9') { if (v < (1L << 40)) v = v * 10 + (c - '0'); ++nd; c = fgetc(s); }
                        if (c != EOF) ungetc(c, s);
                        if (!nd) return (c == EOF && !done) ? EOF : done;
                        *va_arg(ap, int *) = (int)(neg ? -v : v); ++done;
                } else { __CPROVER_assert(0, "MODEL: scanf conversion supported"); __CPROVER_assume(0); }
        }
        va_end(ap);
        return done;
}
void perror(const char *s) { (void)s; }
