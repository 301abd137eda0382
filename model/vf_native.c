/* Native replay runtime: reads the solver's input values in order. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <unistd.h>
#include "vf.h"
#include "virg/nexus/nx_log.h"
int vf_fatal_allowed = 0, vf_fatal_seen = 0;
static FILE *in;
static void need(void) { if (!in) { in = fopen(getenv("VF_REPLAY"), "r"); if (!in) { fprintf(stderr, "no replay file\n"); _exit(78); } } }
static uint64_t next(const char *kind)
{
        need();
        char k[16]; unsigned long long v;
        if (fscanf(in, "%15s %llx", k, &v) != 2) { fprintf(stderr, "REPLAY-OUT-OF-INPUT\n"); v = 0; _exit(77); }
        if (strcmp(k, kind)) { fprintf(stderr, "REPLAY-OUT-OF-SYNC %s %s\n", k, kind); _exit(77); }
        return v;
}
int vf_i(const char *id, int lo, int hi) { int v = (int)(uint32_t)next("i"); if (v < lo || v > hi) vf_native_assume(id); return v; }
int vf_int(const char *id) { return (int)(uint32_t)next("i"); }
unsigned char vf_u8(const char *id) { return (unsigned char)next("b"); }
uint64_t vf_u64(const char *id) { return next("q"); }
uint32_t vf_u32(const char *id) { return (uint32_t)next("u"); }
float vf_f(const char *id) { uint32_t b = (uint32_t)next("f"); float f; memcpy(&f, &b, 4); return f; }
double vf_d(const char *id) { uint64_t b = next("d"); double f; memcpy(&f, &b, 8); return f; }
void vf_native_fail(const char *msg, const char *file, int line)
{ fprintf(stderr, "REPLAY-VIOLATION %s:%d: %s\n", file, line, msg); fflush(NULL); _exit(66); }
void vf_native_assume(const char *c) { fprintf(stderr, "REPLAY-ASSUMPTION-FALSE %s\n", c); _exit(77); }
void vf_native_cover(const char *c) { fprintf(stderr, "REPLAY-COVER %s\n", c); }
static void fatal(const char *f, int line, const char *tag, const char *msg, va_list prm)
{
        fprintf(stderr, "[fatal] %s:%d ", f, line); vfprintf(stderr, msg, prm); fprintf(stderr, "\n");
        if (!vf_fatal_allowed) vf_native_fail("fatal error raised although the operation must succeed", f, line);
        fprintf(stderr, "REPLAY-FATAL-ALLOWED\n"); fflush(NULL); _exit(0);
}
/* streams */
struct ms { char *p; size_t n; FILE *f; int pos; };
static struct ms S[16]; static int nS;
FILE *vf_stream_in(const unsigned char *p, int n)
{ FILE *f = tmpfile(); if (n) fwrite(p, 1, n, f); rewind(f); return f; }
FILE *vf_stream_out(void) { return tmpfile(); }
static ssize_t lim_write(void *c, const char *b, size_t n)
{ int *left = c; if (*left <= 0) return 0; ssize_t k = n < (size_t)*left ? (ssize_t)n : *left; *left -= (int)k; return k; }
static int lim_close(void *c) { free(c); return 0; }
FILE *vf_stream_out_fail(int limit)
{ int *c = malloc(sizeof *c); *c = limit; cookie_io_functions_t io = { 0, lim_write, 0, lim_close };
  FILE *f = fopencookie(c, "w", io); setvbuf(f, NULL, _IONBF, 0); return f; }
FILE *vf_stream_out_lost(int limit)
{ int *c = malloc(sizeof *c); *c = limit; cookie_io_functions_t io = { 0, lim_write, 0, lim_close };
  FILE *f = fopencookie(c, "w", io); setvbuf(f, NULL, _IOFBF, 65536); return f; }
int vf_stream_out_len(FILE *f) { fflush(f); long p = ftell(f); fseek(f, 0, SEEK_END); int n = (int)ftell(f); fseek(f, p, SEEK_SET); return n; }
const unsigned char *vf_stream_out_data(FILE *f)
{ int n = vf_stream_out_len(f); long p = ftell(f); unsigned char *b = malloc(n + 1); rewind(f); if (fread(b, 1, n, f) != (size_t)n) abort(); b[n] = 0; fseek(f, p, SEEK_SET); return b; }
void vf_stream_rewind(FILE *f) { rewind(f); }
const char *vf_file_new(const char *ext)
{ static int k; char *b; if (asprintf(&b, "%s/f%d%s", getenv("VF_SCRATCH"), k++, ext) < 0) abort(); unlink(b); return b; }
const char *vf_file_put(const unsigned char *p, int n, const char *ext)
{ const char *b = vf_file_new(ext); FILE *f = fopen(b, "wb"); if (!f) abort(); if (n) fwrite(p, 1, n, f); fclose(f); return b; }
const char *vf_file_full(const char *ext)
{ const char *b = vf_file_new(ext); if (symlink("/dev/full", b)) abort(); return b; }
int vf_file_len(const char *name) { FILE *f = fopen(name, "rb"); if (!f) return -1; fseek(f, 0, SEEK_END); int n = (int)ftell(f); fclose(f); return n; }
int vf_file_byte(const char *name, int i) { FILE *f = fopen(name, "rb"); if (!f) return -1; fseek(f, i, SEEK_SET); int c = fgetc(f); fclose(f); return c; }
void VF_ENTRY(void);
int main(void)
{
        nx_log_verbosity(NX_LOG_SILENT);
        nx_log_fatal_func((NXLogFatalFuncP)fatal);
        VF_ENTRY();
        fprintf(stderr, "REPLAY-COMPLETE\n");
        return 0;
}
