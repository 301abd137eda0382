/* vf.h -- one harness source, two engines.
 *
 * Under CBMC (__CPROVER defined) every vf_* input is a fresh symbolic value, recorded in the
 * trace through __CPROVER_input; VF_ASSERT is the proof obligation.
 * Natively (replay) the same calls read the values of a solver counterexample, in order, from
 * the file named by $VF_REPLAY; VF_ASSERT aborts with a REPLAY-VIOLATION line. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef VF_CBMC
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_ASSERT(c, msg) __CPROVER_assert((c), "VF: " msg)
#define VF_COVER(msg) __CPROVER_assert(0, "COVER: " msg)
int nondet_int(void); unsigned char nondet_uchar(void); uint64_t nondet_u64(void);
uint32_t nondet_u32(void); float nondet_float(void); double nondet_double(void);
static inline int vf_i(const char *id, int lo, int hi)
{ int v = nondet_int(); __CPROVER_assume(v >= lo && v <= hi); __CPROVER_input("i", v); return v; }
static inline int vf_int(const char *id)
{ int v = nondet_int(); __CPROVER_input("i", v); return v; }
static inline unsigned char vf_u8(const char *id)
{ unsigned char v = nondet_uchar(); __CPROVER_input("b", v); return v; }
static inline uint64_t vf_u64(const char *id)
{ uint64_t v = nondet_u64(); __CPROVER_input("q", v); return v; }
static inline uint32_t vf_u32(const char *id)
{ uint32_t v = nondet_u32(); __CPROVER_input("u", v); return v; }
static inline float vf_f(const char *id)
{ float v = nondet_float(); __CPROVER_input("f", v); return v; }
static inline double vf_d(const char *id)
{ double v = nondet_double(); __CPROVER_input("d", v); return v; }
extern int vf_fatal_allowed, vf_fatal_seen;
/* memory obligation used by harnesses that must see whether an address is accessible */
#define VF_READABLE(p, n) VF_ASSERT(__CPROVER_r_ok((p), (n)), "memory readable")
#elif defined(VF_SE)
uint64_t vfx_nondet(int kind); float vfx_nondet_f(void); double vfx_nondet_d(void);
void vfx_assume(int c); void vfx_assert(int c, const char *msg); void vfx_cover(const char *msg);
void vfx_model_limit(const char *msg); void vfx_end(void); uint64_t vfx_concretize(uint64_t v);
int vfx_is_symbolic(uint64_t v); int vfx_fmt_double(char *b, const char *fmt, double v); double vfx_strtod(const char *s, int *used);
#define VF_ASSUME(c) vfx_assume(!!(c))
#define VF_ASSERT(c, msg) vfx_assert(!!(c), msg)
#define VF_COVER(msg) vfx_cover(msg)
static inline int vf_i(const char *id, int lo, int hi)
{ int v = (int)vfx_nondet('i'); vfx_assume((v >= lo) & (v <= hi)); return v; }
static inline int vf_int(const char *id) { return (int)vfx_nondet('i'); }
static inline unsigned char vf_u8(const char *id) { return (unsigned char)vfx_nondet('b'); }
static inline uint64_t vf_u64(const char *id) { return vfx_nondet('q'); }
static inline uint32_t vf_u32(const char *id) { return (uint32_t)vfx_nondet('u'); }
static inline float vf_f(const char *id) { return vfx_nondet_f(); }
static inline double vf_d(const char *id) { return vfx_nondet_d(); }
extern int vf_fatal_allowed, vf_fatal_seen;
#define VF_READABLE(p, n) do { volatile const unsigned char *vf_q = (const unsigned char *)(p); \
        for (size_t vf_k = 0; vf_k < (size_t)(n); ++vf_k) (void)vf_q[vf_k]; } while (0)
static inline void vf_se_assert(int c, const char *m)
{ if (m[0] == 'M') { if (!c) vfx_model_limit(m); } else vfx_assert(c, m + 4); }
#define __CPROVER_assert(c, m) vf_se_assert(!!(c), m)
#define __CPROVER_assume(c) vfx_assume(!!(c))
#else
void vf_native_fail(const char *msg, const char *file, int line);
void vf_native_assume(const char *cond);
void vf_native_cover(const char *msg);
#define VF_ASSUME(c) do { if (!(c)) vf_native_assume(#c); } while (0)
#define VF_ASSERT(c, msg) do { if (!(c)) vf_native_fail(msg, __FILE__, __LINE__); } while (0)
#define VF_COVER(msg) vf_native_cover(msg)
int vf_i(const char *id, int lo, int hi);
int vf_int(const char *id);
unsigned char vf_u8(const char *id);
uint64_t vf_u64(const char *id);
uint32_t vf_u32(const char *id);
float vf_f(const char *id);
double vf_d(const char *id);
extern int vf_fatal_allowed, vf_fatal_seen;
#define VF_READABLE(p, n) do { volatile const unsigned char *vf_q = (const unsigned char *)(p); \
        unsigned char vf_s = 0; for (size_t vf_k = 0; vf_k < (size_t)(n); ++vf_k) vf_s ^= vf_q[vf_k]; (void)vf_s; } while (0)
#endif

/* like vf_i, but (symex) explored value by value: one path per value */
#ifdef VF_SE
static inline int vf_pick(const char *id, int lo, int hi) { int v = vf_i(id, lo, hi); return (int)vfx_concretize((uint64_t)(uint32_t)v); }
#else
#define vf_pick vf_i
#endif
static inline void vf_bytes(const char *id, unsigned char *p, int n)
{ for (int i = 0; i < n; ++i) p[i] = vf_u8(id); }
/* NUL-terminated string of length n with no NUL inside */
static inline void vf_cstr(const char *id, char *p, int n)
{ for (int i = 0; i < n; ++i) { unsigned char c = vf_u8(id); VF_ASSUME(c != 0); p[i] = (char)c; } p[n] = 0; }

/* From here on a fatal error (the library's documented way of refusing) ends the path quietly /
 * is a violation. Default: violation. */
#define VF_FATAL_OK() (vf_fatal_allowed = 1)
#define VF_FATAL_BAD() (vf_fatal_allowed = 0)

/* Streams: a readable stream over given bytes, a writable memory stream. */
FILE *vf_stream_in(const unsigned char *p, int n);
FILE *vf_stream_out(void);                          /* collects what is written */
FILE *vf_stream_out_fail(int limit);                /* accepts limit bytes, then write errors */
FILE *vf_stream_out_lost(int limit);                /* buffers everything, loses what exceeds limit; known at flush/close only */
int vf_stream_out_len(FILE *f);
const unsigned char *vf_stream_out_data(FILE *f);   /* valid until the stream is closed */
void vf_stream_rewind(FILE *f);                     /* read back from an out stream */
/* Named files (scratch directory natively). */
const char *vf_file_put(const unsigned char *p, int n, const char *ext); /* file with contents -> name */
const char *vf_file_new(const char *ext);                     /* name of a file that may be created */
const char *vf_file_full(const char *ext);                    /* name of a file on a full device: every byte written is lost at flush */
int vf_file_len(const char *name);
int vf_file_byte(const char *name, int i);
/* equality of real-valued results: exact reals under symbolic execution (a visible difference is demanded, so that
 * counterexamples survive rounding on replay), a tolerance natively */
#ifdef VF_SE
#define VF_EQF(a, b, msg) do { double vf_d_ = (double)(a) - (double)(b); VF_ASSERT((vf_d_ <= 1e-3) & (vf_d_ >= -1e-3), msg); } while (0)
#else
#define VF_EQF(a, b, msg) do { double vf_d_ = (double)(a) - (double)(b); VF_ASSERT(vf_d_ <= 9e-4 && vf_d_ >= -9e-4, msg); } while (0)
#endif
#endif
