/* C26: random samplers */
#include "vf.h"
#ifdef STUB_SFMT
/* the generator answers anything */
#include "SFMT/SFMT.h"
void sfmt_init_gen_rand(sfmt_t *s, uint32_t seed) { (void)seed; s->idx = SFMT_N32; }
void sfmt_gen_rand_all(sfmt_t *s) { uint32_t *w = (uint32_t *)s->state; w[0] = vf_u32("word"); w[1] = vf_u32("word"); s->idx = 0; }
void sfmt_fill_array32(sfmt_t *s, uint32_t *p, int n) { (void)s; (void)p; (void)n; }
void sfmt_fill_array64(sfmt_t *s, uint64_t *p, int n) { (void)s; (void)p; (void)n; }
#endif
#ifdef STUB_UNIFORM
#include "rnd.h"
#endif
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_gaussian_sampler.h"
#include <math.h>
#ifndef N
#define N 4
#endif
#ifndef BLOCKS
#define BLOCKS 1
#endif
#ifdef STUB_SFMT
void smp_range(void)
{
        struct NXUniformSampler *u = nx_uniform_sampler_new_with_seed(vf_u32("seed"));
        if (vf_pick("double", 0, 1)) { double d = nx_uniform_sampler_sample_d(u); VF_ASSERT((d >= 0.0) & (d < 1.0), "a double sample is in [0, 1)"); }
        else { float s = nx_uniform_sampler_sample_s(u); VF_ASSERT((s >= 0.0f) & (s < 1.0f), "a float sample is in [0, 1)"); }
        VF_COVER("range"); nx_uniform_sampler_free(u);
}
/* the way samples choose an element */
void smp_index(void)
{
        struct NXUniformSampler *u = nx_uniform_sampler_new_with_seed(1); static const int ns[] = { 1, 3, 7, 10, 1000, 65537 };
        int n = ns[vf_pick("n", 0, 5)]; int k = (int)(nx_uniform_sampler_sample_s(u) * n); VF_ASSERT(k >= 0 && k < n, "a sample times n is an index below n"); VF_COVER("index"); nx_uniform_sampler_free(u);
}
#elif defined(STUB_UNIFORM)
/* the polar method: any draws, finite results, exactly n of them */
void smp_gauss(void)
{
        int n = vf_pick("n", 0, N), dbl = vf_pick("double", 0, 1); static const float mean = 2, sig = 3; float s[N + 1]; double d[N + 1]; vf_draw_n = 5; /* 0.1 0.3 0.5 0.7 0.9: includes the centre and points outside the circle */
        struct NXGaussianSampler *g = nx_gaussian_sampler_new(0); for (int i = 0; i <= N; ++i) s[i] = d[i] = 77;
        if (dbl) nx_gaussian_sampler_sample_d(g, n, d, mean, sig); else nx_gaussian_sampler_sample_s(g, n, s, mean, sig);
        for (int i = 0; i < n; ++i) { double v = dbl ? d[i] : s[i]; VF_ASSERT(v == v && v < 1e6 && v > -1e6, "every sample is a finite number"); VF_ASSERT(v != 77, "all samples are set"); }
        VF_ASSERT(s[n] == 77 && d[n] == 77, "no more than n samples are set");
        /* pairs (z0, z1) of standard values come from a point of the disc: z0^2 + z1^2 = -2 log(s) */
        if (n == 2) { double a = ((dbl ? d[0] : s[0]) - mean) / sig, b = ((dbl ? d[1] : s[1]) - mean) / sig, q = exp(-(a * a + b * b) / 2); VF_ASSERT(q > 0 && q < 1 + 1e-6, "a pair is a point of the plane");
                double k = sqrt(q / (a * a + b * b)), x = (a * k + 1) * 2.5 - 0.5, y = (b * k + 1) * 2.5 - 0.5; VF_ASSERT(fabs(x - rint(x)) < 1e-3 && fabs(y - rint(y)) < 1e-3, "the pair is the image of the drawn point of the disc"); VF_COVER("pair"); }
        VF_COVER("gauss"); nx_gaussian_sampler_free(g);
}
#else
#include "SFMT/SFMT.h"
#ifndef WORDS
#define WORDS 16
#endif
typedef struct { uint32_t u[4]; } w4;
static w4 sl(w4 a) { w4 r; for (int i = 3; i >= 0; --i) r.u[i] = a.u[i] << 8 | (i ? a.u[i - 1] >> 24 : 0); return r; }
static w4 sr(w4 a) { w4 r; for (int i = 0; i < 4; ++i) r.u[i] = a.u[i] >> 8 | (i < 3 ? a.u[i + 1] << 24 : 0); return r; }
static uint32_t ref[624];
static void ref_init(uint32_t seed)
{
        ref[0] = seed; for (int i = 1; i < 624; ++i) ref[i] = 1812433253u * (ref[i - 1] ^ ref[i - 1] >> 30) + i;
        uint32_t p = (ref[0] & 1u) ^ (ref[3] & 0x13c9e684u); p ^= p >> 16; p ^= p >> 8; p ^= p >> 4; p ^= p >> 2; p ^= p >> 1; ref[0] ^= ~p & 1u;
}
static void ref_next(void)
{
        static const uint32_t M[4] = { 0xdfffffefu, 0xddfecb7fu, 0xbffaffffu, 0xbffffff6u }; w4 *w = (w4 *)ref, c = w[154], d = w[155];
        for (int i = 0; i < 156; ++i) { w4 x = sl(w[i]), y = sr(c), b = w[(i + 122) % 156]; for (int k = 0; k < 4; ++k) w[i].u[k] ^= x.u[k] ^ (b.u[k] >> 11 & M[k]) ^ y.u[k] ^ d.u[k] << 18; c = d; d = w[i]; }
}
static const uint32_t seeds[] = { 0, 1234, 0xffffffffu, 2 };
/* the documented generator (SFMT-19937): a few seeds, all words of the first blocks */
void smp_sfmt(void)
{
        uint32_t seed = seeds[vf_pick("seed", 0, 3)]; struct NXUniformSampler *u = nx_uniform_sampler_new_with_seed(seed); ref_init(seed); int wide = vf_pick("wide", 0, 1);
        for (int b = 0; b < BLOCKS; ++b) { ref_next(); for (int i = 0; i < 624; i += 1 + wide) { if (wide) { uint64_t v = nx_uniform_sampler_sample64(u); VF_ASSERT(v == (ref[i] | (uint64_t)ref[i + 1] << 32), "64-bit samples are two consecutive words"); } else { uint32_t v = nx_uniform_sampler_sample32(u); VF_ASSERT(v == ref[i], "32-bit samples are the SFMT sequence of the seed"); } } }
        VF_COVER("sequence"); nx_uniform_sampler_free(u);
}
/* one word of the state is anything: every bit of it goes where the recursion says */
void smp_state(void)
{
        static const int at[] = { 0, 1, 2, 3, 488, 489, 490, 491, 616, 619, 620, 621, 622, 623, 135, 136 }; struct NXUniformSampler *u = nx_uniform_sampler_new_with_seed(5); ref_init(5); int k = at[vf_pick("word", 0, 15)];
        ref[k] = vf_u32("state"); ((sfmt_t *)u)->state[k / 4].u[k % 4] = ref[k]; ref_next();
        for (int i = 0; i < WORDS; ++i) VF_ASSERT(nx_uniform_sampler_sample32(u) == ref[i], "samples follow the recursion of the state"); VF_COVER("state"); nx_uniform_sampler_free(u);
}
/* seeding: every bit of the seed goes where the initialisation says */
void smp_seed(void)
{
        uint32_t seed = vf_u32("seed"); struct NXUniformSampler *u = nx_uniform_sampler_new_with_seed(seed); ref_init(seed);
        for (int i = 0; i < 8; ++i) VF_ASSERT(((sfmt_t *)u)->state[i / 4].u[i % 4] == ref[i], "the state starts as the seed says"); VF_COVER("seed"); nx_uniform_sampler_free(u);
}
/* samplers are independent and repeatable */
void smp_repeat(void)
{
        uint32_t seed = vf_u32("seed"); struct NXUniformSampler *a = nx_uniform_sampler_new_with_seed(seed), *b = nx_uniform_sampler_new(), *c = nx_uniform_sampler_new_with_seed(7); uint32_t x[N]; nx_uniform_sampler_init_seed(b, seed);
        for (int i = 0; i < N; ++i) { x[i] = nx_uniform_sampler_sample32(a); if (i & 1) nx_uniform_sampler_sample32(c); }
        for (int i = 0; i < N; ++i) VF_ASSERT(nx_uniform_sampler_sample32(b) == x[i], "the same seed gives the same sequence");
        nx_uniform_sampler_init_seed(a, seed); VF_ASSERT(nx_uniform_sampler_sample32(a) == x[0], "seeding again starts over");
        struct NXUniformSampler *g = nx_uniform_sampler_instance(); VF_ASSERT(g && g == nx_uniform_sampler_instance() && g != a, "there is one shared sampler"); nx_uniform_sampler_instance_free(); nx_uniform_sampler_instance_free();
        g = nx_uniform_sampler_instance(); VF_ASSERT(g != 0, "and it comes back after being freed"); nx_uniform_sampler_instance_free(); nx_uniform_sampler_free(0);
        nx_uniform_sampler_free(a); nx_uniform_sampler_free(b); nx_uniform_sampler_free(c); VF_COVER("repeat");
}
/* filling an array gives the same words as drawing them */
void smp_fill(void)
{
        static uint32_t p[1248 + 2] __attribute__((aligned(64))); uint32_t seed = seeds[vf_pick("seed", 0, 3)]; int wide = vf_pick("wide", 0, 1), n = 624 + 4 * vf_pick("more", 0, 2); struct NXUniformSampler *u = nx_uniform_sampler_new_with_seed(seed); p[n] = 0x5a5a5a5a; ref_init(seed);
        if (wide) nx_uniform_sampler_fill64(u, n / 2, (uint64_t *)p); else nx_uniform_sampler_fill32(u, n, p);
        for (int i = 0; i < n; ++i) { if (i % 624 == 0) ref_next(); VF_ASSERT(p[i] == ref[i % 624], "a filled array is the SFMT sequence of the seed"); }
        VF_ASSERT(p[n] == 0x5a5a5a5a, "nothing past the end is written"); VF_COVER("filled"); nx_uniform_sampler_free(u);
}
#endif
