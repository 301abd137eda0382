/* the random sampler as an adversary: every draw is any value the sampler may return (C26 shows which those are) */
#include "virg/nexus/nx_uniform_sampler.h"
#ifndef MAXDRAW
#define MAXDRAW 64
#endif
static int vf_draws, vf_inst, vf_draw_n, vf_draw_fix; /* the first vf_draw_fix draws are fixed; vf_draw_n > 0: draws that pick one of so many, each equally good for what follows */
struct NXUniformSampler *nx_uniform_sampler_instance() { return (struct NXUniformSampler *)&vf_inst; }
void nx_uniform_sampler_instance_free() { }
struct NXUniformSampler *nx_uniform_sampler_alloc() { return (struct NXUniformSampler *)&vf_inst; }
struct NXUniformSampler *nx_uniform_sampler_new() { return (struct NXUniformSampler *)&vf_inst; }
struct NXUniformSampler *nx_uniform_sampler_new_with_seed(uint32_t seed) { (void)seed; return (struct NXUniformSampler *)&vf_inst; }
void nx_uniform_sampler_free(struct NXUniformSampler *s) { (void)s; }
void nx_uniform_sampler_init_time(struct NXUniformSampler *s) { (void)s; }
void nx_uniform_sampler_init_seed(struct NXUniformSampler *s, uint32_t seed) { (void)s; (void)seed; }
static void vf_drawn(void) { ++vf_draws; VF_ASSUME(vf_draws <= MAXDRAW); }
uint32_t nx_uniform_sampler_sample32(struct NXUniformSampler *s) { (void)s; vf_drawn(); return vf_u32("draw"); }
uint64_t nx_uniform_sampler_sample64(struct NXUniformSampler *s) { (void)s; vf_drawn(); return vf_u64("draw"); }
void nx_uniform_sampler_fill32(struct NXUniformSampler *s, int n, uint32_t *p) { for (int i = 0; i < n; ++i) p[i] = nx_uniform_sampler_sample32(s); }
void nx_uniform_sampler_fill64(struct NXUniformSampler *s, int n, uint64_t *p) { for (int i = 0; i < n; ++i) p[i] = nx_uniform_sampler_sample64(s); }
float nx_uniform_sampler_sample_s(struct NXUniformSampler *s) { (void)s; vf_drawn(); if (vf_draw_n && vf_draws <= vf_draw_fix) return (vf_draws - 1 + 0.5f) / vf_draw_n; if (vf_draw_n) return (vf_pick("draw", 0, vf_draw_n - 1) + 0.5f) / vf_draw_n; float v = vf_f("draw"); VF_ASSUME((v >= 0.0f) & (v < 1.0f)); return v; }
double nx_uniform_sampler_sample_d(struct NXUniformSampler *s) { (void)s; vf_drawn(); double v = vf_d("draw"); VF_ASSUME((v >= 0.0) & (v < 1.0)); return v; }
