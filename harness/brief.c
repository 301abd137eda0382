/* BRIEF descriptors; the sampler is a stand-in that draws any first point and then walks around the corners of the patch */
#include <limits.h>
#include <stdlib.h>
#include <math.h>
#include "imgutil.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_uniform_sampler.h"
#ifndef NO
#define NO 10
#endif
static int inst, draws, cells, tight, walk, last; /* cells > 0: the first point of the first pair is any cell of the patch */
struct NXUniformSampler *nx_uniform_sampler_new_with_seed(uint32_t seed) { (void)seed; draws = walk = last = 0; return (struct NXUniformSampler *)&inst; }
struct NXUniformSampler *nx_uniform_sampler_new() { return nx_uniform_sampler_new_with_seed(0); }
void nx_uniform_sampler_free(struct NXUniformSampler *s) { (void)s; }
float nx_uniform_sampler_sample_s(struct NXUniformSampler *s)
{
        (void)s; ++draws; VF_ASSERT(draws <= 8 * 2 * 12, "test pairs are found for every radius"); if (draws > 8 * 2 * 12) exit(0);
        if (cells && draws <= 2) return (vf_pick("cell", 0, cells - 1) + 0.5f) / cells;
        static const float X[] = { 0.0f, 0.0f, 0.999f, 0.999f, 0.0f, 0.999f, 0.999f, 0.0f }; return X[walk++ % 8];
}
void brief_pairs(void)
{
        static const int R[] = { 1, 2, 3, 4, 5, 16 }; int r = R[vf_pick("r", 0, 5)], how = vf_pick("how", 0, 2); cells = r <= 5 ? 2 * r : 8; VF_FATAL_BAD();
        struct NXBriefExtractor *b;
        if (how == 0) b = nx_brief_extractor_new(1, r); else if (how == 1) { int c = cells; cells = 0; b = nx_brief_extractor_alloc(); nx_brief_extractor_resize(b, 2, 7); nx_brief_extractor_resize(b, 1, r); cells = c; nx_brief_extractor_randomize_with_seed(b, 5); }
        else { int c = cells; cells = 0; b = nx_brief_extractor_new_with_seed(1, 7, 5); cells = c; nx_brief_extractor_resize(b, 1, r); }
        VF_ASSERT(b->n_octets == 1 && b->radius == r && b->pyr_level_offset == 2, "size and radius as requested");
        int lo[2] = { INT_MAX, INT_MAX }, hi[2] = { INT_MIN, INT_MIN };
        for (int i = 0; i < 16; ++i) for (int j = 0; j < 2; ++j) { int o = b->offsets[2 * i + j]; VF_ASSERT(o >= -r && o <= r, "offsets stay within the patch"); if (o < lo[j]) lo[j] = o; if (o > hi[j]) hi[j] = o; }
        for (int i = 0; i < 8; ++i) { int *o = b->offsets + 4 * i, dx = o[0] - o[2], dy = o[1] - o[3]; VF_ASSERT(r < 4 || dx * dx + dy * dy >= 9, "paired points are at least three pixels apart"); }
        VF_ASSERT(b->offset_limits[0] == lo[0] && b->offset_limits[1] == hi[0] && b->offset_limits[2] == lo[1] && b->offset_limits[3] == hi[1], "limits are the extreme offsets"); VF_COVER("pairs"); nx_brief_extractor_free(b);
}
static struct NXBriefExtractor *hand(int spread)
{
        struct NXBriefExtractor *b = nx_brief_extractor_new(1, 5);
        /* one pair of interest among pairs that compare a pixel with itself */
        static const signed char O[][4] = { { 0, 0, 1, 0 }, { -1, 1, 2, -2 }, { 2, 1, -2, -1 }, { 0, -2, 0, 2 }, { 1, 1, -1, -1 } }; int k = vf_pick("o", 0, 4), at0 = spread ? vf_pick("op", 0, 2) * 7 / 2 : 0;
        for (int i = 0; i < 32; ++i) b->offsets[i] = 0; for (int i = 0; i < 4; ++i) b->offsets[4 * at0 + i] = O[k][i];
        nx_brief_extractor_update_limits(b); return b;
}
static struct NXImagePyr *pyramid(int nl)
{
        struct NXImagePyr *p = nx_image_pyr_alloc(); nx_image_pyr_alloc_levels(p, nl);
        for (int l = 0; l < nl; ++l) { nx_image_pyr_create_level(p, l, PW >> l, PH >> l, (float)(1 << l), 1.0f); for (int i = 0; i < (PW >> l) * (PH >> l); ++i) p->levels[l].img->data.uc[i] = vf_u8("px"); }
        return p;
}
/* a point is accepted exactly when all sampled pixels lie in the image; then each bit compares its two pixels */
void brief_compute(void)
{
        VF_FATAL_BAD(); cells = 0; struct NXBriefExtractor *b = hand(1); int nl = vf_pick("nl", 1, 3), level = vf_pick("level", 0, nl - 1), off = vf_pick("off", 0, 2), x = vf_pick("x", -1, PW), y = vf_pick("y", -1, PH);
        b->pyr_level_offset = off; struct NXImagePyr *p = pyramid(nl); int s = level + off, in = s < nl; float f = 1.0f / (float)(1 << off);
        int ok = nx_brief_extractor_check_point_pyr(b, p, x, y, level) != NX_FALSE;
        if (in) for (int i = 0; i < 16; ++i) { int u = (x + b->offsets[2 * i]) * f, v = (y + b->offsets[2 * i + 1]) * f; if (u < 0 || v < 0 || u >= p->levels[s].img->width || v >= p->levels[s].img->height) in = 0; }
        VF_ASSERT(ok == in, "a point is accepted exactly when all its samples lie in the image");
        if (in) {
                unsigned char d[2] = { 0xaa, 0x55 }, e[2] = { 0xaa, 0x55 }; nx_brief_extractor_compute_pyr(b, p, x, y, level, d); VF_ASSERT(d[1] == 0x55, "only the descriptor is written");
                VF_ASSERT(nx_brief_extractor_compute_pyr_at_theta(b, p, x, y, level, 0.0f, e) && e[1] == 0x55, "upright descriptor computed");
                for (int i = 0; i < 8; ++i) { int *o = b->offsets + 4 * i; const struct NXImage *im = p->levels[s].img; int g0 = (int)at(im, (int)((x + o[0]) * f), (int)((y + o[1]) * f)), g1 = (int)at(im, (int)((x + o[2]) * f), (int)((y + o[3]) * f));
                        VF_ASSERT((d[0] >> (7 - i) & 1) == (g0 > g1), "bit compares its pixel pair"); }
                VF_ASSERT(e[0] == d[0], "the upright descriptor is the same at angle zero"); VF_COVER("descriptor");
        } else VF_COVER("rejected");
        nx_brief_extractor_free(b); nx_image_pyr_free(p);
}
/* rotated sampling never leaves the image */
void brief_theta(void)
{
        static const float T[] = { 0.7f, 2.5f, -1.2f, 4.0f }; VF_FATAL_BAD(); cells = 0; struct NXBriefExtractor *b = hand(1); int x = vf_pick("x", 0, PW - 1), y = vf_pick("y", 0, PH - 1), off = vf_pick("off", 0, 1); float th = T[vf_pick("th", 0, 3)], f = off ? 0.5f : 1.0f;
        b->pyr_level_offset = off; struct NXImagePyr *p = pyramid(2); unsigned char d[2] = { 0xaa, 0x55 }; const struct NXImage *im = p->levels[off].img;
        int ok = nx_brief_extractor_compute_pyr_at_theta(b, p, x, y, 0, th, d) != NX_FALSE, far = 0, near = 1, g[16]; float c = cosf(th), s = sinf(th);
        for (int i = 0; i < 16; ++i) {
                float ox = b->offsets[2 * i], oy = b->offsets[2 * i + 1], u = (x + c * ox + s * oy) * f, v = (y - s * ox + c * oy) * f;
                if (u <= -1.01f || v <= -1.01f || u >= im->width + 0.01f || v >= im->height + 0.01f) far = 1;
                if (u < -0.99f || v < -0.99f || u > im->width - 0.01f || v > im->height - 0.01f) near = 0; g[i] = -1;
                if (fabsf(u - roundf(u)) > 0.01f && fabsf(v - roundf(v)) > 0.01f && u > -0.9f && v > -0.9f && u < im->width && v < im->height) g[i] = (int)at(im, (int)u, (int)v);
        }
        VF_ASSERT(d[1] == 0x55, "only the descriptor is written"); if (far) VF_ASSERT(!ok, "samples outside the image are refused"); if (near) VF_ASSERT(ok, "samples inside the image are used");
        if (ok) for (int i = 0; i < 8; ++i) if (g[2 * i] >= 0 && g[2 * i + 1] >= 0) { VF_ASSERT((d[0] >> (7 - i) & 1) == (g[2 * i] > g[2 * i + 1]), "bit compares the rotated pixel pair"); VF_COVER("rotated"); }
        nx_brief_extractor_free(b); nx_image_pyr_free(p);
}
void brief_rt(void)
{
        VF_FATAL_BAD(); cells = 0; int n = vf_pick("n", 1, 2), r = vf_pick("r", 1, 6), x = vf_pick("x", 0, 1), cut = vf_pick("cut", 0, 12 + 256), pre = vf_pick("pre", 0, 1); VF_ASSUME(cut % 3 == 0 || cut > 12 + 120);
        struct NXBriefExtractor *b = nx_brief_extractor_new(n, r); b->pyr_level_offset = vf_int("plo"); b->offsets[32 * n - 3] = vf_i("o", -5, 5); nx_brief_extractor_update_limits(b);
        FILE *f = vf_stream_out(); if (x) nx_brief_extractor_xwrite(b, f); else VF_ASSERT(nx_brief_extractor_write(b, f) == NX_OK, "writing succeeds");
        int L = vf_stream_out_len(f); VF_ASSERT(L == 12 + 128 * n, "size on the stream"); VF_ASSUME(cut <= L); FILE *g = vf_stream_in(vf_stream_out_data(f), cut);
        struct NXBriefExtractor *c = pre ? nx_brief_extractor_new(2, 9) : nx_brief_extractor_alloc();
        if (x) { if (cut < L) VF_FATAL_OK(); nx_brief_extractor_xread(c, g); VF_ASSERT(cut == L, "a cut stream is refused"); }
        else VF_ASSERT((nx_brief_extractor_read(c, g) == NX_OK) == (cut == L), "read exactly when complete");
        if (cut == L) {
                VF_ASSERT(c->n_octets == n && c->radius == r && c->pyr_level_offset == b->pyr_level_offset, "parameters read back");
                for (int i = 0; i < 32 * n; ++i) VF_ASSERT(c->offsets[i] == b->offsets[i], "test pairs read back"); for (int i = 0; i < 4; ++i) VF_ASSERT(c->offset_limits[i] == b->offset_limits[i], "limits follow"); VF_COVER("read back");
        }
        nx_brief_extractor_free(b); nx_brief_extractor_free(c);
}
void brief_wfail(void)
{
        VF_FATAL_BAD(); cells = 0; struct NXBriefExtractor *b = nx_brief_extractor_new(1, 4); int lim = vf_pick("lim", 0, 140), x = vf_pick("x", 0, 1); FILE *f = vf_stream_out_fail(lim);
        if (x) { if (lim < 140) VF_FATAL_OK(); nx_brief_extractor_xwrite(b, f); VF_ASSERT(lim == 140, "checked writing stops when bytes are refused"); } else VF_ASSERT((nx_brief_extractor_write(b, f) == NX_OK) == (lim == 140), "written exactly when all bytes were taken"); VF_COVER("refused"); nx_brief_extractor_free(b);
}
/* damaged headers */
void brief_any(void)
{
        VF_FATAL_BAD(); cells = 0; int h[2 + 33]; memset(h, 0, sizeof h); static const int RS[] = { 5, 1, 0, -1, INT_MIN }, NS[] = { 1, 0, -1, INT_MIN, INT_MAX, INT_MAX / 32 + 1, 1 << 27 };
        h[0] = RS[vf_pick("rs", 0, 4)]; h[1] = NS[vf_pick("ns", 0, 6)]; int good = h[0] > 0 && h[1] == 1;
        struct NXBriefExtractor *c = nx_brief_extractor_alloc(); int r = nx_brief_extractor_read(c, vf_stream_in((unsigned char *)h, sizeof h)) == NX_OK;
        VF_ASSERT(r == good, "an impossible size is refused"); VF_COVER("header"); nx_brief_extractor_free(c);
}
