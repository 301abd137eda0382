/* C21: affine warps and 45 degree rotations of images */
#include "imgutil.h"
#include "virg/nexus/nx_image_warp.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include <stdlib.h>
#ifndef SW
#define SW 3
#endif
#ifndef RNG
#define RNG 4
#endif
#ifndef NQ
#define NQ 4
#endif
#ifndef SM
#define SM 2
#endif
#ifndef RW
#define RW 4
#endif

/* the sample a warp has to take at one coordinate: cell index and fraction, found without rounding functions */
static int cell(float p, float *u) { int c = -4 * RNG - 4; for (int k = -4 * RNG - 4; k < 4 * RNG + 4; ++k) if (p >= (float)k) c = k; *u = p - (float)c; return c; }
static int mirror(int i, int n) { if (n == 1) return 0; while (i < 0 || i >= n) { if (i < 0) i = -i; if (i >= n) i = 2 * (n - 1) - i; } return i; }
static int clampi(int i, int n) { return i < 0 ? 0 : i >= n ? n - 1 : i; }
/* expected[0] = value; returns 0 if the sample is background */
static int sample_in(const unsigned char *src, int w, int h, int stride, int cx, float fx, int cy, float fy, int mode, float *v)
{
        int i0, i1, j0, j1;
        if (mode == NX_IMAGE_WARP_REPEAT) { i0 = clampi(cx, w); i1 = clampi(cx + 1, w); j0 = clampi(cy, h); j1 = clampi(cy + 1, h); }
        else if (mode == NX_IMAGE_WARP_MIRROR) { i0 = mirror(cx, w); i1 = mirror(cx + 1, w); j0 = mirror(cy, h); j1 = mirror(cy + 1, h); }
        else { if (cx < 0 || cx >= w - 1 || cy < 0 || cy >= h - 1) return 0; i0 = cx; i1 = cx + 1; j0 = cy; j1 = cy + 1; }
        const unsigned char *p = src;
        float a = (float)p[j0 * stride + i0], b = (float)p[j0 * stride + i1], c = (float)p[j1 * stride + i0], d = (float)p[j1 * stride + i1];
        float top = a + fx * (b - a), bot = c + fx * (d - c);
        *v = top + fy * (bot - top);
        return 1;
}
static int sample(const unsigned char *src, int w, int h, int stride, float xp, float yp, int mode, float *v)
{
        float fx, fy; int cx = cell(xp, &fx), cy = cell(yp, &fy);
        return sample_in(src, w, h, stride, cx, fx, cy, fy, mode, v);
}
static int anymode(void) { return vf_pick("mode", 0, 4); }

/* any position along one axis, a few along the other: the right cell, the right weights, nothing outside the source read */
void warp_pos(void)
{
        static const float ys[] = { -0.5f, 0.0f, 0.75f, 2.5f, -2.25f, 1.0f, 3.25f };
        int n = vf_pick("n", 1, SW), m = vf_pick("m", 1, SM), mode = anymode(), swap = vf_pick("swap", 0, 1), w = swap ? m : n, h = swap ? n : m;
        float p = vf_f("p"), q = ys[vf_pick("q", 0, NQ - 1)];
        int c = vf_pick("cell", -RNG, RNG - 1);
        VF_ASSUME((p >= (float)c) & (p < (float)(c + 1)));
        unsigned char *src = malloc(w * h);
        for (int i = 0; i < w * h; ++i) src[i] = (unsigned char)(7 + 53 * i % 211);
        float t[9] = { 1, 0, 0, 0, 1, 0, swap ? q : p, swap ? p : q, 1 };
        unsigned char out = 77;
        nx_image_warp_affine_bilinear(1, 1, &out, 1, w, h, src, w, t, (enum NXImageWarpBackgroundMode)mode);
        float v, fp = p - (float)c, fq; int d = cell(q, &fq);
        if (sample_in(src, w, h, w, swap ? d : c, swap ? fq : fp, swap ? c : d, swap ? fp : fq, mode, &v)) LEVEL(out, v, "a warped pixel is the bilinear interpolation of the source at the mapped position");
        else if (mode != NX_IMAGE_WARP_NOISE) VF_ASSERT(out == (mode == NX_IMAGE_WARP_WHITE ? 255 : 0), "a pixel mapped outside the source is background");
        VF_COVER("warped");
        free(src); nx_uniform_sampler_instance_free();
}
/* any pixel values under fixed transforms, destinations larger than one pixel and padded rows */
void warp_pix(void)
{
        static const float ts[][6] = { { 1, 0, 0, 1, 0, 0 }, { 0.5f, 0, 0, 0.5f, -0.25f, 0.25f }, { 0, 1, -1, 0, 2, -1 }, { 2, 0.25f, -0.5f, 1.5f, -1.5f, -0.75f }, { -1, 0, 0, -1, 2, 2 } };
        int w = vf_pick("w", 1, SW), h = vf_pick("h", 1, 2), mode = anymode(), k = vf_pick("t", 0, 4), pad = vf_pick("pad", 0, 1);
        unsigned char *src = malloc((w + pad) * h), dst[3 * 2];
        for (int i = 0; i < (w + pad) * h; ++i) src[i] = vf_u8("px");
        for (int i = 0; i < 6; ++i) dst[i] = 99;
        const float *m = ts[k]; float t[9] = { m[0], m[1], 0, m[2], m[3], 0, m[4], m[5], 1 };
        nx_image_warp_affine_bilinear(2, 2, dst, 3, w, h, src, w + pad, t, (enum NXImageWarpBackgroundMode)mode);
        for (int y = 0; y < 2; ++y) {
                for (int x = 0; x < 2; ++x) {
                        float v, xp = x * m[0] + y * m[2] + m[4], yp = x * m[1] + y * m[3] + m[5];
                        if (sample(src, w, h, w + pad, xp, yp, mode, &v)) LEVEL(dst[y * 3 + x], v, "a warped pixel is the bilinear interpolation of the source at the mapped position");
                        else if (mode != NX_IMAGE_WARP_NOISE) VF_ASSERT(dst[y * 3 + x] == (mode == NX_IMAGE_WARP_WHITE ? 255 : 0), "a pixel mapped outside the source is background");
                }
                VF_ASSERT(dst[y * 3 + 2] == 99, "padding of the destination is not written");
        }
        VF_COVER("warped");
        free(src); nx_uniform_sampler_instance_free();
}
/* rotation about the centres by 45 degrees, both ways, bytes and floats */
void warp_rot45(void)
{
        int f32 = vf_pick("f32", 0, 1), cw = vf_pick("cw", 0, 1), w = vf_pick("w", 1, RW), h = vf_pick("h", 1, RW), dw = vf_pick("dw", 1, 3), dh = vf_pick("dh", 1, 2), pad = vf_pick("pad", 0, 1);
        struct NXImage *src = any(w, h, pad, 0, f32), *dst = any(dw, dh, pad, 0, f32);
        nx_image_rotate45(dst, src, cw);
        const float s = 0.70710678f;
        for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) {
                float dx = x - dw * 0.5f, dy = y - dh * 0.5f;
                float xp = w * 0.5f + s * (cw ? dx + dy : dx - dy), yp = h * 0.5f + s * (cw ? dy - dx : dy + dx);
                float fx, fy; int cx = cell(xp, &fx), cy = cell(yp, &fy);
                float e = 0.001f;       /* positions on the edge of the source may fall either way */
                if ((fx < e || fx > 1 - e) && (cx <= 0 || cx >= w - 2)) continue;
                if ((fy < e || fy > 1 - e) && (cy <= 0 || cy >= h - 2)) continue;
                if (cx < 0 || cx >= w - 1 || cy < 0 || cy >= h - 1) { VF_EQF(at(dst, x, y), 0.0f, "a pixel rotated in from outside is black"); continue; }
                float a = at(src, cx, cy), b = at(src, cx + 1, cy), c = at(src, cx, cy + 1), d = at(src, cx + 1, cy + 1);
                float top = a + fx * (b - a), bot = c + fx * (d - c), v = top + fy * (bot - top);
                PIXEL(f32, at(dst, x, y), v, 1, "a rotated pixel is the bilinear interpolation of the source");
        }
        VF_COVER("rotated");
        nx_image_free(src); nx_image_free(dst);
}
