/* resampling: every output pixel is the documented combination of input pixels inside the image */
#include "imgutil.h"
#ifndef W
#define W 3
#endif
#ifndef HH
#define HH 2
#endif
#ifndef NSC
#define NSC 7
#endif
#ifndef AW
#define AW 6
#endif
static int refl(int i, int n) { if (n == 1) return 0; for (;;) { if (i < 0) i = -i; else if (i >= n) i = 2 * (n - 1) - i; else return i; } }
static void shape(const struct NXImage *d, const struct NXImage *s, int w, int h)
{ VF_ASSERT(d->width == w && d->height == h && d->type == s->type && d->dtype == s->dtype && d->row_stride >= w, "shape of the result"); }
static struct NXImage *used(int f) /* a destination that already held something */
{ struct NXImage *d = nx_image_alloc(); if (vf_pick("used", 0, 1)) nx_image_resize(d, 2, 3, 5, NX_IMAGE_RGBA, f ? NX_IMAGE_UCHAR : NX_IMAGE_FLOAT32); return d; }
void res_scale(void)
{
        static const float SC[] = { 0.5f, 1.0f, 2.0f, 1.5f, 0.75f, 3.0f, 0.25f };
        static const int NUM[] = { 1, 1, 2, 3, 3, 3, 1 }, DEN[] = { 2, 1, 1, 2, 4, 1, 4 };
        int w = vf_pick("w", 1, W), h = vf_pick("h", 1, HH), pad = vf_pick("pad", 0, 1), f = vf_pick("f", 0, 1), k = vf_pick("s", 0, NSC - 1);
        VF_FATAL_BAD();
        struct NXImage *s = any(w, h, pad, 0, f), *d = used(f);
        nx_image_scale(d, s, SC[k]);
        int dw = w * NUM[k] / DEN[k], dh = h * NUM[k] / DEN[k];
        shape(d, s, dw, dh);
        for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) {
                int xn = x * DEN[k], yn = y * DEN[k], xi = xn / NUM[k], yi = yn / NUM[k]; float fx = (float)(xn % NUM[k]) / NUM[k], fy = (float)(yn % NUM[k]) / NUM[k];
                int x1 = xi + 1 < w ? xi + 1 : w - 1, y1 = yi + 1 < h ? yi + 1 : h - 1;
                float v = (at(s, xi, yi) * (1 - fx) + at(s, x1, yi) * fx) * (1 - fy) + (at(s, xi, y1) * (1 - fx) + at(s, x1, y1) * fx) * fy;
                PIXEL(f, at(d, x, y), v, 1, "bilinear sample");
        }
        VF_COVER("scaled"); nx_image_free(s); nx_image_free(d);
}
void res_down(void)
{
        int w = vf_pick("w", 1, W + 2), h = vf_pick("h", 1, HH + 2), pad = vf_pick("pad", 0, 1), f = vf_pick("f", 0, 1);
        VF_FATAL_BAD();
        struct NXImage *s = any(w, h, pad, 0, f), *d = used(f);
        nx_image_downsample(d, s); shape(d, s, w / 2, h / 2);
        for (int y = 0; y < h / 2; ++y) for (int x = 0; x < w / 2; ++x) VF_ASSERT(at(d, x, y) == at(s, 2 * x, 2 * y), "every other pixel");
        VF_COVER("downsampled"); nx_image_free(s); nx_image_free(d);
}
void res_up(void)
{
        int w = vf_pick("w", 1, W), h = vf_pick("h", 1, HH), pad = vf_pick("pad", 0, 1), f = vf_pick("f", 0, 1);
        VF_FATAL_BAD();
        struct NXImage *s = any(w, h, pad, 0, f), *d = used(f);
        nx_image_upsample(d, s); shape(d, s, 2 * w, 2 * h);
        for (int y = 0; y < 2 * h; ++y) for (int x = 0; x < 2 * w; ++x) {
                int xi = x / 2, yi = y / 2, x1 = (x & 1) && xi + 1 < w ? xi + 1 : xi, y1 = (y & 1) && yi + 1 < h ? yi + 1 : yi;
                if (f) { float v = (at(s, xi, yi) + at(s, x1, yi) + at(s, xi, y1) + at(s, x1, y1)) * 0.25f; VF_EQF(at(d, x, y), v, "pixel or mean of its neighbours"); }
                else {
                        const unsigned char *r0 = s->data.uc + yi * s->row_stride, *r1 = s->data.uc + y1 * s->row_stride; int o = 4 * d->data.uc[y * d->row_stride + x];
                        int v = r0[xi] + r0[x1] + r1[xi] + r1[x1]; VF_ASSERT((o <= v) & (o >= v - 4), "pixel or mean of its neighbours");
                }
                if (!(x & 1) && !(y & 1)) VF_ASSERT(at(d, x, y) == at(s, xi, yi), "source pixels kept");
        }
        VF_COVER("upsampled"); nx_image_free(s); nx_image_free(d);
}
void res_aa(void)
{
        int dir = vf_pick("dir", 0, 1), n = vf_pick("n", 1, AW), m = vf_pick("m", 1, 2), w = dir ? m : n, h = dir ? n : m, pad = vf_pick("pad", 0, 1), f = vf_pick("f", 0, 1);
        VF_FATAL_BAD();
        struct NXImage *s = any(w, h, pad, 0, f), *d = used(f);
        if (dir) nx_image_downsample_aa_y(d, s); else nx_image_downsample_aa_x(d, s);
        shape(d, s, dir ? w : w / 2, dir ? h / 2 : h);
        static const int KW[] = { 1, 6, 11, 6, 1 };
        for (int y = 0; y < d->height; ++y) for (int x = 0; x < d->width; ++x) {
                float v = 0;
                for (int k = -2; k <= 2; ++k) v += (float)KW[k + 2] * (dir ? at(s, x, refl(2 * y + k, h)) : at(s, refl(2 * x + k, w), y));
                PIXEL(f, at(d, x, y), v / 25.0f, 1, "smoothed and halved");
        }
        VF_COVER("smoothed"); nx_image_free(s); nx_image_free(d);
}
