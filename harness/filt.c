/* filtering: borders, convolution, smoothing, box filters, derivatives against their definitions */
#include "imgutil.h"
#include <math.h>
#include "virg/nexus/nx_filter.h"
#include "virg/nexus/nx_alloc.h"
#ifndef W
#define W 3
#endif
#ifndef HH
#define HH 2
#endif
#ifndef N
#define N 4
#endif
#define NOISE 777.0f
static float ext(const float *v, int n, int i, enum NXBorderMode m)
{
        if (i >= 0 && i < n) return v[i];
        if (m == NX_BORDER_ZERO) return 0.0f;
        if (m == NX_BORDER_REPEAT) return v[i < 0 ? 0 : n - 1];
        return v[i < 0 ? -i : 2 * (n - 1) - i];
}
static float real(const char *id) { float f = vf_f(id); VF_ASSUME((f >= -100.0f) & (f <= 100.0f)); return f; }
/* a row or column copied into a buffer, with its border */
void flt_border(void)
{
        static const enum NXBorderMode M[] = { NX_BORDER_ZERO, NX_BORDER_REPEAT, NX_BORDER_MIRROR };
        int n = vf_pick("n", 1, N), nb = vf_pick("nb", 0, N), m = vf_pick("m", 0, 2), how = vf_pick("how", 0, 3), st = (how & 1) ? vf_pick("st", 1, 2) : 1;
        VF_ASSUME(M[m] != NX_BORDER_MIRROR || nb < n);
        VF_FATAL_BAD();
        float d[2 * N + 1], v[N]; unsigned char u[2 * N + 1]; float *b = malloc((n + 2 * nb) * sizeof(float));
        for (int i = 0; i < n; ++i) { u[i * st] = vf_u8("u"); d[i * st] = real("d"); v[i] = how >= 2 ? (float)u[i * st] : d[i * st]; if (st == 2) { d[2 * i + 1] = NOISE; u[2 * i + 1] = 99; } }
        if (how == 0) nx_filter_copy_to_buffer1(n, b, d, nb, M[m]); else if (how == 1) nx_filter_copy_to_buffer(n, b, d, st, nb, M[m]);
        else if (how == 2) nx_filter_copy_to_buffer1_uc(n, b, u, nb, M[m]); else nx_filter_copy_to_buffer_uc(n, b, u, st, nb, M[m]);
        for (int i = 0; i < n + 2 * nb; ++i) VF_ASSERT(b[i] == ext(v, n, i - nb, M[m]), "data with its border");
        VF_COVER("copied"); free(b);
}
/* convolution of a bordered buffer */
void flt_convolve(void)
{
        static const float KN[3][3] = { { 0.5f, 0.25f, 0.0f }, { 0.4f, 0.2f, 0.1f }, { 1.0f, -0.75f, 3.0f } };
        int n = vf_pick("n", 1, N), box = vf_pick("box", 0, 1), r = vf_pick("r", 1, box ? 3 : 2), k = vf_pick("k", 0, 2);
        VF_FATAL_BAD();
        int l = n + 2 * r; float *b = malloc(l * sizeof(float)), v[N + 6];
        for (int i = 0; i < l; ++i) b[i] = v[i] = real("d");
        if (box) nx_convolve_box(n, b, r); else nx_convolve_sym(n, b, r + 1, KN[k]);
        for (int i = 0; i < n; ++i) {
                float s = 0;
                for (int j = -r; j <= r; ++j) s += v[i + r + j] * (box ? 1.0f : KN[k][j < 0 ? -j : j]);
                VF_EQF(b[i], box ? s / (float)(2 * r + 1) : s, "weighted sum of the neighbourhood");
        }
        VF_COVER("convolved"); free(b);
}
/* kernel lengths */
void flt_size(void)
{
        float sg = vf_f("sigma"), t = vf_f("t"); VF_ASSUME((sg > 0.0f) & (sg <= 8.0f) & (t > 0.0f) & (t <= 8.0f));
        int n = nx_kernel_size_gaussian(sg, t); double e = 2.0 * t * sg;
        VF_ASSERT(n % 2 == 1 && n >= 3, "odd, at least three");
        VF_ASSERT((double)n >= e - 0.01, "covers the requested width"); VF_ASSERT((n == 3) | ((double)n <= e + 2.01), "no longer than needed");
        VF_COVER("size");
}
/* Gaussian smoothing is separable, normalised, repeats the border, and may work in place or with the caller's buffer */
static const float SG[] = { 0.5f, 0.8f, 1.1f };
static void gauss(int nk, double *k, double sigma)
{
        double s = 0; for (int i = 0; i < nk; ++i) { k[i] = exp(-0.5 * i * i / (sigma * sigma)); s += i ? 2 * k[i] : k[i]; }
        for (int i = 0; i < nk; ++i) k[i] /= s;
}
void flt_smooth(void)
{
        int w = vf_pick("w", 1, W), h = vf_pick("h", 1, HH), pad = vf_pick("pad", 0, 1), f = vf_pick("f", 0, 1), inpl = vf_pick("inpl", 0, 1), own = vf_pick("own", 0, 1), a = vf_pick("sx", 0, 2), b = (a + 1) % 3;
        VF_FATAL_BAD();
        struct NXImage *s = any(w, h, pad, 0, f), *c = nx_image_copy0(s), *d = inpl ? c : nx_image_new_rgba_uc(3, 1);
        int nx, ny; float *buf = NULL;
        if (own) buf = nx_image_filter_buffer_alloc(w, h, SG[a], SG[b], 2.0f, &nx, &ny); else { nx = nx_kernel_size_gaussian(SG[a], 2.0f); ny = nx_kernel_size_gaussian(SG[b], 2.0f); }
        nx_image_smooth(d, inpl ? c : s, SG[a], SG[b], 2.0f, buf);
        VF_ASSERT(d->width == w && d->height == h && d->type == NX_IMAGE_GRAYSCALE && d->dtype == s->dtype && d->row_stride >= w, "shape");
        double kx[8], ky[8]; gauss(nx / 2 + 1, kx, SG[a]); gauss(ny / 2 + 1, ky, SG[b]);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                double v = 0;
                for (int j = -(ny / 2); j <= ny / 2; ++j) for (int i = -(nx / 2); i <= nx / 2; ++i) {
                        int xx = x + i < 0 ? 0 : x + i >= w ? w - 1 : x + i, yy = y + j < 0 ? 0 : y + j >= h ? h - 1 : y + j;
                        v += kx[i < 0 ? -i : i] * ky[j < 0 ? -j : j] * at(s, xx, yy);
                }
                PIXEL(f, at(d, x, y), (float)v, 2, "Gaussian mean");
        }
        VF_COVER("smoothed"); if (buf) nx_free(buf); nx_image_free(s); nx_image_free(c); if (!inpl) nx_image_free(d);
}
void flt_box(void)
{
        int w = vf_pick("w", 1, W), h = vf_pick("h", 1, HH), pad = vf_pick("pad", 0, 1), f = vf_pick("f", 0, 1), inpl = vf_pick("inpl", 0, 1), own = vf_pick("own", 0, 1), what = vf_pick("what", 0, 2);
        int rx = vf_pick("rx", 1, 2), ry = 3 - rx;
        VF_FATAL_BAD();
        struct NXImage *s = any(w, h, pad, 0, f), *c = nx_image_copy0(s), *d = inpl ? c : nx_image_new_rgba_uc(3, 1); const struct NXImage *in = inpl ? c : s;
        float *buf = own ? nx_filter_buffer_alloc(w > h ? w : h, 2) : NULL;
        if (what == 0) { nx_image_filter_box_x(d, in, rx, buf); ry = 0; } else if (what == 1) { nx_image_filter_box_y(d, in, ry, buf); rx = 0; } else nx_image_filter_box(d, in, rx, ry, buf);
        VF_ASSERT(d->width == w && d->height == h && d->type == NX_IMAGE_GRAYSCALE && d->dtype == s->dtype && d->row_stride >= w, "shape");
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                float v = 0;
                for (int j = -ry; j <= ry; ++j) for (int i = -rx; i <= rx; ++i) {
                        int xx = x + i < 0 ? 0 : x + i >= w ? w - 1 : x + i, yy = y + j < 0 ? 0 : y + j >= h ? h - 1 : y + j;
                        v += at(s, xx, yy);
                }
                PIXEL(f, at(d, x, y), v / (float)((2 * rx + 1) * (2 * ry + 1)), what == 2 ? 2 : 1, "mean over the box");
        }
        VF_COVER("averaged"); if (buf) nx_free(buf); nx_image_free(s); nx_image_free(c); if (!inpl) nx_image_free(d);
}
/* derivatives: central differences inside, doubled one-sided at the ends, zero when there is no neighbour */
void flt_deriv(void)
{
        int w = vf_pick("w", 1, W + 1), h = vf_pick("h", 1, HH + 2), pad = vf_pick("pad", 0, 1), f = vf_pick("f", 0, 1), dir = vf_pick("dir", 0, 1);
        VF_FATAL_BAD();
        struct NXImage *s = any(w, h, pad, 0, f), *d = nx_image_alloc();
        if (vf_pick("used", 0, 1)) { nx_image_resize(d, 5, 5, 6, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32); for (int i = 0; i < 30; ++i) d->data.f32[i] = NOISE; }
        if (dir) nx_image_deriv_y(d, s); else nx_image_deriv_x(d, s);
        VF_ASSERT(d->width == w && d->height == h && d->type == NX_IMAGE_GRAYSCALE && d->dtype == NX_IMAGE_FLOAT32 && d->row_stride >= w, "shape");
        float S = f ? 1.0f : 255.0f; int n = dir ? h : w;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                int i = dir ? y : x, lo = i > 0 ? i - 1 : i, hi = i < n - 1 ? i + 1 : i;
                float df = dir ? at(s, x, hi) - at(s, x, lo) : at(s, hi, y) - at(s, lo, y); if (hi - lo == 1) df *= 2.0f;
                VF_EQF(at(d, x, y) * S, df, "difference of the neighbours");
        }
        VF_COVER("derived"); nx_image_free(s); nx_image_free(d);
}
