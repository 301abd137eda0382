/* keypoints: storage, Harris and FAST detection */
#include "imgutil.h"
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/nx_harris_detector.h"
#ifndef W
#define W 3
#endif
#ifndef HH
#define HH 3
#endif
#ifndef NK
#define NK 2
#endif
#define KSZ 44 /* ten fields: nine of 4 bytes, one of 8 */
static int same_key(const struct NXKeypoint *a, const struct NXKeypoint *b)
{
        return (memcmp(&a->x, &b->x, 4) == 0) & (memcmp(&a->y, &b->y, 4) == 0) & (memcmp(&a->xs, &b->xs, 4) == 0) & (memcmp(&a->ys, &b->ys, 4) == 0) & (memcmp(&a->level, &b->level, 4) == 0)
                & (memcmp(&a->scale, &b->scale, 4) == 0) & (memcmp(&a->sigma, &b->sigma, 4) == 0) & (memcmp(&a->score, &b->score, 4) == 0) & (memcmp(&a->ori, &b->ori, 4) == 0) & (memcmp(&a->id, &b->id, 8) == 0);
}
/* all keypoints through a stream, cut at any byte */
void key_rt(void)
{
        int n = vf_pick("n", 0, NK), cut = vf_pick("cut", 0, NK * KSZ), x = vf_pick("x", 0, 1);
        struct NXKeypoint k[NK], r[NK]; memset(k, 0, sizeof k); vf_bytes("k", (unsigned char *)k, n * sizeof *k); memset(r, 0, sizeof r);
        FILE *f = vf_stream_out();
        VF_FATAL_BAD();
        if (x) nx_keypoint_xwrite(k, n, f); else VF_ASSERT(nx_keypoint_write(k, n, f) == n, "writing succeeds");
        int L = vf_stream_out_len(f);
        VF_ASSUME(cut <= L);
        FILE *g = vf_stream_in(vf_stream_out_data(f), cut);
        int whole = n ? cut / (L / n) : 0;
        if (x) { if (cut < L) { VF_FATAL_OK(); nx_keypoint_xread(r, n, g); VF_ASSERT(0, "checked reading refuses a cut stream"); } nx_keypoint_xread(r, n, g); }
        else VF_ASSERT(nx_keypoint_read(r, n, g) == whole, "the number of complete keypoints is reported");
        for (int i = 0; i < whole; ++i) VF_ASSERT(same_key(&r[i], &k[i]), "keypoint reads back");
        VF_COVER("keypoints");
}
void key_wfail(void)
{
        int n = vf_pick("n", 1, NK), lim = vf_pick("lim", 0, NK * KSZ), x = vf_pick("x", 0, 1);
        struct NXKeypoint k[NK]; memset(k, 0, sizeof k); FILE *f = vf_stream_out_fail(lim);
        if (x) { if (lim < n * KSZ) VF_FATAL_OK(); else VF_FATAL_BAD(); nx_keypoint_xwrite(k, n, f); VF_ASSERT(lim >= n * KSZ, "checked writing stops when bytes are refused"); }
        else { int r = nx_keypoint_write(k, n, f); VF_ASSERT(r == (lim / KSZ < n ? lim / KSZ : n), "the number of complete keypoints is reported"); }
        VF_COVER("write failure");
}
/* coordinates in the base image */
void key_base(void)
{
        struct NXKeypoint k; memset(&k, 0, sizeof k); k.x = vf_u8("x") + (vf_pick("xh", 0, 1) ? 50000 : 0); k.y = vf_u8("y"); k.scale = (float)(1 << vf_pick("s", 0, 4)); k.xs = vf_f("xs"); k.ys = vf_f("ys");
        VF_ASSUME((k.xs >= 0) & (k.xs < 60000) & (k.ys >= 0) & (k.ys < 60000)); int s = (int)k.scale;
        VF_ASSERT(nx_keypoint_x0(&k) == k.x * s && nx_keypoint_y0(&k) == k.y * s, "pixel position in the base image");
        VF_EQF(nx_keypoint_xs0(&k), k.xs * k.scale, "x in the base image"); VF_EQF(nx_keypoint_ys0(&k), k.ys * k.scale, "y in the base image"); VF_COVER("base");
}
static float dx(const struct NXImage *im, int x, int y) { if (im->width < 2) return 0; if (x == 0) return 2 * (at(im, 1, y) - at(im, 0, y)); if (x == im->width - 1) return 2 * (at(im, x, y) - at(im, x - 1, y)); return at(im, x + 1, y) - at(im, x - 1, y); }
static float dy(const struct NXImage *im, int x, int y) { if (im->height < 2) return 0; if (y == 0) return 2 * (at(im, x, 1) - at(im, x, 0)); if (y == im->height - 1) return 2 * (at(im, x, y) - at(im, x, y - 1)); return at(im, x, y + 1) - at(im, x, y - 1); }
/* derivative products; with a window, each product image smoothed by the library's own smoothing (C20) */
void harris_deriv(void)
{
        int w = vf_pick("w", 1, W), h = vf_pick("h", 1, HH), pad = vf_pick("pad", 0, 1), pre = vf_pick("pre", 0, 1), win = vf_pick("win", 0, WIN);
        VF_FATAL_BAD();
        struct NXImage *im = any(w, h, pad, 0, 0), *d[3] = { 0, 0, 0 };
        if (pre) { d[1] = nx_image_new_gray_uc(2, 1); d[2] = nx_image_new_gray_f32(1, 1); }
        nx_harris_deriv_images(d, im, win ? 0.4f : 0.0f);
        struct NXImage *o[3]; for (int i = 0; i < 3; ++i) { VF_ASSERT(d[i] && d[i]->width == w && d[i]->height == h && d[i]->dtype == NX_IMAGE_FLOAT32 && d[i]->type == NX_IMAGE_GRAYSCALE, "shape"); o[i] = nx_image_new_gray_f32(w, h); }
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                float a = dx(im, x, y) / 255.0f, b = dy(im, x, y) / 255.0f;
                o[0]->data.f32[y * o[0]->row_stride + x] = a * a; o[1]->data.f32[y * o[1]->row_stride + x] = b * b; o[2]->data.f32[y * o[2]->row_stride + x] = a * b;
        }
        for (int i = 0; i < 3; ++i) { if (win) nx_image_smooth(o[i], o[i], 0.4f, 0.4f, 3.0f, NULL); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) VF_EQF(at(d[i], x, y), at(o[i], x, y), "product of derivatives"); }
        VF_COVER("derivatives"); for (int i = 0; i < 3; ++i) { nx_image_free(d[i]); nx_image_free(o[i]); } nx_image_free(im);
}
void harris_score(void)
{
        int w = vf_pick("w", 0, 2), h = vf_pick("h", 1, 2), pad = vf_pick("pad", 0, 1); VF_FATAL_BAD();
        struct NXImage *d[3], *s = nx_image_alloc(); for (int i = 0; i < 3; ++i) d[i] = any(w, h, pad * (i + 1), 0, 1);
        float k = 0.01f * (float)vf_pick("k", 4, 6);
        nx_harris_score_image(s, d, k);
        VF_ASSERT(s->width == w && s->height == h && s->dtype == NX_IMAGE_FLOAT32 && s->type == NX_IMAGE_GRAYSCALE, "shape");
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { float a = at(d[0], x, y), b = at(d[1], x, y), c = at(d[2], x, y); VF_EQF(at(s, x, y), a * b - c * c - k * (a + b) * (a + b), "determinant minus k times squared trace"); }
        VF_COVER("score"); for (int i = 0; i < 3; ++i) nx_image_free(d[i]); nx_image_free(s);
}
/* keypoints are exactly the strict local maxima above the threshold, in raster order, up to the capacity */
#ifndef DW
#define DW 7
#define DH 5
#endif
static int peak(const struct NXImage *s, int x, int y, float t) { float v = at(s, x, y); int r = v > t; for (int j = -1; j <= 1; ++j) for (int i = -1; i <= 1; ++i) if (i || j) r &= v > at(s, x + i, y + j); return r; }
void harris_detect(void)
{
        int w = vf_pick("w", 1, DW), h = vf_pick("h", 4, DH), pad = vf_pick("pad", 0, 1), cap = vf_pick("cap", 0, 2); VF_ASSUME(w >= 6 || w <= 2 || w == 5);
        VF_FATAL_BAD();
        struct NXImage *s = any(w, h, pad, 0, 1); float t = vf_f("t"); VF_ASSUME((t >= -4) & (t <= 4));
        struct NXKeypoint *k = malloc(cap * sizeof *k + 1); int n = nx_harris_detect_keypoints(cap, k, s, t), m = 0;
        VF_ASSERT(n >= 0 && n <= cap, "no more than asked for");
        for (int y = 2; y < h - 2; ++y) for (int x = 2; x < w - 2; ++x) if (m < cap && peak(s, x, y, t)) {
                VF_ASSERT(m < n, "every peak is reported"); if (m >= n) return;
                VF_ASSERT(k[m].x == x && k[m].y == y && k[m].xs == x && k[m].ys == y, "at its position, in raster order"); VF_ASSERT(k[m].score == at(s, x, y), "with its score");
                VF_ASSERT(k[m].level == 0 && k[m].scale == 1.0f && k[m].id == (uint64_t)m && k[m].ori == 0.0f, "remaining fields"); ++m; VF_COVER("peak");
        }
        VF_ASSERT(m == n, "nothing but peaks"); free(k); nx_image_free(s);
}
