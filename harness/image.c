/* image container, conversions, resampling */
#include "imgutil.h"
#ifndef W
#define W 2
#endif
#ifndef HH
#define HH 2
#endif
#ifndef K
#define K 3
#endif
#ifndef NS
#define NS 8
#endif
#ifndef NW
#define NW 3
#endif
#ifndef ALLK
#define ALLK 0
#endif
#ifndef CX
#define CX 4
#define CY 4
#endif
#ifndef R
#define R 2
#endif
static int chs(enum NXImageType t) { return t == NX_IMAGE_RGBA ? 4 : 1; }
static int esz(enum NXImageDataType d) { return d == NX_IMAGE_FLOAT32 ? 4 : 1; }
/* the oracle keeps what an image must be: shape, stride and the bytes of its first and last pixel element */
struct shape { int w, h, rs; enum NXImageType t; enum NXImageDataType d; unsigned char first, last; int null; };
static unsigned char *bytes(struct NXImage *im) { return (unsigned char *)im->data.v; }
static int nbytes(const struct shape *s) { return s->h && s->w ? ((s->h - 1) * s->rs + s->w * chs(s->t)) * esz(s->d) : 0; }
static void paint(struct NXImage *im, struct shape *s)
{
        int n = nbytes(s); if (!n) return;
        for (int i = 0; i < n; ++i) bytes(im)[i] = 0x11;
        bytes(im)[0] = vf_u8("first"); s->first = bytes(im)[0]; bytes(im)[n - 1] = vf_u8("last"); s->last = bytes(im)[n - 1]; if (n == 1) s->first = s->last;
}
static void look(struct NXImage *im, const struct shape *s)
{
        VF_ASSERT(im->width == s->w && im->height == s->h && im->type == s->t && im->dtype == s->d, "shape");
        VF_ASSERT(im->n_channels == chs(s->t), "channel count");
        VF_ASSERT(im->row_stride == s->rs && im->row_stride >= s->w * chs(s->t), "row stride covers a row");
        int n = nbytes(s);
        if (n) { VF_READABLE(bytes(im), s->h * s->rs * esz(s->d)); VF_ASSERT(bytes(im)[0] == s->first && bytes(im)[n - 1] == s->last, "pixels kept"); }
}
void img_container(void)
{
        static unsigned char ext[W * HH * 4 * 4 + 8];
        struct NXImage *im[2]; struct shape sh[2];
        VF_FATAL_BAD();
        for (int i = 0; i < 2; ++i) {
                im[i] = nx_image_alloc(); struct shape z = { 0, 0, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, 0, 0, 0 }; sh[i] = z; look(im[i], &sh[i]);
        }
        for (int k = 0; k < K; ++k) {
                int op = vf_pick("op", 0, 7), a = vf_pick("a", 0, 1), b = 1 - a;
                if (op == 0) {
                        static const signed char S[][5] = { {0,0,0,0,0}, {1,1,0,0,0}, {2,2,1,0,1}, {1,2,0,1,1}, {2,1,1,1,0}, {2,2,0,0,0}, {1,2,1,0,0}, {0,2,0,1,0} };
                        const signed char *q = S[vf_pick("shape", 0, NS - 1)]; int pad = q[4];
                        struct shape s = { q[0], q[1], 0, q[2] ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, q[3] ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR, 0, 0, 0 };
                        s.rs = s.w * chs(s.t) + pad * 3;
                        nx_image_resize(im[a], s.w, s.h, pad ? s.rs : NX_IMAGE_STRIDE_DEFAULT, s.t, s.d);
                        sh[a] = s; paint(im[a], &sh[a]);
                } else if (op == 1) { nx_image_copy(im[a], im[b]); sh[a] = sh[b]; }
                else if (op == 2) { nx_image_swap(im[a], im[b]); struct shape t = sh[a]; sh[a] = sh[b]; sh[b] = t; }
                else if (op == 3) { nx_image_release(im[a]); struct shape z = { 0, 0, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, 0, 0, 0 }; sh[a] = z; }
                else if (op == 4) {
                        struct shape s = { W, HH, W + 1, NX_IMAGE_GRAYSCALE, vf_pick("wd", 0, 1) ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR, 0, 0, 0 };
                        int own = vf_pick("own", 0, 1), n = s.rs * s.h * esz(s.d);
                        if (!own) { if (im[b]->data.v == (void *)ext) continue; }
                        void *mem = own ? malloc(n) : (void *)ext;
                        nx_image_wrap(im[a], mem, s.w, s.h, s.rs, s.t, s.d, own);
                        VF_ASSERT(im[a]->data.v == mem, "wraps the given memory");
                        sh[a] = s; paint(im[a], &sh[a]);
                } else if (op == 5) { nx_image_set_zero(im[a]); sh[a].first = sh[a].last = 0; for (int i = 0; i < nbytes(&sh[a]); ++i) VF_ASSERT(bytes(im[a])[i] == 0, "all zero"); }
                else if (op == 6) {
                        nx_image_resize_like(im[a], im[b]); sh[a] = sh[b];
                        VF_ASSERT(im[a]->row_stride >= sh[a].w * chs(sh[a].t), "row stride covers a row"); sh[a].rs = im[a]->row_stride; paint(im[a], &sh[a]);
                } else {
                        struct NXImage *c = vf_pick("cp", 0, 1) ? nx_image_copy0(im[b]) : nx_image_new_like(im[b]);
                        VF_ASSERT(c->width == sh[b].w && c->height == sh[b].h && c->type == sh[b].t && c->dtype == sh[b].d, "like the other");
                        for (int y = 0; y < c->height; ++y) VF_READABLE(bytes(c) + y * c->row_stride * esz(c->dtype), c->width * c->n_channels * esz(c->dtype));
                        for (int i = 0; i < nbytes(&sh[b]); ++i) if (i % 5 == 0) bytes(c)[i % (c->width * c->n_channels)] = 7; /* independent of the original */
                        nx_image_free(c);
                }
                look(im[0], &sh[0]); look(im[1], &sh[1]);
        }
        VF_COVER("history");
        nx_image_free(im[0]); nx_image_free(im[1]);
}
/* every constructor */
void img_new(void)
{
        int w = vf_pick("w", 0, W), h = vf_pick("h", 0, HH), k = vf_pick("k", 0, 3);
        VF_FATAL_BAD();
        struct NXImage *im = k == 0 ? nx_image_new_gray_uc(w, h) : k == 1 ? nx_image_new_rgba_uc(w, h) : k == 2 ? nx_image_new_gray_f32(w, h) : nx_image_new_rgba_f32(w, h);
        struct shape s = { w, h, im->row_stride, k & 1 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, k >= 2 ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR, 0, 0, 0 };
        paint(im, &s); look(im, &s); VF_COVER("made"); nx_image_free(im);
        im = k & 1 ? nx_image_new_rgba(w, h, s.d) : nx_image_new_gray(w, h, s.d); s.rs = im->row_stride; paint(im, &s); look(im, &s); nx_image_free(im);
}

void img_dtype(void)
{
        int w = vf_pick("w", 1, W), h = vf_pick("h", 1, HH), pad = vf_pick("pad", 0, 1), f = vf_pick("f", 0, 1), same = vf_pick("same", 0, 1);
        VF_FATAL_BAD();
        struct NXImage *s = any(w, h, pad, 0, f), *d = nx_image_new_gray(1, 3, (f != same) ? NX_IMAGE_UCHAR : NX_IMAGE_FLOAT32);
        enum NXImageDataType want = d->dtype;
        nx_image_convert_dtype(d, s);
        VF_ASSERT(d->width == w && d->height == h && d->type == NX_IMAGE_GRAYSCALE && d->dtype == want && d->row_stride >= w, "shape");
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                float a = at(s, x, y), b = at(d, x, y);
                if (same) VF_ASSERT(a == b, "same kind: copied");
                else if (f) LEVEL(b, 255.0f * a, "value to level");
                else VF_EQF(b * 255.0f, a, "level to value");
        }
        VF_COVER("converted"); nx_image_free(s); nx_image_free(d);
}
void img_type(void)
{
        int w = vf_pick("w", 1, W), h = vf_pick("h", 1, HH), pad = vf_pick("pad", 0, 1), f = vf_pick("f", 0, 1), from = vf_pick("from", 0, 1), to = vf_pick("to", 0, 1);
        VF_FATAL_BAD();
        struct NXImage *s = any(w, h, pad, from, f), *d = nx_image_copy0(s);
        nx_image_convert_type(d, to ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE);
        VF_ASSERT(d->width == w && d->height == h && d->type == (to ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE) && d->dtype == s->dtype && d->n_channels == (to ? 4 : 1) && d->row_stride >= w * (to ? 4 : 1), "shape");
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                if (from == to) { for (int c = 0; c < (to ? 4 : 1); ++c) VF_ASSERT(at(s, (to ? 4 : 1) * x + c, y) == at(d, (to ? 4 : 1) * x + c, y), "same type: unchanged"); }
                else if (to) { for (int c = 0; c < 3; ++c) VF_ASSERT(at(d, 4 * x + c, y) == at(s, x, y), "gray value in every channel"); VF_ASSERT(at(d, 4 * x + 3, y) == (f ? 1.0f : 255.0f), "opaque"); }
                else {
                        float l = 0.3f * at(s, 4 * x, y) + 0.59f * at(s, 4 * x + 1, y) + 0.11f * at(s, 4 * x + 2, y);
                        if (f) VF_EQF(at(d, x, y), clampf(l, 0.0f, 1.0f), "luminance"); else LEVEL(at(d, x, y), l, "luminance");
                }
        }
        VF_COVER("converted"); nx_image_free(s); nx_image_free(d);
}
void img_arith(void)
{
        int w = vf_pick("w", 1, W), h = vf_pick("h", 1, HH), pad = vf_pick("pad", 0, 1), f = vf_pick("f", 0, 1), rgba = vf_pick("rgba", 0, 1), ch = rgba ? 4 : 1;
        VF_FATAL_BAD();
        if (vf_pick("sub", 0, 1)) {
                int w1 = vf_pick("w1", 1, W), h1 = vf_pick("h1", 1, HH), mw = w < w1 ? w : w1, mh = h < h1 ? h : h1;
                struct NXImage *a = any(w, h, pad, 0, f), *b = any(w1, h1, 0, 0, f), *d = nx_image_alloc();
                nx_image_subtract(d, a, b);
                VF_ASSERT(d->width == mw && d->height == mh && d->type == NX_IMAGE_GRAYSCALE && d->dtype == NX_IMAGE_FLOAT32, "common part");
                for (int y = 0; y < mh; ++y) for (int x = 0; x < mw; ++x) VF_EQF(at(d, x, y), at(a, x, y) - at(b, x, y), "difference");
                nx_image_free(a); nx_image_free(b); nx_image_free(d);
        } else {
                struct NXImage *a = any(w, h, pad, rgba, f), *b = nx_image_copy0(a); float m = (float)vf_pick("m", -2, 2) * 0.5f, t = (float)(signed char)vf_u8("t");
                nx_image_axpy(a, m, t);
                VF_ASSERT(a->width == w && a->height == h && a->type == b->type && a->dtype == b->dtype, "shape kept");
                for (int y = 0; y < h; ++y) for (int x = 0; x < w * ch; ++x)
                        if (f) VF_EQF(at(a, x, y), m * at(b, x, y) + t, "scaled and shifted"); else LEVEL(at(a, x, y), m * at(b, x, y) + t, "scaled, shifted and clamped");
                nx_image_free(a); nx_image_free(b);
        }
        VF_COVER("done");
}
/* normalisation to the unit interval */
void img_norm(void)
{
        int w = vf_pick("w", 1, NW), rgba = vf_pick("rgba", 0, 1), sym = vf_pick("sym", 0, 1), h = 1, pad = 1, n = w * (rgba ? 4 : 1); VF_ASSUME(n <= 4 && (!rgba || w == 1));
        VF_FATAL_BAD();
        struct NXImage *a = any(w, h, pad, rgba, 1);
        static const float LO[] = { -3.0f, 0.0f, 2.0f }, SPAN[] = { 0.0f, 1.0f, 5.0f };
        float v[4], mn = LO[vf_pick("mn", 0, 2)], mx = mn + SPAN[vf_pick("span", 0, 2)]; int imn = vf_pick("imn", 0, n - 1), imx = vf_pick("imx", 0, n - 1); VF_ASSUME(imn != imx || mn == mx);
        for (int i = 0; i < n; ++i) { v[i] = i == imn ? mn : i == imx ? mx : vf_f("v"); VF_ASSUME(v[i] >= mn && v[i] <= mx); a->data.f32[i] = v[i]; }
        nx_image_normalize_to_zero_one(a, sym);
        float t = (-mn > mx ? -mn : mx); if (mn > 0 && mx > mn) t = mx;
        for (int i = 0; i < n; ++i) {
                float o = a->data.f32[i];
                VF_ASSERT((o >= 0.0f) & (o <= 1.0f), "in the unit interval");
                if (mx == mn) { VF_ASSERT(o == 0.0f, "constant image becomes zero"); continue; }
                if (sym) { if (t > 0) VF_EQF((o - 0.5f) * 2.0f * t, v[i], "symmetric scaling"); }
                else VF_EQF(o * (mx - mn), v[i] - mn, "minimum to zero, maximum to one");
        }
        VF_COVER("normalised"); nx_image_free(a);
}
/* colour maps: never outside the table, clamped outside the unit interval, between neighbouring colours inside */
static int between(int a, int b, int c) { int lo = a < c ? a : c, hi = a < c ? c : a; return b >= lo - 1 && b <= hi + 1; }
void img_cmap(void)
{
        int map = vf_pick("map", 0, 4), f = vf_pick("f", 0, 1), w = vf_pick("w", 1, 2);
        static const enum NXColorMap M[] = { NX_COLOR_MAP_GRAY, NX_COLOR_MAP_VIRIDIS, NX_COLOR_MAP_PLASMA, NX_COLOR_MAP_MAGMA, NX_COLOR_MAP_CUBEHELIX };
        VF_FATAL_BAD();
        struct NXImage *g = nx_image_alloc(), *c = nx_image_alloc();
        nx_image_resize(g, w, 2, w + 1, NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR);
        for (int i = 0; i < 2 * (w + 1); ++i) if (f) g->data.f32[i] = 0.25f; else g->data.uc[i] = 64;
        int px = vf_pick("px", 0, w - 1), py = vf_pick("py", 0, 1);
        int k = vf_pick("k", -1, 255); if (!ALLK) VF_ASSUME(k == -1 || k == 0 || k == 1 || k == 127 || k == 254 || k == 255);
        if (f) { float v = vf_f("v"); if (k < 0) VF_ASSUME(v <= 0.0f && v >= -10.0f); else if (k == 255) VF_ASSUME(v >= 1.0f && v <= 10.0f); else VF_ASSUME(v * 255.0f >= (float)k && v * 255.0f <= (float)k + 1); g->data.f32[py * (w + 1) + px] = v; }
        else { VF_ASSUME(k >= 0); g->data.uc[py * (w + 1) + px] = (unsigned char)k; }
        nx_image_apply_colormap(c, g, M[map]);
        VF_ASSERT(c->width == w && c->height == 2 && c->type == NX_IMAGE_RGBA && c->dtype == NX_IMAGE_UCHAR, "shape");
        unsigned char lo[3], hi[3]; int k0 = k < 0 ? 0 : k, k1 = k < 0 ? 0 : k == 255 ? 255 : f ? k + 1 : k;
        nx_color_map_apply(&lo[0], &lo[1], &lo[2], k0 / 255.0f, M[map]); nx_color_map_apply(&hi[0], &hi[1], &hi[2], k1 / 255.0f, M[map]);
        const unsigned char *q = c->data.uc + py * c->row_stride + 4 * px;
        for (int i = 0; i < 3; ++i) VF_ASSERT(between(lo[i], q[i], hi[i]), "colour between its neighbours in the map");
        VF_ASSERT(q[3] == 255, "opaque");
        if (map == 0) for (int i = 0; i < 3; ++i) VF_ASSERT(q[i] >= k0 - 1 && q[i] <= k1 + 1, "gray map is the value");
        unsigned char o[3]; nx_color_map_apply(&o[0], &o[1], &o[2], f ? 0.25f : 64 / 255.0f, M[map]);
        for (int y = 0; y < 2; ++y) for (int x = 0; x < w; ++x) if (x != px || y != py) for (int i = 0; i < 3; ++i) VF_ASSERT(c->data.uc[y * c->row_stride + 4 * x + i] == o[i], "other pixels in place");
        VF_COVER("mapped"); nx_image_free(g); nx_image_free(c);
}
/* any requested stride: the image uses it when it covers a row, and a whole row otherwise; all rows are in memory afterwards */
void img_stride(void)
{
        int k = vf_pick("k", 0, 3), before = vf_pick("before", 0, 2), w = vf_pick("w", 0, W), h = vf_pick("h", 1, HH), req = vf_pick("req", -2, 4 * W + 3);
        enum NXImageType t = k & 1 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; enum NXImageDataType d = k >= 2 ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR;
        VF_FATAL_BAD();
        struct NXImage *im = nx_image_alloc();
        if (before == 1) nx_image_resize(im, w, h, w * chs(t) + 2, t, d); else if (before == 2) nx_image_resize(im, 1, 1, 1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
        nx_image_resize(im, w, h, req, t, d);
        struct shape s = { w, h, req > w * chs(t) ? req : w * chs(t), t, d, 0, 0, 0 };
        VF_ASSERT(im->row_stride == s.rs, "the requested stride, or a whole row when it is shorter");
        paint(im, &s); look(im, &s); VF_COVER("stride"); nx_image_free(im);
}
