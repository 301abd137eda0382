/* FAST-9 corners against the segment test definition */
#include "imgutil.h"
#include <math.h>
#include <stdlib.h>
#include "virg/nexus/nx_fast_detector.h"
#include "virg/nexus/nx_image_pyr.h"
#ifndef SMASK
#define SMASK 255
#endif
#ifndef NP
#define NP 4
#endif
#ifndef GW
#define GW 3
#define GH 2
#endif
static const signed char C[16][2] = { {0,3}, {1,3}, {2,2}, {3,1}, {3,0}, {3,-1}, {2,-2}, {1,-3}, {0,-3}, {-1,-3}, {-2,-2}, {-3,-1}, {-3,0}, {-3,1}, {-2,2}, {-1,3} };
/* nine contiguous pixels of the circle all brighter than centre + b or all darker than centre - b */
static int arc9(uint32_t m) { m |= m << 16; uint32_t a = m & (m >> 1); a &= a >> 2; a &= a >> 4; a &= m >> 8; return (a & 0xffff) != 0; }
static int corner(const unsigned char *p, int stride, int b)
{
        uint32_t hi = 0, lo = 0;
        for (int i = 0; i < 16; ++i) { int v = p[C[i][0] + C[i][1] * stride]; hi |= (uint32_t)(v > p[0] + b) << i; lo |= (uint32_t)(v < p[0] - b) << i; }
        return arc9(hi) | arc9(lo);
}
void fast_test(void)
{
        int pad = vf_pick("pad", 0, 1), b = B; struct NXKeypoint k[2]; VF_FATAL_BAD();
#ifdef BSYM
        b = vf_u8("b");
#endif
        static unsigned char px[8 * 7]; for (int i = 0; i < 7 * (7 + pad); ++i) px[i] = vf_u8("px");
        struct NXImage im; memset(&im, 0, sizeof im); im.width = 7; im.height = 7; im.row_stride = 7 + pad; im.n_channels = 1; im.type = NX_IMAGE_GRAYSCALE; im.dtype = NX_IMAGE_UCHAR; im.data.uc = px;
        int n = nx_fast_detect_keypoints(2, k, &im, b), c = corner(px + 3 * (7 + pad) + 3, 7 + pad, b);
        VF_ASSERT(n == c, "a corner is reported exactly when nine contiguous circle pixels are all brighter or all darker");
        if (n == 1) { VF_ASSERT(k[0].x == 3 && k[0].y == 3 && k[0].xs == 3 && k[0].ys == 3 && k[0].id == 0 && k[0].level == 0 && k[0].scale == 1.0f, "at its position"); VF_COVER("corner"); } else VF_COVER("no corner");
}
void fast_score(void)
{
        int pad = PADV, st = 7 + pad, b = BSC; struct NXKeypoint k[1]; memset(k, 0, sizeof k); k[0].x = 3; k[0].y = 3; VF_FATAL_BAD();
        static unsigned char px[8 * 7]; unsigned char v[17]; vf_bytes("v", v, 17); for (int i = 0; i < 16; ++i) px[(3 + C[i][1]) * st + 3 + C[i][0]] = v[i];
        px[3 * st + 3] = v[16];
        static const unsigned char DD[] = { 100, 140, 30 }; int d = DD[vf_pick("d", 0, ND - 1)], c = v[16]; /* circle pixels differ from the centre by 0 or d, or by a little more */
        for (int i = 0; i < 16; ++i) { int e = v[i] - c; VF_ASSUME((e == 0) | (e == d) | (e == -d) | ((e == d + 3) & (i >= E0)) | ((e == -d - 3) & (i >= E0))); }
        struct NXImage im; memset(&im, 0, sizeof im); im.width = 7; im.height = 7; im.row_stride = st; im.n_channels = 1; im.type = NX_IMAGE_GRAYSCALE; im.dtype = NX_IMAGE_UCHAR; im.data.uc = px;
        const unsigned char *p = px + 3 * st + 3;
        nx_fast_score_keypoints(1, k, &im, b); int s = (int)k[0].score;
        VF_ASSERT((s >= b) & (s < 255), "score within range"); VF_ASSERT((s == b) | corner(p, st, s), "still a corner at the score"); VF_ASSERT(!corner(p, st, s + 1), "and no longer above it"); if (s > b) VF_COVER("score"); else VF_COVER("no corner above the threshold");
}
/* scanning: dark centres on a bright ground are the corners; all of them, in raster order, up to the capacity */
void fast_scan(void)
{
        int w = vf_pick("w", 5, 9), h = vf_pick("h", 6, 8), pad = vf_pick("pad", 0, 1), cap = vf_pick("cap", 0, 3), m = 0; VF_FATAL_BAD(); VF_ASSUME(w != 6);
        struct NXImage *im = nx_image_alloc(); nx_image_resize(im, w, h, w + pad, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); memset(im->data.uc, 200, (w + pad) * h);
        for (int y = 3; y < h - 3; ++y) for (int x = 3; x < w - 3; ++x) if (vf_pick("dark", 0, 1)) im->data.uc[y * im->row_stride + x] = vf_i("v", 0, 99);
        struct NXKeypoint *k = malloc(cap * sizeof *k + 1); int n = nx_fast_detect_keypoints(cap, k, im, 100);
        VF_ASSERT(n >= 0 && n <= cap, "no more than asked for");
        for (int y = 3; y < h - 3; ++y) for (int x = 3; x < w - 3; ++x) if (m < cap && at(im, x, y) < 200) {
                VF_ASSERT(m < n, "every corner is reported"); if (m >= n) return;
                VF_ASSERT(k[m].x == x && k[m].y == y && k[m].xs == x && k[m].ys == y && k[m].id == (uint64_t)m && k[m].level == 0 && k[m].scale == 1.0f && k[m].score == 0.0f && k[m].ori == 0.0f, "in raster order"); ++m; VF_COVER("scan");
        }
        VF_ASSERT(m == n, "nothing but corners"); free(k); nx_image_free(im);
}
/* suppression keeps exactly the keypoints whose 8 neighbours all score less */
void fast_nonmax(void)
{
        struct NXKeypoint k[GW * GH], r[GW * GH + 1]; int on[GW * GH], n = 0, cap = vf_pick("cap", 0, CAP), m = 0, idx[GW * GH], y0 = vf_pick("y0", 0, 1) * 3; VF_FATAL_BAD();
        memset(r, 0, sizeof r); r[cap < GW * GH ? cap : GW * GH].x = 777;
        for (int i = 0; i < GW * GH; ++i) { on[i] = n < NP ? vf_pick("on", 0, 1) : 0; if (on[i]) { memset(&k[n], 0, sizeof k[n]); k[n].x = 3 + i % GW; k[n].y = y0 + i / GW; k[n].score = (float)(vf_u8("score") & SMASK); k[n].id = 50 + n; idx[i] = n; ++n; } }
        int got = nx_fast_suppress_keypoints(cap, r, n, k);
        VF_ASSERT(got >= 0 && got <= cap, "no more than asked for");
        for (int i = 0; i < GW * GH; ++i) if (on[i] && m < cap) {
                int keep = 1; float s = k[idx[i]].score;
                for (int j = 0; j < GW * GH; ++j) if (j != i && on[j] && abs(j % GW - i % GW) <= 1 && abs(j / GW - i / GW) <= 1) keep &= k[idx[j]].score < s;
                if (keep) { VF_ASSERT(m < got, "every local maximum is kept"); if (m >= got) return; VF_ASSERT(r[m].x == k[idx[i]].x && r[m].y == k[idx[i]].y && r[m].score == s && r[m].id == (uint64_t)m, "unchanged and in order"); ++m; VF_COVER("kept"); }
        }
        VF_ASSERT(m == got, "nothing else is kept"); VF_ASSERT(r[cap < GW * GH ? cap : GW * GH].x == 777, "nothing written past the capacity"); VF_COVER("suppressed");
}
/* the threshold follows the number of keypoints found and stays in 5..250 */
void fast_adapt(void)
{
        struct NXFastDetector *d = nx_fast_detector_alloc(); int t = vf_i("t", 5, 250), mx = vf_i("mx", 0, 1000000), n = vf_i("n", 0, 1000000); d->threshold = t;
        nx_fast_detector_adapt_threshold(d, n, mx);
        int u = d->threshold; VF_ASSERT((u >= 5) & (u <= 250), "threshold stays in range"); VF_ASSERT((u - t <= 3) & (u - t >= -3), "small steps");
        if ((long long)n * 1024 >= 1014LL * mx) VF_ASSERT(u == (t + 3 > 250 ? 250 : t + 3), "too many keypoints raise it");
        if ((long long)n * 1024 > 921LL * mx + 1024 && (long long)n * 1024 < 1014LL * mx - 1024) VF_ASSERT(u == t, "kept when about right"); if ((long long)n * 1024 <= 716LL * mx - 1024) VF_ASSERT(u == (t - 3 < 5 ? 5 : t - 3), "too few lower it");
        if (n < mx / 2) VF_ASSERT(u <= t, "few keypoints never raise it");
        VF_COVER("adapt"); nx_fast_detector_free(d);
}
/* the detector object: its levels are detected, scored, suppressed and labelled, coarsest first, within the capacity; orientation is that of the patch centroid */
void fast_pyr(void)
{
        int nl = vf_pick("nl", 1, 2), lim = vf_pick("lim", -1, 3), cap = vf_pick("cap", 1, 3), ori = vf_pick("ori", 0, 1), r = vf_pick("r", 1, 4), obj = vf_pick("obj", 0, 1); VF_FATAL_BAD(); VF_ASSUME(obj || !ori); VF_ASSUME(ori || r == 1);
        struct NXImagePyr *p = nx_image_pyr_alloc(); nx_image_pyr_alloc_levels(p, nl);
        for (int l = 0; l < nl; ++l) {
                int w = l ? 8 : 9, h = 8; nx_image_pyr_create_level(p, l, w, h, l ? 2.0f : 1.0f, l ? 3.0f : 1.5f); struct NXImage *im = p->levels[l].img; memset(im->data.uc, 200, im->row_stride * h);
                for (int y = 3; y < 5; ++y) for (int x = 3; x < w - 3; x += 2) if (vf_pick("dark", 0, 1)) im->data.uc[y * im->row_stride + x] = 10 * (l + 2 * (x - 3)) + 5 * (y - 3);
                if (ori) im->data.uc[2 * im->row_stride + 2] = 150;
        }
        struct NXFastDetector *d = nx_fast_detector_alloc(); d->threshold = 60; if (ori) { nx_fast_detector_set_ori_param(d, NX_TRUE, r + 1); nx_fast_detector_set_ori_param(d, NX_TRUE, r); }
        struct NXKeypoint *k = malloc(cap * sizeof *k), wk[40]; 
        int n = obj ? nx_fast_detector_detect_pyr(d, cap, k, p, lim) : nx_fast_detect_keypoints_pyr(cap, k, 40, wk, p, 60, lim), m = 0, use = lim <= 0 || lim > nl ? nl : lim;
        VF_ASSERT(n >= 0 && n <= cap, "no more than asked for");
        for (int l = use - 1; l >= 0; --l) {
                struct NXImage *im = p->levels[l].img; struct NXKeypoint a[40], b[40]; int na = nx_fast_detect_keypoints(40, a, im, 60); nx_fast_score_keypoints(na, a, im, 60); int nb = nx_fast_suppress_keypoints(40, b, na, a);
                for (int i = 0; i < nb && m < cap; ++i, ++m) {
                        VF_ASSERT(m < n, "every keypoint of the level"); if (m >= n) return;
                        VF_ASSERT(k[m].x == b[i].x && k[m].y == b[i].y && k[m].score == b[i].score && k[m].level == l && k[m].scale == p->levels[l].scale && k[m].sigma == p->levels[l].sigma && k[m].id == (uint64_t)m, "labelled with its level");
                        double m10 = 0, m01 = 0; int x = b[i].x, y = b[i].y, in = x >= r && x < im->width - r && y >= r && y < im->height - r;
                        if (in) for (int v = -r; v < r; ++v) for (int u = -r; u < r; ++u) if (u * u + v * v < r * r) { m10 += u * at(im, x + u, y + v); m01 += v * at(im, x + u, y + v); }
                        VF_EQF(k[m].ori, ori && in ? (float)atan2(m01, m10) : 0.0f, "orientation of the patch centroid"); if (ori && in) VF_COVER("oriented");
                }
        }
        VF_ASSERT(m == n, "nothing else"); VF_COVER("pyramid"); free(k); nx_fast_detector_free(d); nx_image_pyr_free(p);
}
