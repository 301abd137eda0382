/* C24: plane homographies */
#include "vf.h"
#include "rnd.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_point_match_2d_stats.h"
#include "virg/nexus/nx_svd.h"
#include <math.h>
#include <string.h>
#ifndef NM
#define NM 2
#endif
#ifndef RN
#define RN 5
#endif
#ifndef ITER
#define ITER 1
#endif
static double anyd(const char *n, double b) { double v = vf_d(n); VF_ASSUME((v >= -b) & (v <= b)); return v; }
static float anyf(const char *n, double b) { float v = vf_f(n); VF_ASSUME((v >= -b) & (v <= b)); return v; }

/* the singular value decomposition (LAPACK) is replaced by any answer; what it is asked is recorded */
static double svd_A[9 * 2 * 8], svd_u[9], svd_s; static int svd_rows, svd_cols;
void nx_dsvd_us(double *U, int ldU, double *S, int m, int n, double *A, int ldA)
{
        svd_rows = m; svd_cols = n; VF_ASSERT(m == 9 && ldA >= 9 && ldU >= 9 && n <= 16, "the constraints are nine long");
        for (int j = 0; j < n; ++j) for (int i = 0; i < 9; ++i) svd_A[j * 9 + i] = A[j * ldA + i];
        for (int j = 0; j < 9; ++j) { if (j < n) S[j] = j == 8 ? svd_s : 9 - j; /* min(m, n) singular values */ for (int i = 0; i < 9; ++i) U[j * ldU + i] = j == 8 ? svd_u[i] : 0.1 * i - j; }
}
void nx_dsvd_usvt(double *U, int ldU, double *S, double *Vt, int ldVt, int m, int n, double *A, int ldA) { (void)U; (void)ldU; (void)S; (void)Vt; (void)ldVt; (void)m; (void)n; (void)A; (void)ldA; VF_ASSERT(0, "not asked for"); }

static void quad(double *c, int b) { static const double q[][8] = { { 0, 0, 1, 0, 1, 1, 0, 1 }, { 1, 2, 5, 1, 6, 6, 0, 5 }, { 3, 1, 9, 4, 5, 8, -2, 3 } }; for (int i = 0; i < 8; ++i) c[i] = q[b][i]; }
static void hm(double *h, int k) { static const double H[][9] = { { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 2, 0.5, 0.0, -0.5, 1.5, 0.0, 3, -2, 1 }, { 1.5, 0.25, 0.125, -0.25, 1, 0.0625, 1, 2, 2 } }; for (int i = 0; i < 9; ++i) h[i] = H[k][i]; }

void hom_unit(void)
{
        double c[8], t[9]; int v = vf_pick("free", 0, 7), p = vf_pick("corner", 0, 3); quad(c, vf_pick("quad", 0, 2));
        c[v] += anyd("shift", 0.75);
        double det = nx_homography_estimate_unit(t, c); VF_ASSUME(det * det > 0.0001);
        double x = c[2 * p], y = c[2 * p + 1], w = t[2] * x + t[5] * y + t[8];
        VF_EQF(t[0] * x + t[3] * y + t[6], (p == 1 || p == 2) * w, "the corners go to those of the unit square, in order");
        VF_EQF(t[1] * x + t[4] * y + t[7], (p >= 2) * w, "the corners go to those of the unit square, in order");
        VF_COVER("unit square");
}
/* four correspondences determine the homography */
void hom_4pt(void)
{
        struct NXPointMatch2D pm[6]; double a[8], b[8], h[9] = { 0 }; memset(pm, 0, sizeof pm);
        static const int ord[][4] = { { 0, 1, 2, 3 }, { 5, 3, 0, 2 }, { 2, 4, 1, 5 } };
        int qa = vf_pick("from", 0, 2), qb = (qa + 1) % 3; const int *id = ord[qa]; int v = vf_pick("free", 0, 7), m = vf_pick("moved", 0, 1) ? v : 8;
        quad(a, qa); quad(b, qb);
        double sh = anyd("shift", 0.5); a[v] += 0.25; for (int i = v & 1; i < 8; i += 2) a[i] += sh; if (m < 8) b[m] -= 0.375;
        for (int i = 0; i < 6; ++i) { pm[i].x[0] = 100 + i; pm[i].xp[1] = -50 * i; }
        for (int i = 0; i < 4; ++i) { pm[id[i]].x[0] = a[2 * i]; pm[id[i]].x[1] = a[2 * i + 1]; pm[id[i]].xp[0] = b[2 * i]; pm[id[i]].xp[1] = b[2 * i + 1]; }
        double det = nx_homography_estimate_4pt(h, id, pm);
        VF_ASSUME(det * det > 0.0001); for (int i = 0; i < 9; ++i) VF_ASSUME((h[i] < 50) & (h[i] > -50)); /* away from maps that send the origin to infinity, which this parametrisation cannot express */
        for (int p = 0; p < 4; ++p) {
                double w = h[2] * a[2 * p] + h[5] * a[2 * p + 1] + h[8], X = h[0] * a[2 * p] + h[3] * a[2 * p + 1] + h[6], Y = h[1] * a[2 * p] + h[4] * a[2 * p + 1] + h[7];
                VF_EQF(X, b[2 * p] * w, "each of the four points goes to its match"); VF_EQF(Y, b[2 * p + 1] * w, "each of the four points goes to its match");
        }
        VF_COVER("four points");
}
/* degenerate samples are reported, whichever side is degenerate */
void hom_4pt_degenerate(void)
{
        struct NXPointMatch2D pm[4]; double h[9]; const int id[4] = { 0, 1, 2, 3 }; double a[8], b[8]; memset(pm, 0, sizeof pm); quad(a, 1); quad(b, 2);
        int side = vf_pick("side", 0, 1), i = vf_pick("i", 0, 3), j = vf_pick("j", 0, 3); VF_ASSUME(i < j);
        double *c = side ? b : a; c[2 * j] = c[2 * i]; c[2 * j + 1] = c[2 * i + 1]; /* the same point twice */
        for (int k = 0; k < 4; ++k) { pm[k].x[0] = a[2 * k]; pm[k].x[1] = a[2 * k + 1]; pm[k].xp[0] = b[2 * k]; pm[k].xp[1] = b[2 * k + 1]; }
        VF_ASSERT(nx_homography_estimate_4pt(h, id, pm) == 0.0, "a degenerate sample gives determinant zero");
        VF_COVER("degenerate");
}
void hom_transfer(void)
{
        double h[9]; float x[2] = { anyf("x", 4), anyf("y", 4) }, xp[2]; for (int i = 0; i < 9; ++i) h[i] = anyd("h", 4);
        double w = h[2] * x[0] + h[5] * x[1] + h[8]; VF_ASSUME(w > 0.1 || w < -0.1);
        double s = nx_homography_transfer_fwd(h, xp, x); VF_EQF(s, w, "transfer returns the homogeneous scale");
        VF_EQF(xp[0] * s, h[0] * x[0] + h[3] * x[1] + h[6], "transfer divides by the scale"); VF_EQF(xp[1] * s, h[1] * x[0] + h[4] * x[1] + h[7], "transfer divides by the scale");
        VF_COVER("transfer");
}
static void matches(struct NXPointMatch2D *pm, int n, int free) { memset(pm, 0, n * sizeof *pm); for (int i = 0; i < n; ++i) { pm[i].x[0] = i + 0.5f; pm[i].x[1] = 1 - i; pm[i].xp[0] = 2 + i; pm[i].xp[1] = 1.5f * i; pm[i].is_inlier = vf_pick("marked", 0, 1); pm[i].id = i; } if (free >= 0) pm[free / 2].xp[free & 1] = anyf("coordinate", 8); }
void hom_mark(void)
{
        struct NXPointMatch2D pm[NM + 1]; double h[9], tol; int n = vf_pick("n", 0, NM), free = vf_pick("free", -1, 2 * NM - 1), inv = vf_pick("inverse", 0, 1), k = 0; hm(h, vf_pick("h", 0, 2));
        tol = free < 0 ? anyd("tol", 8) : 1.75; VF_ASSUME((tol >= 0) & (free < 2 * n)); matches(pm, NM + 1, free); int last = pm[n].is_inlier;
        if (inv) for (int i = 0; i < n; ++i) for (int c = 0; c < 2; ++c) { float t = pm[i].x[c]; pm[i].x[c] = pm[i].xp[c]; pm[i].xp[c] = t; }
        int r = inv ? nx_homography_mark_inliers_inv(h, n, pm, tol) : nx_homography_mark_inliers(h, n, pm, tol);
        for (int i = 0; i < n; ++i) {
                const float *p = inv ? pm[i].xp : pm[i].x, *q = inv ? pm[i].x : pm[i].xp; double w = h[2] * p[0] + h[5] * p[1] + h[8], dx = (h[0] * p[0] + h[3] * p[1] + h[6]) / w - q[0], dy = (h[1] * p[0] + h[4] * p[1] + h[7]) / w - q[1], e = dx * dx + dy * dy - tol * tol;
                if (e < -0.01) VF_ASSERT(pm[i].is_inlier, "a match transferred to within the tolerance is an inlier"); else if (e > 0.01) VF_ASSERT(!pm[i].is_inlier, "a match transferred farther than the tolerance is not an inlier");
                k += pm[i].is_inlier != 0; VF_ASSERT(pm[i].id == (uint64_t)i, "marking leaves the matches in place");
        }
        VF_ASSERT(r == k, "the number of inliers is the number of marks"); VF_ASSERT(pm[n].is_inlier == last, "matches past the end are left alone");
        VF_COVER("marked");
}
void hom_error(void)
{
        struct NXPointMatch2D pm[NM]; double h[9] = { 2, 0, 0, 0, 2, 0, 3, -1, 1 }, f = 0, b = 0; int n = NM, k = 0, kind = vf_pick("kind", 0, 2), c = vf_pick("axis", 0, 1); matches(pm, n, -1);
        for (int i = 0; i < n; ++i) { double t = anyd("miss", 8); for (int d = 0; d < 2; ++d) pm[i].xp[d] = 2 * pm[i].x[d] + h[6 + d] + (c == d ? t : 0); if (pm[i].is_inlier) { ++k; f += t < 0 ? -t : t; b += (t < 0 ? -t : t) / 2; } }
        VF_ASSUME(k > 0);
        double r = kind == 0 ? nx_homography_transfer_error_fwd(h, n, pm) : kind == 1 ? nx_homography_transfer_error_bwd(h, n, pm) : nx_homography_transfer_error_sym(h, n, pm);
        VF_EQF(r * k, kind == 0 ? f : kind == 1 ? b : 0.5 * (f + b), "the transfer error is the mean distance over the inliers");
        VF_COVER("error");
}
/* the same for a homography that is not a similarity, with concrete matches */
void hom_error_persp(void)
{
        struct NXPointMatch2D pm[NM]; double h[9], g[9], f = 0, b = 0; int n = NM, k = 0, kind = vf_pick("kind", 0, 2); hm(h, vf_pick("h", 0, 2)); matches(pm, n, -1);
        double d = h[0] * (h[4] * h[8] - h[5] * h[7]) - h[3] * (h[1] * h[8] - h[2] * h[7]) + h[6] * (h[1] * h[5] - h[2] * h[4]);
        for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { int r1 = (r + 1) % 3, r2 = (r + 2) % 3, c1 = (c + 1) % 3, c2 = (c + 2) % 3; g[3 * r + c] = (h[3 * c1 + r1] * h[3 * c2 + r2] - h[3 * c1 + r2] * h[3 * c2 + r1]) / d; }
        for (int i = 0; i < n; ++i) if (pm[i].is_inlier) {
                const float *p = pm[i].x, *q = pm[i].xp; double w = h[2] * p[0] + h[5] * p[1] + h[8], v = g[2] * q[0] + g[5] * q[1] + g[8];
                double dx = (h[0] * p[0] + h[3] * p[1] + h[6]) / w - q[0], dy = (h[1] * p[0] + h[4] * p[1] + h[7]) / w - q[1], bx = (g[0] * q[0] + g[3] * q[1] + g[6]) / v - p[0], by = (g[1] * q[0] + g[4] * q[1] + g[7]) / v - p[1];
                ++k; f += sqrt(dx * dx + dy * dy); b += sqrt(bx * bx + by * by);
        }
        VF_ASSUME(k > 0);
        double r = kind == 0 ? nx_homography_transfer_error_fwd(h, n, pm) : kind == 1 ? nx_homography_transfer_error_bwd(h, n, pm) : nx_homography_transfer_error_sym(h, n, pm);
        VF_EQF(r * k, kind == 0 ? f : kind == 1 ? b : 0.5 * (f + b), "the transfer error is the mean distance over the inliers");
        VF_COVER("error");
}
/* orientation and skew of the image of the square (+-1, +-1); scale and position do not matter */
void hom_check(void)
{
        static const double H[][4] = { { 3, 1, -0.5, 2 }, { 1, 0, 0, 1 }, { 1, 0, 6, 1 }, { 1, 0, 9, 1 }, { 0, 1, 1, 0 }, { 2, 1, 0.5, -1 }, { 1, 0.125, 0, 10 }, { 0, 3, -2, 1 } };
        double h[9] = { 0, 0, 0, 0, 0, 0, 0, 0, 1 }, s = anyd("scale", 64), m = vf_pick("angle", 0, 1) ? 0.96 : 0.5; const double *g = H[vf_pick("h", 0, 7)]; VF_ASSUME(s >= 0.01);
        h[0] = g[0] * s; h[1] = g[1] * s; h[3] = g[2] * s; h[4] = g[3] * s; h[6] = vf_pick("tx", 0, 1) * 7; h[7] = -h[6];
        int r = nx_homography_check(h, m) != 0;
        double det = g[0] * g[3] - g[1] * g[2], ax = g[0] + g[2], ay = g[1] + g[3], bx = g[0] - g[2], by = g[1] - g[3], dot = ax * bx + ay * by, na = ax * ax + ay * ay, nb = bx * bx + by * by, f = dot * dot - m * m * na * nb;
        if (det < 0) VF_ASSERT(!r, "a mirrored square is refused");
        else if (f > 0.01 * na * nb) VF_ASSERT(!r, "diagonals too close in direction are refused");
        else if (f < -0.01 * na * nb) VF_ASSERT(r, "an unmirrored square with its diagonals apart is accepted, at any scale");
        VF_COVER("checked");
}
/* DLT: the equations handed to the solver are those of the matches used, and its answer is read in the same order */
void hom_dlt(void)
{
        struct NXPointMatch2D pm[6]; double h[9]; int n = vf_pick("n", 3, 6), inl = vf_pick("inliers", 0, 1), used = 0, at[6]; int f = vf_pick("match", 0, 5); matches(pm, 6, -1); pm[f].xp[0] = anyf("xp", 8); pm[f].xp[1] = anyf("yp", 8); svd_cols = -1;
        for (int i = 0; i < 6; ++i) if (i > 1 && i != 4) VF_ASSUME(pm[i].is_inlier);
        for (int i = 0; i < 9; ++i) { svd_u[i] = anyd("u", 4); h[i] = 99; } svd_s = anyd("s", 4); VF_ASSUME(svd_s >= 0);
        double r = inl ? nx_homography_estimate_dlt_inliers(h, n, pm) : nx_homography_estimate_dlt(h, n, pm);
        for (int i = 0; i < n; ++i) if (!inl || pm[i].is_inlier) at[used++] = i;
        if (used < 4) { VF_ASSERT(svd_cols == -1 && r > 1e30, "fewer than four matches determine nothing"); return; }
        VF_ASSERT(svd_cols == 2 * used, "two equations for each match used"); VF_EQF(r, used > 4 ? svd_s : 0, "the residual is the last singular value, zero for a minimal sample");
        for (int k = 0; k < used; ++k) {
                const struct NXPointMatch2D *m = pm + at[k]; double X = h[0] * m->x[0] + h[3] * m->x[1] + h[6], Y = h[1] * m->x[0] + h[4] * m->x[1] + h[7], W = h[2] * m->x[0] + h[5] * m->x[1] + h[8];
                double e1 = 0, e2 = 0; for (int i = 0; i < 9; ++i) { e1 += svd_A[(2 * k) * 9 + i] * svd_u[i]; e2 += svd_A[(2 * k + 1) * 9 + i] * svd_u[i]; }
                VF_EQF(e1, m->xp[1] * W - Y, "the first equation of a match: it is transferred to the right height"); VF_EQF(e2, X - m->xp[0] * W, "the second equation of a match: it is transferred to the right column");
        }
        VF_COVER("linear estimate");
}
/* any draws of the random sampler: what is returned is what is marked */
static void scene(struct NXPointMatch2D *pm, int n, const double *h, int bad)
{
        static const float P[][2] = { { 0, 0 }, { 4, 0.5f }, { 4.5f, 5 }, { -0.5f, 4 }, { 2, 7 }, { 7, 2 } }; memset(pm, 0, n * sizeof *pm);
        for (int i = 0; i < n; ++i) { pm[i].x[0] = P[i][0]; pm[i].x[1] = P[i][1]; nx_homography_transfer_fwd(h, pm[i].xp, pm[i].x); if (i == bad) { pm[i].xp[0] += 3; pm[i].xp[1] -= 2; } pm[i].match_cost = (i * 3) % 5; pm[i].id = i; }
}
void hom_ransac(void)
{
        struct NXPointMatch2D pm[6]; double h[9], g[9]; int n = vf_pick("n", 3, RN), bad = vf_pick("outlier", -1, 1), k = 0, seen = 0, iter = vf_pick("iter", 0, ITER); hm(g, vf_pick("h", 0, 2)); scene(pm, n, g, bad); double tol = 0.25; vf_draw_n = n;
        for (int i = 0; i < 9; ++i) h[i] = 0.5 * i;
        int norm = vf_pick("normalised", 0, 1), r = norm ? nx_homography_estimate_norm_ransac(h, n, pm, tol, iter) : nx_homography_estimate_ransac(h, n, pm, tol, iter);
        if (n < 4 || iter == 0) VF_ASSERT(r == 0, "no hypothesis, no inliers");
        for (int i = 0; i < n; ++i) { seen |= 1 << pm[i].id; if (r > 0 && i > 0) VF_ASSERT(pm[i - 1].match_cost <= pm[i].match_cost, "matches come out in order of cost"); }
        VF_ASSERT(seen == (1 << n) - 1, "no match is lost");
        if (r > 0) {
                for (int i = 0; i < n; ++i) {
                        k += pm[i].is_inlier != 0; float q[2]; nx_homography_transfer_fwd(h, q, pm[i].x); double dx = q[0] - pm[i].xp[0], dy = q[1] - pm[i].xp[1], e = dx * dx + dy * dy - tol * tol;
                        if (e < -0.001) VF_ASSERT(pm[i].is_inlier, "a match the returned homography transfers is an inlier"); if (e > 0.001) VF_ASSERT(!pm[i].is_inlier, "a match it does not transfer is none");
                }
                VF_ASSERT(r == k, "the number returned is the number of inliers marked"); VF_COVER("found");
        }
        if (bad < 0 && n >= 4 && iter > 0) VF_ASSERT(r == n, "matches that all agree on one homography are all inliers, whichever sample was drawn");
}
void hom_normalize(void)
{
        struct NXPointMatch2D pm[3], o[3]; struct NXPointMatch2DStats *st = nx_point_match_2d_stats_new(); memset(pm, 0, sizeof pm); int n = vf_pick("n", 1, 3); double sx = 0, sy = 0, d = 0;
        static const float P[][2] = { { 1, 2 }, { 5, -1 }, { 3, 8 } }; int f = vf_pick("free", 0, 5);
        for (int i = 0; i < n; ++i) { for (int c = 0; c < 2; ++c) { pm[i].x[c] = P[i][c]; pm[i].xp[c] = P[(i + 1) % 3][c] * 0.5f; } pm[i].sigma_x = 1; pm[i].sigma_xp = 2; }
        float v = anyf("v", 16); VF_ASSUME(f < 4 || v > 0.1f);
        for (int i = 0; i < n; ++i) { if (f < 4) (f < 2 ? pm[i].x : pm[i].xp)[f & 1] += v; else for (int c = 0; c < 2; ++c) (f == 4 ? pm[i].x : pm[i].xp)[c] *= v; }
        for (int i = 0; i < n; ++i) o[i] = pm[i];
        nx_point_match_2d_stats_normalize_matches(st, n, pm);
        for (int side = 0; side < 2; ++side) {
                sx = sy = d = 0; for (int i = 0; i < n; ++i) { double k = side ? 0.5 : 1; const float *p = P[(i + side) % 3]; sx += k * p[0]; sy += k * p[1]; } sx /= n; sy /= n;
                for (int i = 0; i < n; ++i) { double k = side ? 0.5 : 1; const float *p = P[(i + side) % 3]; d += sqrt((k * p[0] - sx) * (k * p[0] - sx) + (k * p[1] - sy) * (k * p[1] - sy)); } d /= n;
                if (f == 4 + side) { sx *= v; sy *= v; d *= v; } else if (f / 2 == side) { if (f & 1) sy += v; else sx += v; }
                if (n == 1) d = 1;
                double D = side ? st->dp : st->d, r = D - d; VF_ASSERT((r < 0.01) & (r > -0.01), "the scale is the mean distance from the centroid, or one if there is none");
                double cx = side ? st->mp[0] : st->m[0], cy = side ? st->mp[1] : st->m[1]; VF_EQF(cx, sx, "the centre is the centroid"); VF_EQF(cy, sy, "the centre is the centroid");
                for (int i = 0; i < n; ++i) { const float *p = side ? o[i].xp : o[i].x, *q = side ? pm[i].xp : pm[i].x; VF_EQF(q[0] * D + sx, p[0], "normalised points are centred and scaled"); VF_EQF(q[1] * D + sy, p[1], "normalised points are centred and scaled"); VF_EQF((side ? pm[i].sigma_xp : pm[i].sigma_x) * D, side ? 2 : 1, "uncertainties scale with the points"); }
        }
        nx_point_match_2d_stats_denormalize_matches(st, n, pm);
        for (int i = 0; i < n; ++i) { for (int c = 0; c < 2; ++c) { VF_EQF(pm[i].x[c], o[i].x[c], "denormalising gives the points back"); VF_EQF(pm[i].xp[c], o[i].xp[c], "denormalising gives the points back"); } VF_EQF(pm[i].sigma_x, 1, "and their uncertainties"); VF_EQF(pm[i].sigma_xp, 2, "and their uncertainties"); }
        VF_COVER("normalised"); nx_point_match_2d_stats_free(st);
}
/* T'^-1 H T and T'^T F T for the normalising maps T, T' */
void hom_denorm(void)
{
        struct NXPointMatch2DStats st; double h[9], o[9]; int fund = vf_pick("fundamental", 0, 1), fx = vf_pick("fixed", 0, 1);
        st.m[0] = anyd("mx", 8); st.m[1] = anyd("my", 8); st.mp[0] = anyd("mpx", 8); st.mp[1] = anyd("mpy", 8); st.d = fx ? 2.5 : anyd("d", 8); st.dp = fx ? 0.4 : anyd("dp", 8); VF_ASSUME((st.d > 0.1) & (st.dp > 0.1));
        for (int i = 0; i < 9; ++i) o[i] = h[i] = anyd("h", 8);
        if (fund) nx_point_match_2d_stats_denormalize_fundamental(&st, h); else nx_point_match_2d_stats_denormalize_homography(&st, h);
        double s = 1 / st.d, sp = 1 / st.dp;
        double T[9] = { s, 0, 0, 0, s, 0, -st.m[0] * s, -st.m[1] * s, 1 }, L[9]; /* column-major */
        if (fund) { double a[9] = { sp, 0, -st.mp[0] * sp, 0, sp, -st.mp[1] * sp, 0, 0, 1 }; memcpy(L, a, sizeof L); } else { double a[9] = { st.dp, 0, 0, 0, st.dp, 0, st.mp[0], st.mp[1], 1 }; memcpy(L, a, sizeof L); }
        double M[9], R[9]; for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) { M[c * 3 + r] = 0; for (int j = 0; j < 3; ++j) M[c * 3 + r] += o[j * 3 + r] * T[c * 3 + j]; }
        for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) { R[c * 3 + r] = 0; for (int j = 0; j < 3; ++j) R[c * 3 + r] += L[j * 3 + r] * M[c * 3 + j]; }
        int e = vf_pick("entry", 0, 8);
        VF_EQF(h[e], R[e], "the transform of the original points is conjugated by the normalising maps");
        VF_COVER("denormalised");
}
