/* C25: epipolar geometry */
#include "vf.h"
#include "rnd.h"
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_svd.h"
#include <math.h>
#include <string.h>
#ifndef NM
#define NM 2
#endif
#ifndef ITER
#define ITER 1
#endif
#ifndef FIXED
#define FIXED 6
#endif
static double anyd(const char *n, double b) { double v = vf_d(n); VF_ASSUME((v >= -b) & (v <= b)); return v; }
static float anyf(const char *n, double b) { float v = vf_f(n); VF_ASSUME((v >= -b) & (v <= b)); return v; }

/* LAPACK stands apart: what it is asked is recorded, and it answers what the harness chooses */
static double svd_A[9 * 12], svd_u[9], svd_s, F_in[9], U3[9], S3[3], V3[9]; static int svd_cols, svd3, ransac; static double Fcand[2][9];
static double prod(const double *a, const double *b) { double r = 0; for (int i = 0; i < 9; ++i) r += a[i] * b[i]; return r; }
void nx_dsvd_us(double *U, int ldU, double *S, int m, int n, double *A, int ldA)
{
        VF_ASSERT(m == 9 && ldA >= 9 && ldU >= 9 && n <= 12 && n >= 8, "the constraints are nine long, at least eight"); svd_cols = n;
        for (int j = 0; j < n; ++j) for (int i = 0; i < 9; ++i) svd_A[j * 9 + i] = A[j * ldA + i];
        if (ransac) { for (int j = 0; j < n; ++j) for (int k = 0; k < j; ++k) { int same = 1; for (int i = 0; i < 9; ++i) same &= svd_A[j * 9 + i] == svd_A[k * 9 + i]; VF_ASSERT(!same, "a sample is made of different matches"); } int c = vf_pick("candidate", 0, 1); for (int r = 0; r < 3; ++r) for (int q = 0; q < 3; ++q) svd_u[3 * r + q] = Fcand[c][3 * q + r]; }
        for (int j = 0; j < 9; ++j) { if (j < n) S[j] = j == 8 ? svd_s : 9 - j; for (int i = 0; i < 9; ++i) U[j * ldU + i] = j == 8 ? svd_u[i] : 0.1 * i - j; }
}
void nx_dsvd_usvt(double *U, int ldU, double *S, double *Vt, int ldVt, int m, int n, double *A, int ldA)
{
        VF_ASSERT(m == 3 && n == 3 && ldU == 3 && ldVt == 3 && ldA == 3, "three by three"); ++svd3; for (int i = 0; i < 9; ++i) F_in[i] = A[i];
        if (ransac) { for (int i = 0; i < 9; ++i) { U[i] = A[i]; Vt[i] = i % 4 == 0; } for (int i = 0; i < 3; ++i) S[i] = 1; U[6] = U[7] = U[8] = 0; for (int i = 0; i < 9; ++i) A[i] = -7; /* candidates have their last column zero */ return; }
        for (int i = 0; i < 9; ++i) { U[i] = U3[i]; Vt[i] = V3[i]; A[i] = -7; } for (int i = 0; i < 3; ++i) S[i] = S3[i];
}
static void fm(double *f, int k) { static const double F[][9] = { { 0, 0, 0, 0, 0, -1, 0, 1, 0 }, { 0.25, -1, 0.5, 1, 0.75, -0.25, -0.5, 2, 1 }, { 1, 2, 3, 4, 5, 6, 7, 8, 10 } }; for (int i = 0; i < 9; ++i) f[i] = F[k][i]; }
static void matches(struct NXPointMatch2D *pm, int n, int free) { memset(pm, 0, n * sizeof *pm); for (int i = 0; i < n; ++i) { pm[i].x[0] = i + 0.5f; pm[i].x[1] = 1 - 0.5f * i * i; pm[i].xp[0] = 2 + i; pm[i].xp[1] = 1.5f * i - 0.25f; pm[i].is_inlier = 1; pm[i].id = i; } if (free >= 0) pm[free / 2].xp[free & 1] = anyf("coordinate", 8); }

/* distance of x' from the line F x */
void epi_distance(void)
{
        struct NXPointMatch2D pm; double f[9]; matches(&pm, 1, -1); int k = vf_pick("free", 0, 12), b = vf_pick("f", 0, 2); fm(f, b);
        if (k < 9) f[k] = anyd("f", 8); else if (k < 11) pm.x[k - 9] = anyf("x", 8); else pm.xp[k - 11] = anyf("xp", 8);
        double l0 = f[0] * pm.x[0] + f[3] * pm.x[1] + f[6], l1 = f[1] * pm.x[0] + f[4] * pm.x[1] + f[7], l2 = f[2] * pm.x[0] + f[5] * pm.x[1] + f[8], q = l0 * l0 + l1 * l1; VF_ASSUME(q > 0.1);
        double d = nx_fundamental_epipolar_distance_fwd(f, &pm), e = l0 * pm.xp[0] + l1 * pm.xp[1] + l2;
        VF_ASSERT(d >= 0, "a distance is not negative"); VF_EQF(d * sqrt(q), e < 0 ? -e : e, "the distance of the match from its epipolar line"); VF_COVER("distance");
}
void epi_mark(void)
{
        struct NXPointMatch2D pm[NM + 1]; double f[9], tol; int n = vf_pick("n", 0, NM), free = vf_pick("free", -1, 2 * NM - 1), k = 0; fm(f, vf_pick("f", 0, 1)); VF_ASSUME(free < 2 * n);
        tol = free < 0 ? anyd("tol", 8) : 0.75; VF_ASSUME(tol >= 0); matches(pm, NM + 1, free); for (int i = 0; i <= NM; ++i) pm[i].is_inlier = vf_pick("marked", 0, 1); int last = pm[n].is_inlier;
        int r = nx_fundamental_mark_inliers(f, n, pm, tol);
        for (int i = 0; i < n; ++i) {
                const float *x = pm[i].x, *y = pm[i].xp; double l0 = f[0] * x[0] + f[3] * x[1] + f[6], l1 = f[1] * x[0] + f[4] * x[1] + f[7], l2 = f[2] * x[0] + f[5] * x[1] + f[8], e = l0 * y[0] + l1 * y[1] + l2, q = l0 * l0 + l1 * l1;
                double g = e * e - tol * tol * q; if (g < -0.01) VF_ASSERT(pm[i].is_inlier, "a match near its epipolar line is an inlier"); if (g > 0.01) VF_ASSERT(!pm[i].is_inlier, "a match far from its epipolar line is none");
                k += pm[i].is_inlier != 0; VF_ASSERT(pm[i].id == (uint64_t)i, "marking moves no match");
        }
        VF_ASSERT(r == k, "the number of inliers is the number of marks"); VF_ASSERT(pm[n].is_inlier == last, "matches past the end are left alone"); VF_COVER("marked");
}
/* the linear estimate: one equation x'^T F x = 0 for each match used; the answer has its smallest singular value removed */
void epi_equations(void)
{
        struct NXPointMatch2D pm[10]; double F[9]; int kind = vf_pick("kind", 0, 2), n = vf_pick("n", 7, 10), used = 0, at[10], f = vf_pick("match", 0, 9); static int ids[2][8] = { { 7, 3, 1, 0, 2, 6, 5, 4 }, { 9, 8, 1, 2, 3, 4, 5, 0 } }; int *id = ids[vf_pick("ids", 0, 1)];
        if (kind == 0) VF_ASSUME(n == 10); else VF_ASSUME(id == ids[0]);
        matches(pm, 10, -1); pm[f].xp[0] = anyf("xp", 8); pm[f].xp[1] = anyf("yp", 8); pm[f].x[0] = anyf("x", 8); svd_cols = -1; svd3 = 0; ransac = 0;
        if (kind == 2) { pm[1].is_inlier = vf_pick("marked", 0, 1); pm[4].is_inlier = vf_pick("marked", 0, 1); pm[9].is_inlier = vf_pick("marked", 0, 1); }
        for (int i = 0; i < 9; ++i) { svd_u[i] = anyd("u", 4); F[i] = 99; U3[i] = anyd("U", 4); V3[i] = anyd("V", 4); } for (int i = 0; i < 3; ++i) S3[i] = anyd("S", 4); svd_s = anyd("s", 4); VF_ASSUME(svd_s >= 0);
        double r = kind == 0 ? nx_fundamental_estimate_8pt(F, id, pm) : kind == 1 ? nx_fundamental_estimate(F, n, pm) : nx_fundamental_estimate_inliers(F, n, pm);
        if (kind == 0) for (int i = 0; i < 8; ++i) at[used++] = id[i]; else for (int i = 0; i < n; ++i) if (kind == 1 || pm[i].is_inlier) at[used++] = i;
        if (used < 8) { VF_ASSERT(svd_cols == -1 && r > 1e30 && F[4] == 99, "fewer than eight matches determine nothing"); return; }
        VF_ASSERT(svd_cols == used && svd3 == 1, "one equation for each match used"); VF_EQF(r, used > 8 ? svd_s : 0, "the residual is the last singular value, zero for a minimal sample");
        for (int k = 0; k < used; ++k) {
                const float *x = pm[at[k]].x, *y = pm[at[k]].xp; const double *M = F_in;
                double e = y[0] * (M[0] * x[0] + M[3] * x[1] + M[6]) + y[1] * (M[1] * x[0] + M[4] * x[1] + M[7]) + M[2] * x[0] + M[5] * x[1] + M[8];
                VF_EQF(prod(svd_A + 9 * k, svd_u), e, "the equation of a match is its epipolar constraint");
        }
        for (int c = 0; c < 3; ++c) for (int q = 0; q < 3; ++q) VF_EQF(F[3 * c + q], U3[q] * S3[0] * V3[3 * c] + U3[3 + q] * S3[1] * V3[3 * c + 1], "the estimate has the smallest singular value removed");
        VF_COVER("linear estimate");
}
void epi_essential(void)
{
        double F[9], K[9] = { 0 }, P[9] = { 0 }, E[9]; for (int i = 0; i < 9; ++i) { F[i] = anyd("f", 4); E[i] = 99; }
        static const int up[5] = { 0, 3, 4, 6, 7 }; for (int i = 0; i < 5; ++i) { K[up[i]] = anyd("k", 4); P[up[i]] = anyd("kp", 4); } K[8] = P[8] = 1;
        nx_essential_from_fundamental(E, F, K, P);
        for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) { double v = 0; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) v += P[3 * r + a] * F[3 * b + a] * K[3 * c + b]; VF_EQF(E[3 * c + r], v, "the essential matrix is K'^T F K"); }
        VF_COVER("essential");
}
void epi_Rt(void)
{
        double R[9], t[3], E[9]; for (int i = 0; i < 9; ++i) R[i] = anyd("r", 4); for (int i = 0; i < 3; ++i) t[i] = anyd("t", 4);
        nx_essential_from_Rt(E, R, t);
        for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) { int a = (r + 1) % 3, b = (r + 2) % 3; VF_EQF(E[3 * c + r], t[a] * R[3 * c + b] - t[b] * R[3 * c + a], "the essential matrix is [t]x R"); }
        VF_COVER("from rotation and translation");
}
static void rot(double *r, int k, double c, double s)
{
        static const double B[][9] = { { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 2 / 3., 2 / 3., 1 / 3., -2 / 3., 1 / 3., 2 / 3., 1 / 3., -2 / 3., 2 / 3. }, { 0, 0, 1, 1, 0, 0, 0, 1, 0 }, { -1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 0.6, 0.8, 0, 0.8, -0.6, 0, 0, 0, 1 } };
        for (int i = 0; i < 3; ++i) { r[i] = c * B[k][i] + s * B[k][3 + i]; r[3 + i] = -s * B[k][i] + c * B[k][3 + i]; r[6 + i] = B[k][6 + i]; }
}
/* the four poses: proper rotations and unit translations that give E back up to sign */
void epi_decompose(void)
{
        double R[4][9], t[4][3], *Rp[4] = { R[0], R[1], R[2], R[3] }, *tp[4] = { t[0], t[1], t[2], t[3] }, E[9]; static const double cs[][2] = { { 1, 0 }, { 0.6, 0.8 }, { -0.8, 0.6 }, { 5 / 13., -12 / 13. } };
        const double *q = cs[vf_pick("turn", 0, 3)]; rot(U3, vf_pick("U", 0, 4), q[0], q[1]); double V[9]; rot(V, vf_pick("V", 0, 4), q[1], q[0]); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) V3[3 * i + j] = V[3 * j + i];
        double s = anyd("s", 8), s2 = anyd("s2", 1); VF_ASSUME(s >= 0.5 && s2 >= 0); S3[0] = S3[1] = s; S3[2] = s2; ransac = 0;
        for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) E[3 * c + r] = s * (U3[r] * V3[3 * c] + U3[3 + r] * V3[3 * c + 1]);
        double res = nx_essential_decompose_to_Rt(E, Rp, tp); for (int i = 0; i < 9; ++i) VF_EQF(F_in[i], E[i], "it is the given matrix that is decomposed"); VF_EQF(res, s2, "the residual is the smallest singular value");
        for (int k = 0; k < 4; ++k) {
                const double *r = R[k]; double det = r[0] * (r[4] * r[8] - r[5] * r[7]) - r[3] * (r[1] * r[8] - r[2] * r[7]) + r[6] * (r[1] * r[5] - r[2] * r[4]); VF_EQF(det, 1, "poses have proper rotations");
                for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) VF_EQF(r[3 * a] * r[3 * b] + r[3 * a + 1] * r[3 * b + 1] + r[3 * a + 2] * r[3 * b + 2], a == b, "poses have orthonormal rotations");
                double G[9], f = 0; for (int c = 0; c < 3; ++c) for (int i = 0; i < 3; ++i) { int a = (i + 1) % 3, b = (i + 2) % 3; G[3 * c + i] = t[k][a] * r[3 * c + b] - t[k][b] * r[3 * c + a]; f += G[3 * c + i] * E[3 * c + i]; }
                int pos = f > 0; for (int i = 0; i < 9; ++i) VF_EQF(pos ? G[i] * s : -G[i] * s, E[i], "each pose gives the essential matrix back, up to sign");
                for (int j = 0; j < k; ++j) { double d = 0; for (int i = 0; i < 9; ++i) d += fabs(R[j][i] - R[k][i]); for (int i = 0; i < 3; ++i) d += fabs(t[j][i] - t[k][i]); VF_ASSERT(d > 0.1, "the four poses differ"); }
        }
        VF_COVER("decomposed");
}
/* points in front of both cameras single out the true pose */
void epi_pick(void)
{
        static const double T[][3] = { { 1, 0, 0 }, { 0, 0.6, 0.8 }, { -0.6, 0, 0.8 }, { 0, 0, -1 } }, cs[][2] = { { 1, 0 }, { 0.96, 0.28 }, { 0.96, -0.28 } };
        int order = vf_pick("order", 0, 3), k = vf_pick("t", 0, 3), a = vf_pick("turn", 0, 2), axis = vf_pick("axis", 0, 1), sum = -77; double R0[9] = { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, R1[9], t[3], c = cs[a][0], s = cs[a][1], m[3];
        if (axis) { R0[0] = c; R0[2] = s; R0[6] = -s; R0[8] = c; } else { R0[0] = c; R0[1] = s; R0[3] = -s; R0[4] = c; }
        for (int i = 0; i < 3; ++i) { t[i] = T[k][i]; m[i] = -t[i]; } /* the twisted pair: turned by pi about t */
        for (int j = 0; j < 3; ++j) { double d = t[0] * R0[3 * j] + t[1] * R0[3 * j + 1] + t[2] * R0[3 * j + 2]; for (int i = 0; i < 3; ++i) R1[3 * j + i] = 2 * d * t[i] - R0[3 * j + i]; }
        const double *R[4], *tt[4]; for (int i = 0; i < 4; ++i) { int w = (i + order) % 4; R[i] = w < 2 ? R0 : R1; tt[i] = w & 1 ? m : t; }
        struct NXPointMatch2D pm[2]; memset(pm, 0, sizeof pm); int n = vf_pick("n", 1, 2); double p[2][3] = { { 0.5, -1, 4 }, { -1, 1.5, 6 } }; double d = 0.5 * vf_pick("x", -3, 3); p[n - 1][vf_pick("coordinate", 0, 1)] += d;
        for (int i = 0; i < n; ++i) { double X[3]; for (int j = 0; j < 3; ++j) { X[j] = t[j]; for (int q = 0; q < 3; ++q) X[j] += R0[3 * q + j] * p[i][q]; } VF_ASSUME(X[2] > 1); pm[i].x[0] = p[i][0] / p[i][2]; pm[i].x[1] = p[i][1] / p[i][2]; pm[i].xp[0] = X[0] / X[2]; pm[i].xp[1] = X[1] / X[2];
                double ux = t[1] * X[2] - t[2] * X[1], uy = t[2] * X[0] - t[0] * X[2], uz = t[0] * X[1] - t[1] * X[0]; VF_ASSUME(ux * ux + uy * uy + uz * uz > 0.1); /* not on the line of the two centres */ }
        int r = nx_epipolar_pick_best_Rt(R, tt, n, pm, &sum); VF_ASSERT(r == (4 - order) % 4, "the pose with the points in front of both cameras is picked"); VF_ASSERT(sum == 2 * n, "and all signs of depth are positive there"); VF_COVER("picked");
}
/* any draws and answers: what is returned is what is marked */
void epi_ransac(void)
{
        struct NXPointMatch2D pm[9]; double F[9]; int n = vf_pick("n", 7, 9), iter = vf_pick("iter", 0, ITER), norm = vf_pick("normalised", 0, 1), k = 0, seen = 0; double tol = 0.5; memset(pm, 0, sizeof pm); vf_draw_n = n; vf_draw_fix = FIXED; ransac = 1;
        static const double C[2][9] = { { 0.25, 0.5, -0.5, 1, 0.5, 0.25 }, { 1, 0, 3, 0, 1, -2 } }; memcpy(Fcand, C, sizeof C);
        for (int i = 0; i < n; ++i) { double x = (i * 5) % 7 - 3 + 0.25 * i, y = (i * 3) % 5 - 2 - 0.5 * i, l0 = C[0][0] * x + C[0][3] * y, l1 = C[0][1] * x + C[0][4] * y, l2 = C[0][2] * x + C[0][5] * y; pm[i].x[0] = x; pm[i].x[1] = y; double q = l0 * l0 + l1 * l1, off = (i % 3 == 1) * 2.5 / sqrt(q), g = (-l2 + i) / q; /* on its line, or 2.5 away */ pm[i].xp[0] = -l2 / q * l0 - g * l1 + off * l0; pm[i].xp[1] = -l2 / q * l1 + g * l0 + off * l1; pm[i].match_cost = (i * 4) % 9; pm[i].id = i; pm[i].is_inlier = 1; }
        for (int i = 0; i < 9; ++i) F[i] = 0.5 * i;
        int r = norm ? nx_fundamental_estimate_norm_ransac(F, n, pm, tol, iter) : nx_fundamental_estimate_ransac(F, n, pm, tol, iter);
        if (n < 8 || iter == 0) VF_ASSERT(r == 0, "no hypothesis, no inliers");
        for (int i = 0; i < n; ++i) { seen |= 1 << pm[i].id; if (n >= 8 && i) VF_ASSERT(pm[i - 1].match_cost <= pm[i].match_cost, "matches come out in order of cost"); k += pm[i].is_inlier != 0; }
        VF_ASSERT(seen == (1 << n) - 1, "no match is lost"); if (n >= 8) VF_ASSERT(r == k, "the number returned is the number of inliers marked");
        if (r > 0 && !norm) for (int i = 0; i < n; ++i) {
                const float *x = pm[i].x, *y = pm[i].xp; double l0 = F[0] * x[0] + F[3] * x[1] + F[6], l1 = F[1] * x[0] + F[4] * x[1] + F[7], e = l0 * y[0] + l1 * y[1] + F[2] * x[0] + F[5] * x[1] + F[8], q = l0 * l0 + l1 * l1, g = e * e - tol * tol * q;
                if (g < -0.001) VF_ASSERT(pm[i].is_inlier, "a match near its line of the returned matrix is an inlier"); if (g > 0.001) VF_ASSERT(!pm[i].is_inlier, "a match far from it is none");
        }
        if (r > 0) VF_COVER("found");
}
