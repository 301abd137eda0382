/* C23: small matrices, vectors, rotations, quaternions */
#include "vf.h"
#include "virg/nexus/nx_vec.h"
#include "virg/nexus/nx_vec234.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_mat234.h"
#include "virg/nexus/nx_rotation_3d.h"
#include "virg/nexus/nx_quaternion.h"
#include <stdlib.h>
#include <math.h>
#ifndef MD
#define MD 3
#endif
#ifndef TD
#define TD 5
#endif
static double anyd(const char *n, double b) { double v = vf_d(n); VF_ASSUME((v >= -b) & (v <= b)); return v; }
static void fill(double *a, int n) { for (int i = 0; i < n; ++i) a[i] = anyd("m", 8); }
static void fillf(float *a, int n) { for (int i = 0; i < n; ++i) { a[i] = vf_f("m"); VF_ASSUME((a[i] >= -8.0f) & (a[i] <= 8.0f)); } }
static double dot3(const double *A, int r, const double *B, int c, int n) { double s = 0; for (int j = 0; j < n; ++j) s += A[j * n + r] * B[c * n + j]; return s; }

void alg_mul(void)
{
        double A[16], B[16], C[16]; float Af[16], Bf[16], Cf[16];
        int kind = vf_pick("kind", 0, 4), n = kind == 0 || kind == 2 || kind == 4 ? 3 : 4;
        if (kind < 2) {
                fillf(Af, n * n); fillf(Bf, n * n);
                if (kind == 0) nx_smat3_mul(Cf, Af, Bf); else nx_smat4_mul(Cf, Af, Bf);
                for (int i = 0; i < n * n; ++i) { A[i] = Af[i]; B[i] = Bf[i]; C[i] = Cf[i]; }
        } else {
                fill(A, n * n); fill(B, n * n);
                if (kind == 4) { A[1] = A[2] = A[5] = 0; double U[9]; for (int i = 0; i < 9; ++i) U[i] = A[i]; U[1] = U[2] = U[5] = 5.0; /* below the diagonal nothing is looked at */ nx_dmat3_mul_ua(C, U, B); }
                else if (kind == 2) nx_dmat3_mul(C, A, B); else nx_dmat4_mul(C, A, B);
        }
        for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) VF_EQF(C[c * n + r], dot3(A, r, B, c, n), "a product has the sums of products of rows and columns");
        VF_COVER("product");
}
void alg_mul_gen(void)
{
        int m = vf_pick("m", 1, MD), n = vf_pick("n", 1, MD), k = vf_pick("k", 1, MD), pad = vf_pick("pad", 0, 1);
        int la = m + pad, lb = k + pad, lc = m + 2 * pad;
        double *A = malloc(la * k * sizeof *A), *B = malloc(lb * n * sizeof *B), *C = malloc(lc * n * sizeof *C);
        fill(A, la * k); fill(B, lb * n); for (int i = 0; i < lc * n; ++i) C[i] = 77;
        nx_dmat_mul(m, n, k, A, la, B, lb, C, lc);
        for (int c = 0; c < n; ++c) {
                for (int r = 0; r < m; ++r) { double s = 0; for (int j = 0; j < k; ++j) s += A[j * la + r] * B[c * lb + j]; VF_EQF(C[c * lc + r], s, "a product has the sums of products of rows and columns"); }
                for (int r = m; r < lc; ++r) VF_ASSERT(C[c * lc + r] == 77, "padding between columns is left alone");
        }
        nx_dmat_set(m, n, C, lc, 3.0);
        for (int i = 0; i < lc * n; ++i) VF_ASSERT(C[i] == (i % lc < m ? 3.0 : 77), "setting a matrix writes its entries only");
        nx_dmat_set_zero(m, n, C, lc);
        for (int i = 0; i < lc * n; ++i) VF_ASSERT(C[i] == (i % lc < m ? 0.0 : 77), "clearing a matrix writes its entries only");
        VF_COVER("product");
        free(A); free(B); free(C);
}
void alg_transpose(void)
{
        int m = vf_pick("m", 1, TD), n = vf_pick("n", 1, TD);
        double *A = malloc(m * n * sizeof *A), B[TD * TD];
        fill(A, m * n); for (int i = 0; i < m * n; ++i) B[i] = A[i];
        nx_dmat_transpose(m, n, A);
        for (int c = 0; c < n; ++c) for (int r = 0; r < m; ++r) VF_ASSERT(A[r * n + c] == B[c * m + r], "entry (r,c) goes to (c,r)");
        VF_COVER("transposed");
        free(A);
}
void alg_inv(void)
{
        double A[9], I[9], det; int kind = vf_pick("kind", 0, 2), k = vf_pick("k", 0, 8);
        static const double K[9] = { 2, 1, -1, 0.5, 3, 0.25, -2, 1, 4 };
        for (int i = 0; i < 9; ++i) A[i] = i == k ? anyd("m", 8) : K[i];
        float Af[9], If[9]; for (int i = 0; i < 9; ++i) Af[i] = A[i];
        if (kind == 0) det = nx_dmat3_inv(I, A); else { det = kind == 1 ? nx_smat3_inv(If, Af) : nx_sdmat3_inv(If, Af); for (int i = 0; i < 9; ++i) I[i] = If[i]; }
        double d = nx_dmat3_det(A);
        double e = A[0] * A[4] * A[8] + A[3] * A[7] * A[2] + A[6] * A[1] * A[5] - A[6] * A[4] * A[2] - A[3] * A[1] * A[8] - A[0] * A[7] * A[5];
        VF_EQF(d, e, "the determinant"); VF_EQF(det, e, "inversion returns the determinant");
        if (e * e > 0.0001) { for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) VF_EQF(dot3(A, r, I, c, 3), r == c, "a matrix times its inverse is the identity"); VF_COVER("inverted"); }
}
void alg_inv_singular(void)
{
        double A[9], I[9]; float Af[9], If[9]; int kind = vf_pick("kind", 0, 2); double a = anyd("a", 8);
        for (int i = 0; i < 9; ++i) { A[i] = i < 6 ? 1.0 + i % 3 : i; } A[0] = A[3] = a; /* equal columns */
        for (int i = 0; i < 9; ++i) { Af[i] = A[i]; I[i] = If[i] = 5; }
        double det = kind == 0 ? nx_dmat3_inv(I, A) : kind == 1 ? nx_smat3_inv(If, Af) : nx_sdmat3_inv(If, Af);
        VF_ASSERT(det == 0.0, "a singular matrix has determinant zero");
        for (int i = 0; i < 9; ++i) VF_ASSERT(kind ? If[i] == 0.0f : I[i] == 0.0, "the inverse of a singular matrix is all zeros");
        VF_COVER("singular");
}
void alg_mat3(void)
{
        double A[9], B[9], C[9], x[3], y[3], v[3]; fill(A, 9); fill(B, 9); fill(x, 3); fill(y, 3);
        for (int i = 0; i < 3; ++i) v[i] = x[i];
        nx_dmat3_transform(A, v);
        for (int r = 0; r < 3; ++r) VF_EQF(v[r], A[r] * x[0] + A[3 + r] * x[1] + A[6 + r] * x[2], "transforming a vector multiplies it by the matrix");
        double s = 0, xh[3] = { x[0], x[1], 1 }, yh[3] = { y[0], y[1], 1 }; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) s += yh[r] * A[c * 3 + r] * xh[c];
        VF_EQF(nx_dmat3_xptFx(A, x, y), s, "the bilinear form of two plane points");
        for (int i = 0; i < 9; ++i) C[i] = A[i];
        nx_dmat3_sub(C, B); for (int i = 0; i < 9; ++i) VF_EQF(C[i], A[i] - B[i], "difference");
        nx_dmat3_copy(C, B); for (int i = 0; i < 9; ++i) VF_ASSERT(C[i] == B[i], "copy");
        double f = nx_dmat3_frob_norm(A), q = 0; for (int i = 0; i < 9; ++i) q += A[i] * A[i];
        VF_ASSERT(f >= 0, "a norm is not negative"); VF_EQF(f, sqrt(q), "Frobenius norm");
        nx_dmat3_eye(C); for (int i = 0; i < 9; ++i) VF_ASSERT(C[i] == (i % 4 == 0), "identity");
        double M[16], N[16]; nx_dmat4_eye(M); for (int i = 0; i < 16; ++i) VF_ASSERT(M[i] == (i % 5 == 0), "identity");
        fill(M, 16); for (int i = 0; i < 16; ++i) N[i] = M[i];
        nx_dmat4_set_rotation(M, A); nx_dmat4_set_translation(M, x);
        for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) VF_ASSERT(M[c * 4 + r] == (r == 3 ? N[c * 4 + r] : c == 3 ? x[r] : A[c * 3 + r]), "the rotation and translation parts are set, nothing else");
        VF_COVER("matrix operations");
}
void alg_vec(void)
{
        int n = vf_pick("n", 0, MD); double v[MD + 1], w[MD + 1], a = anyd("a", 8), s = 0; float f[MD + 1], g[MD + 1], fs = 0;
        fill(v, MD + 1); fill(w, MD + 1); fillf(f, MD + 1);
        for (int i = 0; i < n; ++i) { s += v[i] * v[i]; fs += f[i] * f[i]; }
        VF_EQF(nx_dvec_norm_sq(n, v), s, "squared norm"); VF_EQF(nx_svec_norm_sq(n, f), fs, "squared norm");
        VF_EQF(nx_dvec_norm(n, v), sqrt(s), "norm"); VF_EQF(nx_svec_norm(n, f), sqrtf(fs), "norm");
        double y[MD + 1]; for (int i = 0; i <= MD; ++i) y[i] = w[i];
        nx_dvec_axpy(n, y, a, v); for (int i = 0; i <= MD; ++i) VF_EQF(y[i], i < n ? w[i] + a * v[i] : w[i], "axpy");
        nx_dvec_copy(n, y, v); for (int i = 0; i < n; ++i) VF_ASSERT(y[i] == v[i], "copy");
        nx_dvec_set(n, y, a); for (int i = 0; i < n; ++i) VF_ASSERT(y[i] == a, "set");
        VF_EQF(y[n], w[n], "an element past the end is left alone");
        int k = nx_svec_max_idx(n, f); float m = nx_svec_max_val(n, f);
        if (n == 0) VF_ASSERT(k == -1, "an empty vector has no maximum");
        else { VF_ASSERT(k >= 0 && k < n, "the index of the maximum is an index"); for (int i = 0; i < n; ++i) VF_ASSERT(f[i] < f[k] || (f[i] == f[k] && i >= k), "the first of the largest elements"); VF_ASSERT(m == f[k], "the value of the maximum"); }
        for (int i = 0; i <= MD; ++i) g[i] = f[i];
        float nrm = sqrtf(fs), r = nx_svec_to_unit(n, g);
        VF_EQF(r, nrm, "normalising returns the norm");
        for (int i = 0; i < n; ++i) if (nrm != 0.0f) VF_EQF(g[i] * nrm, f[i], "a unit vector keeps its direction"); else VF_ASSERT(g[i] == f[i], "a zero vector stays");
        VF_COVER("vectors");
}
void alg_ivec(void)
{
        int n = vf_pick("n", 0, MD), v[MD + 1]; unsigned char a[MD + 1], b[MD + 1]; int s = 0;
        for (int i = 0; i <= MD; ++i) { v[i] = (int)vf_u32("i"); a[i] = vf_u8("a"); b[i] = vf_u8("b"); }
        for (int i = 0; i < n; ++i) { VF_ASSUME(v[i] != (-2147483647 - 1)); s += (a[i] - b[i]) * (a[i] - b[i]); }
        VF_ASSERT(nx_ucvec_dist_sq(n, a, b) == s, "squared distance of byte vectors");
        int k = nx_ivec_max_idx(n, v);
        if (n == 0) VF_ASSERT(k == -1, "an empty vector has no maximum");
        else { VF_ASSERT(k >= 0 && k < n, "the index of the maximum is an index"); for (int i = 0; i < n; ++i) VF_ASSERT(v[i] < v[k] || (v[i] == v[k] && i >= k), "the first of the largest elements"); }
        int last = v[n]; nx_ivec_set_zero(n, v); for (int i = 0; i < n; ++i) VF_ASSERT(v[i] == 0, "cleared"); VF_ASSERT(v[n] == last, "an element past the end is left alone");
        VF_COVER("integer vectors");
}
void alg_vec3(void)
{
        double a[3], b[3], c[3]; fill(a, 3); fill(b, 3); float f[4], g[3]; fillf(f, 3); fillf(g, 3);
        nx_dvec3_cross(c, a, b);
        for (int i = 0; i < 3; ++i) VF_EQF(c[i], a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3], "cross product");
        VF_EQF(nx_dvec3_dot(a, b), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "dot product");
        VF_EQF(nx_svec3_dot(f, g), f[0] * g[0] + f[1] * g[1] + f[2] * g[2], "dot product");
        VF_EQF(nx_svec3_dist_sq(f, g), (f[0] - g[0]) * (f[0] - g[0]) + (f[1] - g[1]) * (f[1] - g[1]) + (f[2] - g[2]) * (f[2] - g[2]), "squared distance");
        double s = a[0] * a[0] + a[1] * a[1] + a[2] * a[2]; VF_EQF(nx_dvec3_norm_sq(a), s, "squared norm"); VF_EQF(nx_dvec3_norm(a), sqrt(s), "norm");
        VF_EQF(nx_svec3_norm_sq(f), f[0] * f[0] + f[1] * f[1] + f[2] * f[2], "squared norm");
        double u[3] = { a[0], a[1], a[2] }, n = nx_dvec3_to_unit(u); VF_EQF(n, sqrt(s), "normalising returns the norm");
        for (int i = 0; i < 3; ++i) if (n != 0) VF_EQF(u[i] * n, a[i], "a unit vector keeps its direction"); else VF_ASSERT(u[i] == 0, "a zero vector stays");
        f[3] = vf_f("w"); VF_ASSUME((f[3] > 0.1f) & (f[3] < 8.0f)); float h[4] = { f[0], f[1], f[2], f[3] }, w = nx_svec4h_to_euclidean(h);
        VF_EQF(w, f[3], "dehomogenising returns the last coordinate"); VF_EQF(h[3], 1.0f, "last coordinate one"); for (int i = 0; i < 3; ++i) VF_EQF(h[i] * w, f[i], "a homogeneous point is divided by its last coordinate");
        VF_COVER("vectors");
}
static double angle(const char *n, int fixed, double a) { return fixed ? a : anyd(n, 4); }
static void rot(double *R, int axis, double t) { double c = cos(t), s = sin(t); int i = (axis + 1) % 3, j = (axis + 2) % 3; for (int k = 0; k < 9; ++k) R[k] = 0; R[axis * 4] = 1; R[i * 4] = c; R[j * 4] = c; R[i * 3 + j] = s; R[j * 3 + i] = -s; }
static void mul3(double *C, const double *A, const double *B) { for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) C[c * 3 + r] = dot3(A, r, B, c, 3); }
void alg_rot(void)
{
        int fx = vf_pick("fixed", 0, 1), kind = vf_pick("kind", 0, 1); double al = angle("alpha", fx, 0.5), be = angle("beta", fx, -1.2), ga = angle("gamma", fx, 2.3), R[9], X[9], Y[9], Z[9], T[9], Q[9];
        rot(X, 0, al); rot(Y, 1, be); rot(Z, 2, ga);
        if (kind) { nx_rotation_3d_RzRyRx(R, al, be, ga); mul3(T, Z, Y); mul3(Q, T, X); } else { nx_rotation_3d_RxRyRz(R, al, be, ga); mul3(T, X, Y); mul3(Q, T, Z); }
        for (int i = 0; i < 9; ++i) VF_EQF(R[i], Q[i], "the rotation is the product of the three axis rotations, in the order named");
        nx_rotation_3d_invert(R); for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) VF_EQF(R[c * 3 + r], Q[r * 3 + c], "the inverse of a rotation is its transpose");
        VF_COVER("rotation");
}
void alg_axis(void)
{
        int fx = vf_pick("fixed", 0, 1); double a[3], th = angle("theta", fx, 0.7), R[9], q[4]; fill(a, 3);
        if (fx) { int k = vf_pick("free", 0, 2); static const double K[3] = { 2, -1, 2 }; for (int i = 0; i < 3; ++i) if (i != k) a[i] = K[i]; }
        VF_ASSUME(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] > 0.01);
        double n = sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]), v[3] = { a[0] / n, a[1] / n, a[2] / n }, c = cos(th), s = sin(th);
        nx_rotation_3d_axis_angle(R, a, th);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double x = i == j ? 0 : (j - i + 3) % 3 == 1 ? -v[3 - i - j] : v[3 - i - j]; VF_EQF(R[j * 3 + i], (i == j ? c : 0) + s * x + (1 - c) * v[i] * v[j], "Rodrigues' formula for the unit axis"); }
        VF_ASSUME(th != 0.0);
        nx_quaternion_from_axis_angle(q, a, th);
        double ch = cos(th * 0.5), sh = sin(th * 0.5); VF_EQF(q[0], ch, "half the angle"); for (int i = 0; i < 3; ++i) VF_EQF(q[i + 1], v[i] * sh, "the unit axis");
        nx_quaternion_from_axis_angle(q, a, 0.0); for (int i = 0; i < 4; ++i) VF_EQF(q[i], i == 0, "no rotation");
        VF_COVER("axis and angle");
}
void alg_quat(void)
{
        double q[4], r[4], p[4], s[4], c = anyd("s", 8); fill(q, 4); fill(r, 4);
        static const int ix[4][4] = { { 0, 1, 2, 3 }, { 1, 0, 3, 2 }, { 2, 3, 0, 1 }, { 3, 2, 1, 0 } }; static const int sg[4][4] = { { 1, -1, -1, -1 }, { 1, 1, 1, -1 }, { 1, -1, 1, 1 }, { 1, 1, -1, 1 } };
        nx_quaternion_prod(p, q, r); for (int i = 0; i < 4; ++i) s[i] = q[i]; nx_quaternion_mul(s, r);
        for (int i = 0; i < 4; ++i) { double w = 0; for (int j = 0; j < 4; ++j) w += sg[i][j] * q[j] * r[ix[i][j]]; VF_EQF(p[i], w, "Hamilton's product"); VF_EQF(s[i], w, "Hamilton's product in place"); }
        nx_quaternion_sum(p, q, r); for (int i = 0; i < 4; ++i) s[i] = q[i]; nx_quaternion_add(s, r); for (int i = 0; i < 4; ++i) { VF_EQF(p[i], q[i] + r[i], "sum"); VF_EQF(s[i], q[i] + r[i], "sum in place"); }
        for (int i = 0; i < 4; ++i) s[i] = q[i]; nx_quaternion_conj(s); for (int i = 0; i < 4; ++i) VF_EQF(s[i], i ? -q[i] : q[i], "conjugate");
        for (int i = 0; i < 4; ++i) s[i] = q[i]; nx_quaternion_scale(s, c); for (int i = 0; i < 4; ++i) VF_EQF(s[i], c * q[i], "scaled");
        double d = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]; VF_EQF(nx_quaternion_dot(q, r), q[0] * r[0] + q[1] * r[1] + q[2] * r[2] + q[3] * r[3], "dot product");
        VF_ASSUME(d > 0.01); for (int i = 0; i < 4; ++i) s[i] = q[i]; double n = nx_quaternion_to_unit(s); VF_EQF(n, sqrt(d), "normalising returns the norm"); for (int i = 0; i < 4; ++i) VF_EQF(s[i] * n, q[i], "a unit quaternion keeps its direction");
        VF_COVER("quaternions");
}
/* q v q* is what rotating by q does, and for unit q what multiplying by its matrix does */
void alg_qrot(void)
{
        double q[4], v[3], x[4] = { 0 }, w[3], R[9]; fill(q, 4); fill(v, 3);
        for (int i = 0; i < 3; ++i) { w[i] = v[i]; x[i + 1] = v[i]; }
        nx_quaternion_rotate(q, w);
        double c[4] = { q[0], -q[1], -q[2], -q[3] }, p[4], z[4]; nx_quaternion_prod(p, q, x); nx_quaternion_prod(z, p, c);
        for (int i = 0; i < 3; ++i) VF_EQF(w[i], z[i + 1], "rotating a vector is q v conj(q)");
        nx_quaternion_to_R(q, R); double d = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
        /* for any q the matrix acts as q v q* plus (1 - |q|^2) v */
        for (int i = 0; i < 3; ++i) VF_EQF(R[i] * v[0] + R[3 + i] * v[1] + R[6 + i] * v[2], z[i + 1] + (1 - d) * v[i], "the matrix of a unit quaternion rotates as it does");
        double q7[7], t[3], S[9]; for (int i = 0; i < 4; ++i) q7[i] = q[i]; for (int i = 0; i < 3; ++i) q7[4 + i] = v[i];
        nx_quaternion_to_Rt(q7, S, t); for (int i = 0; i < 9; ++i) VF_EQF(S[i], R[i], "the rotation of a pose"); for (int i = 0; i < 3; ++i) VF_EQF(t[i], v[i], "the translation of a pose");
        VF_COVER("rotation by a quaternion");
}
/* back from the matrix. 4 q_i q_j is a known sum of entries of the matrix of a unit quaternion: the result must agree on all products with one component, and one that is not small;
 * for a rotation matrix that makes it the quaternion of the rotation, up to sign. */
void alg_from_R(void)
{
        double R[9], p[4] = { 0 }; int ok = 0;
        static const double DG[][3] = { { 0.5, 0.75, -0.25 }, { 0.9, -0.2, -0.8 }, { -0.7, 0.3, -0.6 }, { -0.9, -0.75, 0.5 }, { -0.3, -0.3, -0.3 }, { 0.6, 0.6, -1 }, { 0.95, -0.9, -0.95 }, { 0.95, -0.95, -0.9 }, { -0.9, 0.95, -0.95 }, { -0.95, 0.95, -0.9 }, { -0.9, -0.95, 0.95 }, { -0.95, -0.9, 0.95 } };
        int g = vf_pick("diagonal", 0, 12); /* a fixed diagonal under any entries off it, or any diagonal alone */
        for (int i = 0; i < 9; ++i) R[i] = i % 4 == 0 ? (g < 12 ? DG[g][i / 4] : anyd("r", 1)) : g < 12 ? anyd("r", 1) : 0;
        double a = R[0], b = R[4], c = R[8];
        const double P[4][4] = { { 1 + a + b + c, R[5] - R[7], R[6] - R[2], R[1] - R[3] }, { R[5] - R[7], 1 + a - b - c, R[1] + R[3], R[6] + R[2] }, { R[6] - R[2], R[1] + R[3], 1 - a + b - c, R[5] + R[7] }, { R[1] - R[3], R[6] + R[2], R[5] + R[7], 1 - a - b + c } };
        nx_quaternion_from_R(p, R);
        for (int k = 0; k < 4; ++k) {
                int all = P[k][k] >= 0.2;
                for (int j = 0; j < 4; ++j) { double d = 4 * p[k] * p[j] - P[k][j]; all &= (d <= 1e-3) & (d >= -1e-3); }
                ok |= all;
        }
        VF_ASSERT(ok, "a rotation matrix gives back its unit quaternion, up to sign");
        VF_COVER("quaternion from matrix");
}
