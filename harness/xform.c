/* C22: planar transforms */
#include "vf.h"
#include "virg/nexus/nx_transform_2d.h"
#include <math.h>

static double anyd(const char *n, double b) { double v = vf_d(n); VF_ASSUME((v >= -b) & (v <= b)); return v; }
/* any angle (its sine and cosine any point of the circle), or a fixed one, so that a failure also shows in a run of the real code */
static double angle(const char *n, int fixed, double a, double b) { return fixed ? a : anyd(n, b); }
/* r = a * b, column-major 3x3 */
static void mul(double *r, const double *a, const double *b) { for (int c = 0; c < 3; ++c) for (int k = 0; k < 3; ++k) { r[c * 3 + k] = 0; for (int i = 0; i < 3; ++i) r[c * 3 + k] += a[i * 3 + k] * b[c * 3 + i]; } }
static void trans(double *t, double dx, double dy) { for (int i = 0; i < 9; ++i) t[i] = i % 4 == 0; t[6] = dx; t[7] = dy; }
static void rot(double *t, double a) { double c = cos(a), s = sin(a); trans(t, 0, 0); t[0] = c; t[1] = s; t[3] = -s; t[4] = c; }
static void scale(double *t, double x, double y) { trans(t, 0, 0); t[0] = x; t[4] = y; }

void xf_similarity(void)
{
        int f = vf_pick("float", 0, 1);
        double xo = anyd("xo", 100), yo = anyd("yo", 100), l = anyd("l", 8), th = angle("th", vf_pick("fixed", 0, 1), 0.6, 4), xi = anyd("xi", 100), yi = anyd("yi", 100);
        double t[9], a[9], b[9], m[9], n[9];
        if (f) { float tf[9]; for (int i = 0; i < 9; ++i) tf[i] = 7; nx_transform_2d_fill_similarity_s(tf, xo, yo, l, th, xi, yi); for (int i = 0; i < 9; ++i) t[i] = tf[i]; }
        else nx_transform_2d_fill_similarity_d(t, xo, yo, l, th, xi, yi);
        trans(a, xo, yo); scale(b, l, l); mul(m, a, b); rot(a, th); mul(n, m, a); trans(a, xi, yi); mul(m, n, a);
        int e = vf_pick("entry", 0, 8);
        VF_EQF(t[e], m[e], "the similarity is T(post) scale R(theta) T(pre)");
        VF_COVER("similarity");
}
void xf_affine(void)
{
        int f = vf_pick("float", 0, 1), fx = vf_pick("fixed", 0, 1);
        double xo = anyd("xo", 100), yo = anyd("yo", 100), l = anyd("l", 8), psi = angle("psi", fx, 0.6, 4), th = angle("th", fx, 0.9, 1.5), phi = angle("phi", fx, 2.2, 4), xi = anyd("xi", 100), yi = anyd("yi", 100);
        double t[9], a[9], b[9], m[9], n[9], k = cos(th);
        VF_ASSUME(k > 0.01);
        if (f) { float tf[9]; for (int i = 0; i < 9; ++i) tf[i] = 7; nx_transform_2d_fill_affine_s(tf, xo, yo, l, psi, th, phi, xi, yi); for (int i = 0; i < 9; ++i) t[i] = tf[i]; }
        else nx_transform_2d_fill_affine_d(t, xo, yo, l, psi, th, phi, xi, yi);
        trans(a, xo, yo); scale(b, l, l); mul(m, a, b); rot(a, psi); mul(n, m, a); scale(a, 1.0 / k, 1); mul(m, n, a); rot(a, phi); mul(n, m, a); trans(a, xi, yi); mul(m, n, a);
        int e = vf_pick("entry", 0, 8);
        VF_EQF(t[e], m[e], "the affinity is T(post) scale R(psi) tilt R(phi) T(pre)");
        VF_COVER("affine");
}
/* one coordinate of a quadrilateral anything, the others fixed: its corners go to those of the unit square */
void xf_perspective(void)
{
        static const double q[][8] = { { 0, 0, 1, 0, 1, 1, 0, 1 }, { 1, 2, 5, 1, 6, 6, 0, 5 }, { 3, 1, 9, 4, 5, 8, -2, 3 } };
        double c[8], t[9], det; float cf[8], tf[9]; int f = vf_pick("float", 0, 1), b = vf_pick("quad", 0, 2), v = vf_pick("free", 0, 7), p = vf_pick("corner", 0, 3);
        for (int i = 0; i < 8; ++i) c[i] = q[b][i];
        c[v] += anyd("shift", 0.75);
        if (f) { for (int i = 0; i < 8; ++i) cf[i] = c[i]; det = nx_transform_2d_fill_perspective_s(tf, cf); for (int i = 0; i < 9; ++i) t[i] = tf[i]; }
        else det = nx_transform_2d_fill_perspective_d(t, c);
        VF_ASSUME(det * det > 0.0001);
        double x = c[2 * p], y = c[2 * p + 1], w = t[2] * x + t[5] * y + t[8], ux = p == 1 || p == 2, uy = p >= 2;
        VF_EQF(t[0] * x + t[3] * y + t[6], ux * w, "the corners go to those of the unit square, in order");
        VF_EQF(t[1] * x + t[4] * y + t[7], uy * w, "the corners go to those of the unit square, in order");
        VF_COVER("perspective");
}
