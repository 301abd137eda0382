/* C27: universal sample consensus */
#include "vf.h"
#include "rnd.h"
#include "virg/nexus/nx_usac.h"
#include "virg/nexus/nx_usac_homography.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_svd.h"
#include <math.h>
#include <string.h>
#include <stdlib.h>
#ifndef ITER
#define ITER 2
#endif
#ifndef MODELS
#define MODELS 2
#endif
#ifndef RN
#define RN 5
#endif
#define IDS (2 * ITER * MODELS + 4)
void nx_dsvd_us(double *U, int ldU, double *S, int m, int n, double *A, int ldA) { (void)U; (void)ldU; (void)S; (void)m; (void)n; (void)A; (void)ldA; VF_ASSERT(0, "too few inliers to ask for a linear estimate"); }
void nx_dsvd_usvt(double *U, int ldU, double *S, double *Vt, int ldVt, int m, int n, double *A, int ldA) { (void)U; (void)ldU; (void)S; (void)Vt; (void)ldVt; (void)m; (void)n; (void)A; (void)ldA; VF_ASSERT(0, "not asked for"); }

static int iters, limit, made, sampled, scored, token, over; static double score_of[IDS], best_so_far; static int best_id, checked[IDS], good[IDS], refined_from[IDS];
#define ID(m) ((int)(m)[1])
static int same(void *d) { VF_ASSERT(d == &token, "callbacks get the caller's data"); return 1; }
static void sampling(int *ids, void *d) { same(d); VF_ASSERT(!over, "no sample after termination"); for (int i = 0; i < 3; ++i) ids[i] = 100 * iters + i; ++sampled; }
static NXBool samplecheck(const int *ids, void *d) { same(d); VF_ASSERT(ids[2] == 100 * iters + 2, "the sample drawn is the sample checked"); int r = vf_pick("sample", 0, 1); if (!r) scored = -1; else scored = 0; return r; }
static int fit(int *max, double **models, const int *ids, void *d)
{
        same(d); VF_ASSERT(scored == 0 && ids[0] == 100 * iters, "only checked samples are fitted"); int n = vf_pick("models", 0, MODELS);
        if (n > *max) { nx_free(*models); *models = NX_NEW_D(2 * n); *max = n; }
        for (int i = 0; i < n; ++i) { (*models)[2 * i] = 0.5 * made; (*models)[2 * i + 1] = made; score_of[made] = -1; checked[made] = 0; good[made] = 0; ++made; }
        return n;
}
static NXBool modelcheck(double *m, const int *ids, void *d) { same(d); (void)ids; checked[ID(m)] = vf_pick("valid", 0, 1); return checked[ID(m)]; }
static double score(double *m, const int *ids, void *d) { same(d); (void)ids; int i = ID(m); VF_ASSERT(i >= 0 && i < made && m[0] == 0.5 * i && checked[i], "only valid models are scored"); if (score_of[i] < 0) score_of[i] = vf_pick("score", 0, 2); return score_of[i]; }
static NXBool degen(double *m, const int *ids, void *d) { same(d); (void)ids; int i = ID(m); int r = vf_pick("sound", 0, 1); if (r) { good[i] = 1; if (score_of[i] > best_so_far) { best_so_far = score_of[i]; best_id = i; } } return r; }
static NXBool local(double *n, const double *m, const int *ids, void *d) { same(d); (void)ids; VF_ASSERT(good[ID(m)], "only sound models are refined"); if (!vf_pick("local", 0, 1)) return NX_FALSE; n[0] = 0.5 * made; n[1] = made; checked[made] = good[made] = 1; score_of[made] = vf_pick("local score", 0, 2); if (score_of[made] > best_so_far) { best_so_far = score_of[made]; best_id = made; } ++made; return NX_TRUE; }
static void global(double *n, const double *m, void *d) { same(d); VF_ASSERT(over, "the final refinement comes last"); if (best_id >= 0) VF_ASSERT(ID(m) == best_id && m[0] == 0.5 * best_id, "it is the best model that is refined"); else VF_ASSERT(m[0] == 0 && m[1] == 0, "without a model it starts from zero"); n[0] = 0.5 * made; n[1] = made; checked[made] = good[made] = 1; score_of[made] = vf_pick("final score", 0, 2); ++made; }
static NXBool term(const double *m, double s, void *d) { same(d); if (best_id >= 0) VF_ASSERT(s == best_so_far && ID(m) == best_id && m[0] == 0.5 * best_id, "termination sees the best model and its score so far"); else VF_ASSERT(s < -1e300, "no score before the first model"); over = iters >= limit; ++iters; scored = -1; return over; }
void usac_generic(void)
{
        struct NXUSACConfig c = { sampling, samplecheck, fit, modelcheck, score, degen, local, global, term }; double best[3] = { 9, 9, 9 };
        iters = made = sampled = over = 0; best_id = -1; best_so_far = -1; limit = vf_pick("limit", 0, ITER);
        double s = nx_usac(2, best, 3, &c, &token); int last = made - 1;
        VF_ASSERT(over && sampled == limit, "one sample for each round until termination");
        int w = best_id >= 0 && best_so_far >= score_of[last] ? best_id : last;
        VF_ASSERT(s == score_of[w] && ID(best) == w && best[0] == 0.5 * w, "the result is the best scoring model, refined if that is better"); VF_ASSERT(best[2] == 9, "the model has as many parameters as asked for");
        VF_COVER("consensus");
}
static void hm(double *h, int k) { static const double H[][9] = { { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 2, 0.5, 0.0, -0.5, 1.5, 0.0, 3, -2, 1 }, { 1.5, 0.25, 0.125, -0.25, 1, 0.0625, 1, 2, 2 } }; for (int i = 0; i < 9; ++i) h[i] = H[k][i]; }
void usac_homography(void)
{
        static const float P[][2] = { { 0, 0 }, { 4, 0.5f }, { 4.5f, 5 }, { -0.5f, 4 }, { 2, 7 }, { 7, 2 } };
        struct NXPointMatch2D pm[6]; double h[9], g[9]; int n = vf_pick("n", 3, RN), bad = vf_pick("outlier", -1, 1), k = 0, seen = 0, iter = vf_pick("iter", 0, ITER); hm(g, vf_pick("h", 0, 2)); double tol = 0.25; vf_draw_n = n; memset(pm, 0, sizeof pm);
        for (int i = 0; i < n; ++i) { pm[i].x[0] = P[i][0]; pm[i].x[1] = P[i][1]; nx_homography_transfer_fwd(g, pm[i].xp, pm[i].x); if (i == bad) { pm[i].xp[0] += 3; pm[i].xp[1] -= 2; } pm[i].match_cost = (i * 3) % 5; pm[i].id = i; }
        for (int i = 0; i < 9; ++i) h[i] = 0.5 * i;
        int r = nx_usac_estimate_homography(h, n, pm, tol, iter);
        if (n < 4 || iter == 0) VF_ASSERT(r == 0, "no hypothesis, no inliers");
        for (int i = 0; i < n; ++i) { seen |= 1 << pm[i].id; if (n >= 4 && i > 0) VF_ASSERT(pm[i - 1].match_cost <= pm[i].match_cost, "matches come out in order of cost"); }
        VF_ASSERT(seen == (1 << n) - 1, "no match is lost");
        if (r > 0) {
                for (int i = 0; i < n; ++i) { k += pm[i].is_inlier != 0; float q[2]; nx_homography_transfer_fwd(h, q, pm[i].x); double dx = q[0] - pm[i].xp[0], dy = q[1] - pm[i].xp[1], e = dx * dx + dy * dy - tol * tol; if (e < -0.001) VF_ASSERT(pm[i].is_inlier, "a match the returned homography transfers is an inlier"); if (e > 0.001) VF_ASSERT(!pm[i].is_inlier, "a match it does not transfer is none"); }
                VF_ASSERT(r == k, "the number returned is the number of inliers marked"); VF_COVER("found");
        }
        if (bad < 0 && n >= 4 && iter > 0) VF_ASSERT(r == n, "matches that all agree on one homography are all inliers, whichever sample was drawn");
}
