/* graphs, statistics, ordering */
#include "vf.h"
#include "virg/nexus/nx_graph.h"
#include "virg/nexus/nx_statistics.h"
#include "virg/nexus/nx_math.h"
#ifndef NV
#define NV 4
#endif
#ifndef NE
#define NE 3
#endif
#ifndef NS
#define NS 4
#endif
/* any sequence of NE insertions: both representations equal the reference table */
void graph_ops(void)
{
        int nv = vf_pick("nv", 0, NV), has[NV][NV], cnt = 0; double wt[NV][NV];
        for (int i = 0; i < NV; ++i) for (int j = 0; j < NV; ++j) has[i][j] = 0;
        int nm = vf_pick("name", 0, 1);
        struct NXGraphAdjMat *m = nx_graph_new_adj_mat(nm ? "ab" : NULL, nv);
        struct NXGraphAdjLst *l = nx_graph_new_adj_lst(nm ? "ab" : NULL, nv);
        int ne = nv ? vf_pick("ne", 0, NE) : 0;
        for (int e = 0; e < ne; ++e) {
                int v = vf_pick("v", 0, NV - 1), w = vf_pick("w", 0, NV - 1); VF_ASSUME(v < nv && w < nv);
                double x = vf_d("x"); VF_ASSUME(x >= -1e6 && x <= 1e6);
                nx_graph_insert_adj_mat(m, v, w, x); nx_graph_insert_adj_lst(l, v, w, x);
                if (v != w) { if (!has[v][w]) cnt++; has[v][w] = has[w][v] = 1; wt[v][w] = wt[w][v] = x; }
        }
        VF_ASSERT(m->n_v == nv && l->n_v == nv, "vertex count"); VF_ASSERT(m->n_e == cnt && l->n_e == cnt, "edge count");
        VF_ASSERT(strcmp(m->name, nm ? "ab" : "G") == 0 && strcmp(l->name, nm ? "ab" : "G") == 0, "name");
        for (int i = 0; i < nv; ++i) {
                int deg = 0, k = 0;
                for (int j = 0; j < nv; ++j) {
                        deg += has[i][j];
                        VF_ASSERT(m->weights[i * nv + j] == (has[i][j] ? wt[i][j] : NX_ABSENT_EDGE_WEIGHT), "matrix weight");
                        struct NXGraphEdge *e = nx_graph_edge_list_seach(l->edges[i], j);
                        VF_ASSERT((e != NULL) == has[i][j], "list has exactly the inserted edges");
                        if (e) VF_ASSERT(e->v == j && e->weight == wt[i][j], "list weight");
                }
                for (struct NXGraphEdge *e = l->edges[i]; e; e = e->next) k++;
                VF_ASSERT(k == deg, "one list entry per edge");
        }
        VF_COVER("graph");
        nx_graph_free_adj_mat(m); nx_graph_free_adj_lst(l); nx_graph_free_adj_mat(NULL); nx_graph_free_adj_lst(NULL);
}
static double med(const double *s, int n) { return n & 1 ? s[n / 2] : (s[n / 2 - 1] + s[n / 2]) / 2.0; }
static void check_stats(const struct NXStatistics1D *st, double *s, int n, int mean)
{
        VF_ASSERT(st->n == n, "count");
        for (int i = 1; i < n; ++i) { double t = s[i]; int j = i; for (; j > 0 && s[j - 1] > t; --j) s[j] = s[j - 1]; s[j] = t; }
        double sum = 0; for (int i = 0; i < n; ++i) sum += s[i];
        VF_EQF(st->min, s[0], "minimum"); VF_EQF(st->max, s[n - 1], "maximum");
        VF_EQF(st->median, med(s, n), "median");
        double lq = n == 1 ? s[0] : med(s, n / 2), uq = n == 1 ? s[0] : med(s + (n + 1) / 2, n / 2);
        VF_EQF(st->lower_quartile, lq, "lower quartile"); VF_EQF(st->upper_quartile, uq, "upper quartile"); VF_EQF(st->interquartile_range, uq - lq, "interquartile range");
        if (mean) VF_EQF(st->mean, sum / n, "mean");
}
static void check_stdev(const struct NXStatistics1D *st, const double *s, int n)
{
        double m = 0, v = 0; for (int i = 0; i < n; ++i) m += s[i]; m /= n;
        for (int i = 0; i < n; ++i) v += (s[i] - m) * (s[i] - m);
        VF_ASSERT(st->stdev >= 0, "deviation not negative"); VF_EQF(st->stdev * st->stdev, n > 1 ? v / (n - 1) : 0.0, "standard deviation");
}
void stat_d(void)
{
        struct NXStatistics1D st; double x[NS + 1], s[NS + 1];
        int n = vf_pick("n", 0, NS);
        for (int i = 0; i < n; ++i) { x[i] = vf_d("x"); VF_ASSUME(x[i] >= -1000 && x[i] <= 1000); s[i] = x[i]; }
        nx_dstatistics_1d(&st, n, x);
        if (n == 0) { VF_ASSERT(st.n == 0 && st.mean == 0 && st.stdev == 0, "no data"); VF_COVER("empty"); return; }
        check_stats(&st, s, n, 1);
        if (n <= NSD) check_stdev(&st, s, n);
        VF_COVER("statistics of reals");
}
void stat_i(void)
{
        struct NXStatistics1D st; int x[NS + 1], z[NS + 1]; double s[NS + 1];
        int n = vf_pick("n", 0, NS);
        for (int i = 0; i < n; ++i) z[i] = x[i] = vf_pick("b", 0, 1) ? (int)(signed char)vf_u8("x") : (int)((uint32_t)vf_u8("x") << 24); /* small and extreme */
        nx_istatistics_1d(&st, n, x);
        if (n == 0) { VF_ASSERT(st.n == 0 && st.mean == 0 && st.stdev == 0, "no data"); VF_COVER("empty"); return; }
        for (int i = 1; i < n; ++i) { int t = z[i], j = i; for (; j > 0 && z[j - 1] > t; --j) z[j] = z[j - 1]; z[j] = t; }
        for (int i = 0; i < n; ++i) s[i] = z[i];
        VF_ASSERT(st.n == n, "count"); VF_ASSERT(st.min == s[0], "minimum"); VF_ASSERT(st.max == s[n - 1], "maximum"); VF_ASSERT(st.median == med(s, n), "median");
        double lq = n == 1 ? s[0] : med(s, n / 2), uq = n == 1 ? s[0] : med(s + (n + 1) / 2, n / 2);
        VF_ASSERT(st.lower_quartile == lq, "lower quartile"); VF_ASSERT(st.upper_quartile == uq, "upper quartile"); VF_ASSERT(st.interquartile_range == uq - lq, "interquartile range");
        VF_COVER("statistics of integers");
}
/* long samples: every increasing sequence of values, presented in increasing, decreasing or riffled order */
#ifndef NL
#define NL 14
#endif
#ifndef INTS0
#define INTS0 0
#define INTS1 1
#endif
static int place(int i, int n, int ord) { return ord == 0 ? i : ord == 1 ? n - 1 - i : (i & 1) ? n - 1 - i / 2 : i / 2; }
void stat_long(void)
{
        struct NXStatistics1D st; int xi[NL]; double xd[NL], s[NL];
        int n = vf_pick("n", 5, NL), ord = vf_pick("ord", 0, 2), ints = vf_pick("ints", INTS0, INTS1);
        if (ints) {
                int z[NL], gap = vf_pick("gap", 0, 1) ? 1 << 25 : 300, at = vf_pick("at", 0, n - 1), by = vf_u8("by"); /* one value of the sample is free */
                for (int i = 0; i < n; ++i) { z[i] = (i - n / 2) * gap + (i == at ? by : 0); s[i] = z[i]; }
                for (int i = 0; i < n; ++i) xi[place(i, n, ord)] = z[i];
                nx_istatistics_1d(&st, n, xi);
        } else {
                double v = 0;
                for (int i = 0; i < n; ++i) { double d = vf_d("step"); VF_ASSUME(d <= 100 && (i ? d > 0 : d >= -1000)); v = i ? v + d : d; s[i] = v; }
                for (int i = 0; i < n; ++i) xd[place(i, n, ord)] = s[i];
                nx_dstatistics_1d(&st, n, xd);
        }
        double lq = med(s, n / 2), uq = med(s + (n + 1) / 2, n / 2);
        VF_ASSERT(st.n == n, "count"); VF_ASSERT(st.min == s[0], "minimum"); VF_ASSERT(st.max == s[n - 1], "maximum"); VF_EQF(st.median, med(s, n), "median");
        VF_EQF(st.lower_quartile, lq, "lower quartile"); VF_EQF(st.upper_quartile, uq, "upper quartile"); VF_EQF(st.interquartile_range, uq - lq, "interquartile range");
        VF_COVER("long sample");
}
void stat_i_mean(void)
{
        struct NXStatistics1D st; int x[3]; double s[3], sum = 0; int big = 0;
        int n = vf_pick("n", 1, 3);
        for (int i = 0; i < n; ++i) { x[i] = vf_pick("x", -2, 2) * 3; if (vf_pick("big", 0, 1)) x[i] = 2147483647, big = 1; s[i] = x[i]; sum += x[i]; }
        nx_istatistics_1d(&st, n, x);
        VF_EQF(st.mean, sum / n, "mean"); if (!big) check_stdev(&st, s, n);
        VF_COVER("mean of integers");
}
void order_int(void)
{
        int a = vf_int("a"), b = vf_int("b");
        int c = nx_compare_int_incr(&a, &b);
        VF_ASSERT((c < 0) == (a < b) && (c > 0) == (a > b), "integer order");
        VF_ASSERT(nx_min_i(a, b) == (a < b ? a : b) && nx_max_i(a, b) == (a < b ? b : a), "integer minimum and maximum");
        VF_COVER("order");
}
void order_fp(void)
{
        double a = vf_d("a"), b = vf_d("b"); float f = vf_f("f"), g = vf_f("g"); VF_ASSUME(a == a && b == b && f == f && g == g);
        int c = nx_compare_double_incr(&a, &b);
        VF_ASSERT((c < 0) == (a < b) && (c > 0) == (a > b), "real order");
        VF_ASSERT(nx_signum(a) == (a > 0 ? 1 : a < 0 ? -1 : 0), "sign");
        double mn = nx_min_d(a, b), mx = nx_max_d(a, b); float mf = nx_min_s(f, g), xf = nx_max_s(f, g);
        VF_ASSERT(mn <= a && mn <= b && (mn == a || mn == b) && mx >= a && mx >= b && (mx == a || mx == b), "minimum and maximum");
        VF_ASSERT(mf <= f && mf <= g && (mf == f || mf == g) && xf >= f && xf >= g && (xf == f || xf == g), "single precision minimum and maximum");
        VF_COVER("order of reals");
}
