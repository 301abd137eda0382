#include "vf.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_alloc.h"
/* ---- reference CSV reader (RFC 4180 quoting, '\n' record ends, first record = labels) ---- */
struct rf { int na, q, len, kind; char t[NMAX + 2]; };
static struct rf F[NMAX + 2][NMAX + 2]; static int fc[NMAX + 2], nrec, bad, unspec;
enum { K_STR, K_INT, K_DBL, K_BOOL };
static int dg(int c) { return c >= '0' && c <= '9'; }
static int kind(const char *s)
{
        if (!strcmp(s, "true") || !strcmp(s, "false")) return K_BOOL;
        int i = 0, d = 0, fp = 0;
        char c0 = s[0];
        if (c0 == ' ' || (c0 >= 9 && c0 <= 13)) { unspec = 1; return K_STR; }
        if (s[i] == '+' || s[i] == '-') ++i;
        char f = s[i]; if (f == 'i' || f == 'I' || f == 'n' || f == 'N' || (f == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X'))) { unspec = 1; return K_STR; }
        while (dg(s[i])) { ++i; ++d; }
        if (s[i] == '.') { fp = 1; ++i; while (dg(s[i])) { ++i; ++d; } }
        if (!d) return K_STR;
        if (s[i] == 'e' || s[i] == 'E') { int j = i + 1, e = 0; if (s[j] == '+' || s[j] == '-') ++j; while (dg(s[j])) { ++j; ++e; } if (e) { fp = 1; i = j; if (e > 2) unspec = 1; } }
        if (s[i]) return K_STR;
        return fp ? K_DBL : K_INT;
}
static void ref(const char *t)
{
        int p = 0; nrec = bad = unspec = 0;
        if (!t[0]) { bad = 1; return; }
        while (t[p]) {
                int c = 0;
                if (t[p] == '\n') { if (nrec == 0) { bad = unspec = 1; return; } if (fc[0] != 1) { bad = 1; return; } }
                for (;;) {
                        struct rf *f = &F[nrec][c]; f->len = 0; f->na = f->q = 0; f->kind = K_STR;
                        if (t[p] == '"') {
                                f->q = 1; ++p;
                                for (;;) {
                                        if (!t[p]) { bad = 1; return; }
                                        if (t[p] == '"') { if (t[p + 1] == '"') { f->t[f->len++] = '"'; p += 2; continue; } ++p; break; }
                                        f->t[f->len++] = t[p++];
                                }
                                f->t[f->len] = 0;
                                if (t[p] == '\r') unspec = 1;
                                if (t[p] && t[p] != ',' && t[p] != '\n') { bad = 1; return; }
                        } else {
                                while (t[p] && t[p] != ',' && t[p] != '\n') { if (t[p] == '"') { bad = 1; return; } if (t[p] == '\r') unspec = 1; f->t[f->len++] = t[p++]; }
                                f->t[f->len] = 0;
                                if (!f->len) f->na = 1;
                                else if (nrec) f->kind = kind(f->t);
                        }
                        ++c;
                        if (t[p] == ',') { ++p; continue; }
                        break;
                }
                fc[nrec++] = c;
                if (c != fc[0]) { bad = 1; return; }
                if (t[p] == '\n') ++p;
        }
}
static void check_text(char *t, int len)
{
        ref(t);
        if (unspec) VF_ASSUME(0);
        if (bad) VF_FATAL_OK(); else VF_FATAL_BAD();
        FILE *f = vf_stream_in((unsigned char *)t, len);
        int saf = vf_pick("factors", 0, 1);
        struct NXDataFrame *df = nx_data_frame_load_csv_stream(f, saf);
        VF_ASSERT(!bad, "malformed CSV must be refused");
        VF_FATAL_BAD();
        VF_ASSERT(df != NULL, "data frame returned");
        VF_ASSERT(nx_data_frame_n_columns(df) == fc[0] && nx_data_frame_n_rows(df) == nrec - 1, "table size");
        for (int c = 0; c < fc[0]; ++c) {
                const struct NXDataColumn *dc = nx_data_frame_column(df, c);
                VF_ASSERT(strcmp(nx_data_column_label(dc), F[0][c].t) == 0, "column label");
                int k = -1;
                for (int r = 1; r < nrec; ++r) if (!F[r][c].na) { int e = F[r][c].kind; k = k < 0 ? e : k == e ? k : (k == K_STR || e == K_STR || k == K_BOOL || e == K_BOOL) ? K_STR : K_DBL; }
                enum NXDataColumnType want = k == K_INT ? NX_DCT_INT : k == K_DBL ? NX_DCT_DOUBLE : k == K_BOOL ? NX_DCT_BOOL : saf ? NX_DCT_FACTOR : NX_DCT_STRING;
                VF_ASSERT(nx_data_column_type(dc) == want, "column type is the narrowest that holds every value");
                for (int r = 1; r < nrec; ++r) {
                        struct rf *x = &F[r][c];
                        VF_ASSERT(!!nx_data_frame_is_na(df, r - 1, c) == x->na, "missing values");
                        if (x->na) { VF_COVER("missing"); continue; }
                        switch (want) {
                        case NX_DCT_INT: VF_ASSERT(nx_data_frame_get_int(df, r - 1, c) == atoi(x->t), "integer value"); VF_COVER("int"); break;
                        case NX_DCT_DOUBLE: VF_ASSERT(nx_data_frame_get_double(df, r - 1, c) == atof(x->t), "real value"); VF_COVER("double"); break;
                        case NX_DCT_BOOL: VF_ASSERT(!!nx_data_frame_get_bool(df, r - 1, c) == (x->t[0] == 't'), "truth value"); VF_COVER("bool"); break;
                        case NX_DCT_FACTOR: VF_ASSERT(strcmp(nx_data_frame_get_factor(df, r - 1, c), x->t) == 0, "factor value"); VF_COVER("factor"); break;
                        default: VF_ASSERT(strcmp(nx_data_frame_get_string(df, r - 1, c), x->t) == 0, "string value"); VF_COVER("string"); break;
                        }
                }
        }
        nx_data_frame_free(df); fclose(f);
}
void csv_any(void)
{
        int n = vf_pick("n", 0, N); char *t = malloc(n + 1); vf_cstr("t", t, n);
        check_text(t, n); free(t);
}
void csv_body(void)
{
        int h = vf_pick("h", 1, 2), n = vf_pick("n", 0, B), o = h == 1 ? 2 : 4; char *t = malloc(n + 5);
        memcpy(t, h == 1 ? "h\n" : "h,k\n", o);
        for (int i = 0; i < n; ++i) { unsigned char c = vf_u8("c"); VF_ASSUME(c == ',' || c == '\n' || c == '"' || c == '-' || c == '.' || dg(c) || c == 'e' || c == 'q'); t[o + i] = (char)c; }
        t[o + n] = 0;
        check_text(t, o + n); free(t);
}
/* rows of chosen fields: typing across rows, booleans, mixed columns, quoted fields */
void csv_rows(void)
{
        static const char *W[] = { "", "true", "false", "12", "-3", "010", "2.5", "1e2", "ab", "\"7\"", "\"\"", "\"a,\"\"b\"" };
        int r = vf_pick("r", 1, RW); char t[RW * 16 + 8]; int o = 2; memcpy(t, "h\n", 2);
        for (int i = 0; i < r; ++i) { for (const char *p = W[vf_pick("w", 0, 11)]; *p; ++p) t[o++] = *p; t[o++] = '\n'; }
        t[o] = 0; char *u = malloc(o + 1); memcpy(u, t, o + 1);
        check_text(u, o); free(u);
}
/* ---- data frame as a table ---- */
static const enum NXDataColumnType TY[] = { NX_DCT_STRING, NX_DCT_INT, NX_DCT_DOUBLE, NX_DCT_BOOL, NX_DCT_FACTOR };
static const double DV[] = { 0.5, -2.25, 1e6, -1.2345678901234567e-103 };
struct cell { int na, i; char s[2]; };
static int rti(void) { switch (vf_pick("ik", 0, 3)) { case 0: return vf_i("i", 0, 9); case 1: return -120; case 2: return -2147483647 - 1; default: return 2147483647; } }
static void setcell(struct NXDataFrame *df, int r, int c, int ty, struct cell *x)
{
        x->na = 0;
        switch (ty) {
        case NX_DCT_STRING: case NX_DCT_FACTOR: { int l = vf_pick("l", 0, 1); vf_cstr("s", x->s, l); if (ty == NX_DCT_STRING) nx_data_frame_set_string(df, r, c, x->s); else nx_data_frame_set_factor(df, r, c, x->s); break; }
        case NX_DCT_INT: x->i = RTI ? rti() : vf_int("i"); nx_data_frame_set_int(df, r, c, x->i); break;
        case NX_DCT_DOUBLE: x->i = vf_pick("d", 0, 3); nx_data_frame_set_double(df, r, c, DV[x->i]); break;
        default: x->i = vf_pick("b", 0, 1); nx_data_frame_set_bool(df, r, c, x->i); break;
        }
}
static void cmpcell(struct NXDataFrame *df, int r, int c, int ty, struct cell *x, int text)
{
        VF_ASSERT(!!nx_data_frame_is_na(df, r, c) == x->na, "missing values kept");
        if (x->na) return;
        switch (ty) {
        case NX_DCT_STRING: VF_ASSERT(strcmp(nx_data_frame_get_string(df, r, c), x->s) == 0, "string kept"); break;
        case NX_DCT_FACTOR: VF_ASSERT(strcmp(text ? nx_data_frame_get_string(df, r, c) : nx_data_frame_get_factor(df, r, c), x->s) == 0, "factor kept"); break;
        case NX_DCT_INT: VF_ASSERT(nx_data_frame_get_int(df, r, c) == x->i, "integer kept"); break;
        case NX_DCT_DOUBLE: if (text && nx_data_column_type(nx_data_frame_column(df, c)) == NX_DCT_INT) VF_ASSERT((double)nx_data_frame_get_int(df, r, c) == DV[x->i], "real kept"); else VF_ASSERT(nx_data_frame_get_double(df, r, c) == DV[x->i], "real kept"); break;
        default: VF_ASSERT(!!nx_data_frame_get_bool(df, r, c) == x->i, "truth value kept"); break;
        }
}
void df_csv_rt(void)
{
        VF_FATAL_BAD();
        struct NXDataFrame *df = nx_data_frame_alloc();
        int nc = vf_pick("nc", 1, 2), nr = vf_pick("nr", 0, nc == 1 ? 2 : 1); int ty[2]; char lb[2][2]; struct cell x[2][2];
        for (int c = 0; c < nc; ++c) { ty[c] = TY[vf_pick("ty", 0, 4)]; if (nc == 1) vf_cstr("lb", lb[c], 1); else { lb[c][0] = (char)(c ? '"' : ','); lb[c][1] = 0; } nx_data_frame_add_column(df, ty[c], lb[c]); }
        for (int r = 0; r < nr; ++r) { VF_ASSERT(nx_data_frame_add_row(df) == r, "row index"); for (int c = 0; c < nc; ++c) { x[r][c].na = 1; if (vf_pick("set", 0, 1)) setcell(df, r, c, ty[c], &x[r][c]); } }
        for (int r = 0; r < nr; ++r) for (int c = 0; c < nc; ++c) cmpcell(df, r, c, ty[c], &x[r][c], 0);
        FILE *f = vf_stream_out();
        VF_ASSERT(nx_data_frame_save_csv_stream(df, f), "saved");
        vf_stream_rewind(f);
        struct NXDataFrame *d2 = nx_data_frame_load_csv_stream(f, 0);
        VF_ASSERT(nx_data_frame_n_columns(d2) == nc && nx_data_frame_n_rows(d2) == nr, "table size kept");
        for (int c = 0; c < nc; ++c) VF_ASSERT(strcmp(nx_data_column_label(nx_data_frame_column(d2, c)), lb[c]) == 0, "label kept");
        for (int r = 0; r < nr; ++r) for (int c = 0; c < nc; ++c) cmpcell(d2, r, c, ty[c], &x[r][c], 1);
        VF_COVER("csv round trip");
        fclose(f); nx_data_frame_free(df); nx_data_frame_free(d2);
}
void df_ops(void)
{
        VF_FATAL_BAD();
        struct NXDataFrame *df = nx_data_frame_alloc();
        int ty = TY[vf_pick("ty", 0, 4)], n = 0, nc = 1; struct cell x[OPS + 2]; struct cell y[OPS + 2];
        nx_data_frame_add_column(df, ty, "c");
        for (int k = 0; k < OPS; ++k) {
                int op = vf_pick("op", 0, 5);
                if (op == 0) { VF_ASSERT(nx_data_frame_add_row(df) == n, "row index"); x[n].na = 1; y[n].na = 1; ++n; }
                else if (op == 1 && n) { int r = vf_pick("r", 0, n - 1); setcell(df, r, 0, ty, &x[r]); }
                else if (op == 2 && n) { int r = vf_pick("r", 0, n - 1); nx_data_frame_set_na(df, r, 0); x[r].na = 1; }
                else if (op == 3 && nc == 1) { nx_data_frame_add_column(df, NX_DCT_INT, "d"); nc = 2; for (int r = 0; r < n; ++r) y[r].na = 1; }
                else if (op == 4 && nc == 2 && n) { int r = vf_pick("r", 0, n - 1); setcell(df, r, 1, NX_DCT_INT, &y[r]); }
                else if (op == 5 && n && ty == NX_DCT_STRING) { int r = vf_pick("r", 0, n - 1); if (!x[r].na) nx_data_frame_set_string(df, r, 0, nx_data_frame_get_string(df, r, 0)); }
                else VF_ASSUME(0);
                VF_ASSERT(nx_data_frame_n_rows(df) == n && nx_data_frame_n_columns(df) == nc, "table size");
                for (int r = 0; r < n; ++r) { cmpcell(df, r, 0, ty, &x[r], 0); if (nc == 2) cmpcell(df, r, 1, NX_DCT_INT, &y[r], 0); }
        }
        VF_COVER("ops");
        nx_data_frame_free(df);
}
/* factors: one level per distinct value in order of first appearance; converting keeps values and gaps */
void df_factor(void)
{
        VF_FATAL_BAD();
        struct NXDataFrame *df = nx_data_frame_alloc();
        int ty = TY[vf_pick("ty", 0, 4)], n = vf_pick("n", 0, FN); struct cell x[FN + 1]; char txt[FN + 1][40];
        nx_data_frame_add_column(df, ty, "lab");
        for (int r = 0; r < n; ++r) { nx_data_frame_add_row(df); x[r].na = 1; if (vf_pick("set", 0, 1)) {
                if (ty == NX_DCT_INT) { x[r].na = 0; x[r].i = vf_pick("i", -1, 1); nx_data_frame_set_int(df, r, 0, x[r].i); } else setcell(df, r, 0, ty, &x[r]);
                if (ty == NX_DCT_INT) snprintf(txt[r], 40, "%d", x[r].i); else if (ty == NX_DCT_BOOL) strcpy(txt[r], x[r].i ? "true" : "false"); else if (ty == NX_DCT_DOUBLE) snprintf(txt[r], 40, "%.17g", DV[x[r].i]); else strcpy(txt[r], x[r].s); } }
        nx_data_frame_make_factor(df, 0);
        const struct NXDataColumn *dc = nx_data_frame_column(df, 0);
        VF_ASSERT(nx_data_column_type(dc) == NX_DCT_FACTOR && strcmp(nx_data_column_label(dc), "lab") == 0, "type and label of the factor column");
        int lv = 0;
        for (int r = 0; r < n; ++r) {
                VF_ASSERT(!!nx_data_frame_is_na(df, r, 0) == x[r].na, "missing values kept");
                if (x[r].na) continue;
                VF_ASSERT(strcmp(nx_data_frame_get_factor(df, r, 0), txt[r]) == 0, "value kept as text");
                int seen = 0; for (int q = 0; q < r; ++q) if (!x[q].na && strcmp(txt[q], txt[r]) == 0) seen = 1;
                if (!seen) { VF_ASSERT(nx_data_column_n_factor_levels(dc) > lv && strcmp(nx_data_column_factor_level(dc, lv), txt[r]) == 0, "levels in order of appearance"); ++lv; }
        }
        VF_ASSERT(nx_data_column_n_factor_levels(dc) == lv, "one level per distinct value");
        VF_COVER("factor");
        nx_data_frame_free(df);
}
