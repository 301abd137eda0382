#include "vf.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_json_lexer.h"
#include "virg/nexus/nx_alloc.h"
/* ---- reference: recursive descent parser (RFC 8259 without \u, composite at the top) ---- */
#ifndef WN
#define WN 4
#endif
enum { R_OBJ, R_ARR, R_STR, R_INT, R_FP, R_TRUE, R_FALSE, R_NULL };
static const int NT[] = { NX_JNT_OBJECT, NX_JNT_ARRAY, NX_JNT_STRING, NX_JNT_INTEGER, NX_JNT_FPNUMBER, NX_JNT_TRUE, NX_JNT_FALSE, NX_JNT_NULL };
struct rn { int type, nch, first, next; char txt[NMAX + 4]; int len; };
static struct rn RN[2 * NMAX + 8]; static int rn_n;
static const char *tx; static int ps, bad, unspec;
static int isws(int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static int isd(int c) { return c >= '0' && c <= '9'; }
static void ws(void) { while (isws(tx[ps])) ++ps; }
static int newn(int t) { struct rn *r = &RN[rn_n]; r->type = t; r->nch = 0; r->first = r->next = -1; r->len = 0; r->txt[0] = 0; return rn_n++; }
static int rstr(void) /* at the opening quote */
{
        int n = newn(R_STR); struct rn *r = &RN[n];
        ++ps;
        for (;;) {
                unsigned char c = (unsigned char)tx[ps];
                if (c == 0) { bad = 1; return n; }
                if (c == '"') { ++ps; break; }
                if (c == '\\') {
                        char d, e = tx[ps + 1];
                        switch (e) { case '"': d = '"'; break; case '\\': d = '\\'; break; case '/': d = '/'; break; case 'b': d = '\b'; break;
                        case 'f': d = '\f'; break; case 'n': d = '\n'; break; case 'r': d = '\r'; break; case 't': d = '\t'; break;
                        default: if (e == 'u') unspec = 1; bad = 1; return n; }
                        r->txt[r->len++] = d; ps += 2;
                } else { if (c < 32) unspec = 1; r->txt[r->len++] = (char)c; ++ps; }
        }
        r->txt[r->len] = 0;
        return n;
}
static int rnum(void)
{
        int s = ps, fp = 0;
        if (tx[ps] == '-') ++ps;
        if (!isd(tx[ps])) { bad = 1; return -1; }
        if (tx[ps] == '0') { ++ps; if (isd(tx[ps])) { bad = 1; return -1; } } else while (isd(tx[ps])) ++ps;
        if (tx[ps] == '.') { fp = 1; ++ps; if (!isd(tx[ps])) { bad = 1; return -1; } while (isd(tx[ps])) ++ps; }
        if (tx[ps] == 'e' || tx[ps] == 'E') { fp = 1; ++ps; if (tx[ps] == '+' || tx[ps] == '-') ++ps; if (!isd(tx[ps])) { bad = 1; return -1; } while (isd(tx[ps])) ++ps; }
        int n = newn(fp ? R_FP : R_INT);
        for (int i = s; i < ps; ++i) RN[n].txt[RN[n].len++] = tx[i];
        RN[n].txt[RN[n].len] = 0;
        return n;
}
static int lit(const char *w, int t) { for (int i = 0; w[i]; ++i) { if (tx[ps] != w[i]) { bad = 1; return -1; } ++ps; } return newn(t); }
static int rval(void)
{
        ws();
        char c = tx[ps];
        if (c == '[' || c == '{') {
                int ob = c == '{', n = newn(ob ? R_OBJ : R_ARR), last = -1;
                ++ps; ws();
                if (tx[ps] == (ob ? '}' : ']')) { ++ps; return n; }
                for (;;) {
                        ws();
                        if (ob) {
                                if (tx[ps] != '"') { bad = 1; return n; }
                                int k = rstr(); if (bad) return n;
                                ws(); if (tx[ps] != ':') { bad = 1; return n; } ++ps;
                                if (last < 0) RN[n].first = k; else RN[last].next = k; last = k; RN[n].nch++;
                        }
                        int v = rval(); if (bad) return n;
                        if (last < 0) RN[n].first = v; else RN[last].next = v; last = v; RN[n].nch++;
                        ws();
                        if (tx[ps] == ',') { ++ps; continue; }
                        if (tx[ps] == (ob ? '}' : ']')) { ++ps; return n; }
                        bad = 1; return n;
                }
        }
        if (c == '"') return rstr();
        if (c == '-' || isd(c)) return rnum();
        if (c == 't') return lit("true", R_TRUE);
        if (c == 'f') return lit("false", R_FALSE);
        if (c == 'n') return lit("null", R_NULL);
        bad = 1; return -1;
}
static void same(struct NXJSONNode *n, int r)
{
        struct rn *R = &RN[r];
        VF_ASSERT(n != NULL, "node present");
        VF_ASSERT(nx_json_node_type(n) == NT[R->type], "node type");
        VF_ASSERT(nx_json_node_is(n, NT[R->type]) && nx_json_node_is_a(n, NT[R->type]), "type predicates");
        if (R->type >= R_STR && R->type <= R_FP) {
                char *t = nx_json_node_text(n); int eq = 1;
                VF_ASSERT(t != NULL, "text present");
                for (int i = 0; i <= R->len; ++i) eq &= t[i] == R->txt[i];
                VF_ASSERT(eq, "node text");
        } else if (R->type == R_ARR) {
                int i = 0;
                VF_ASSERT(nx_json_node_n_children(n) == R->nch, "array element count");
                for (int c = R->first; c >= 0; c = RN[c].next, ++i) {
                        same(nx_json_array_get(n, i, 255), c);
                        VF_ASSERT(nx_json_array_get(n, i, 255 & ~NT[RN[c].type]) == NULL, "element of another type is not returned");
                }
                VF_ASSERT(nx_json_array_get(n, i, 255) == NULL && nx_json_array_get(n, -1, 255) == NULL, "no element past the ends");
        } else if (R->type == R_OBJ) {
                for (int c = R->first; c >= 0; c = RN[RN[c].next].next) {
                        int dup = 0;
                        for (int d = R->first; d != c; d = RN[RN[d].next].next) if (strcmp(RN[d].txt, RN[c].txt) == 0) dup = 1;
                        if (!dup) {
                                same(nx_json_object_get(n, RN[c].txt, 255), RN[c].next);
                                VF_ASSERT(nx_json_object_get(n, RN[c].txt, 255 & ~NT[RN[RN[c].next].type]) == NULL, "member of another type is not returned");
                        }
                }
                VF_ASSERT(nx_json_object_get(n, "nosuchname", 255) == NULL, "absent member");
        }
}
static void parse_and_compare(char *t)
{
        tx = t; ps = bad = unspec = rn_n = 0;
        ws();
        int r = -1;
        if (tx[ps] == '[' || tx[ps] == '{') r = rval(); else bad = 1;
        if (!bad) { ws(); if (tx[ps]) unspec = 1; }
        if (unspec) VF_ASSUME(bad); /* well formed up to something the documentation leaves open: control bytes, trailing text */
        if (bad) VF_FATAL_OK(); else VF_FATAL_BAD();
        struct NXJSONNode *n = nx_json_tree_from_string(t);
        VF_ASSERT(!bad || unspec, "malformed JSON must be refused");
        if (!bad) { same(n, r); VF_COVER("accepted"); }
        VF_FATAL_BAD();
        nx_json_tree_free(n);
}
/* any text of up to N bytes */
void json_any(void)
{
        int n = vf_pick("n", 0, N);
        char *t = malloc(n + 1); vf_cstr("t", t, n);
        parse_and_compare(t);
        free(t);
}
/* a number inside an array */
void json_number(void)
{
        static const char A[] = "019-+.eE";
        int n = vf_pick("n", 1, M);
        char *t = malloc(n + 3); t[0] = '['; t[n + 1] = ']'; t[n + 2] = 0;
        for (int i = 1; i <= n; ++i) { int c = vf_u8("c"); VF_ASSUME(c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E' || isd(c)); t[i] = (char)c; }
        (void)A;
        parse_and_compare(t);
        free(t);
}
/* a string inside an array: every byte value, escapes */
void json_string(void)
{
        int n = vf_pick("n", 0, L);
        char *t = malloc(n + 5); t[0] = '['; t[1] = '"'; vf_cstr("s", t + 2, n); t[n + 2] = '"'; t[n + 3] = ']'; t[n + 4] = 0;
        parse_and_compare(t);
        free(t);
}
/* any sequence of T tokens; the sequence stops where the reference finds it malformed */
void json_tokens(void)
{
        static const char *W[] = { "[", "]", "{", "}", ",", ":", "\"a\"", "\"b\"", "7", "-1.5e3", "true", "false", "null", " " };
        int k = vf_pick("k", 1, T); char buf[8 * T + 8]; int o = 0;
        for (int i = 0; i < k; ++i) {
                int w = vf_pick("w", 0, 12);
                for (const char *p = W[w]; *p; ++p) buf[o++] = *p;
                buf[o++] = i & 1 ? '\n' : ' '; buf[o] = 0;
                if (i + 1 < k) { /* prefix must still be extensible */
                        tx = buf; ps = bad = unspec = rn_n = 0; ws();
                        if (tx[ps] == '[' || tx[ps] == '{') rval(); else bad = 1;
                        VF_ASSUME(bad && tx[ps] == 0);
                }
        }
        char *t = malloc(o + 1); memcpy(t, buf, o + 1);
        parse_and_compare(t);
        free(t);
}
/* ---- building, printing and re-reading trees ---- */
static struct NXJSONNode *build(int r)
{
        struct rn *R = &RN[r];
        switch (R->type) {
        case R_STR: return nx_json_node_new_string(R->txt); case R_INT: return nx_json_node_new_integer(R->txt); case R_FP: return nx_json_node_new_fpnumber(R->txt);
        case R_TRUE: return nx_json_node_new_true(); case R_FALSE: return nx_json_node_new_false(); case R_NULL: return nx_json_node_new_null();
        case R_ARR: { struct NXJSONNode *n = nx_json_node_new_array(); for (int c = R->first; c >= 0; c = RN[c].next) { struct NXJSONNode *b = build(c); VF_ASSERT(nx_json_array_add(n, b) == b, "add returns the node"); } return n; }
        default: { struct NXJSONNode *n = nx_json_node_new_object(); for (int c = R->first; c >= 0; c = RN[RN[c].next].next) { struct NXJSONNode *b = build(RN[c].next); VF_ASSERT(nx_json_object_add(n, RN[c].txt, b) == b, "add returns the node"); } return n; }
        }
}
static int gen(int depth)
{
        int t = depth == 0 ? vf_pick("t", 0, 1) : vf_pick("t", depth < DEPTH ? 0 : 2, 7), n = newn(t);
        struct rn *R = &RN[n];
        if (t == R_STR) { R->len = vf_pick("len", 0, SL); vf_cstr("s", R->txt, R->len); }
        else if (t == R_INT) { R->txt[0] = '-'; R->txt[1] = (char)('0' + vf_i("d", 1, 9)); R->txt[2] = 0; R->len = 2; }
        else if (t == R_FP) { R->txt[0] = (char)('0' + vf_i("d", 0, 9)); R->txt[1] = '.'; R->txt[2] = '5'; R->txt[3] = 0; R->len = 3; }
        else if (t <= R_ARR) {
                int k = vf_pick("k", 0, depth == 0 ? WIDTH : 1), last = -1;
                for (int i = 0; i < k; ++i) {
                        if (t == R_OBJ) { int m = newn(R_STR); RN[m].len = vf_pick("kl", 0, 1); vf_cstr("k", RN[m].txt, RN[m].len); if (last < 0) R->first = m; else RN[last].next = m; last = m; R->nch++; }
                        int v = gen(depth + 1); if (last < 0) R->first = v; else RN[last].next = v; last = v; R->nch++;
                }
        }
        return n;
}
static void tree_rt(int r)
{
        VF_FATAL_BAD();
        struct NXJSONNode *a = build(r);
        same(a, r);
        FILE *f = vf_stream_out();
        int pp = vf_pick("pp", 0, 2);
        nx_json_tree_fprint(f, a, pp);
        vf_stream_rewind(f);
        struct NXJSONNode *b = nx_json_tree_from_stream(f);
        same(b, r);
        VF_COVER("tree round trip");
        fclose(f);
        nx_json_tree_free(a); nx_json_tree_free(b);
}
void json_tree_rt(void) { rn_n = 0; tree_rt(gen(0)); }
/* wide trees of simple values, one of them composite */
static int wide(int t, int k, int at, int inner)
{
        int n = newn(t), last = -1;
        for (int i = 0; i < k; ++i) {
                if (t == R_OBJ) { int m = newn(R_STR); RN[m].len = 1; RN[m].txt[0] = (char)('a' + i); RN[m].txt[1] = 0; if (last < 0) RN[n].first = m; else RN[last].next = m; last = m; RN[n].nch++; }
                int v;
                if (i == at) v = wide(inner & 1 ? R_OBJ : R_ARR, inner >> 1, -1, 0);
                else { v = newn(R_INT); RN[v].txt[0] = (char)('0' + vf_i("d", 0, 9)); RN[v].txt[1] = 0; RN[v].len = 1; }
                if (last < 0) RN[n].first = v; else RN[last].next = v; last = v; RN[n].nch++;
        }
        return n;
}
void json_tree_wide(void)
{
        rn_n = 0;
        int t = vf_pick("t", 0, 1), k = vf_pick("k", 0, WN), at = vf_pick("at", -1, WN - 1); VF_ASSUME(at < k);
        int inner = at < 0 ? 0 : vf_pick("inner", 0, 7);
        tree_rt(wide(t ? R_ARR : R_OBJ, k, at, inner));
}
