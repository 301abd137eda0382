#include "vf.h"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_alloc.h"
static const int BI[] = { 0, -1, 7, -2147483647 - 1, 2147483647, 1000000000, -999999999, 255, 256 };
static const uint64_t BZ[] = { 0, 9, 2147483648u, 4294967296u, 9223372036854775807u, 9223372036854775808u, 18446744073709551615u };
static const double BD[] = { 0.0, 1.5, -0.25, 1234.5, 1e-3, -3e10, 42.0, 1e9 };
static struct NXJSONNode *reread(struct NXJSONNode *n)
{       /* through text and back */
        FILE *f = vf_stream_out(); nx_json_tree_fprint(f, n, 0); vf_stream_rewind(f);
        struct NXJSONNode *r = nx_json_tree_from_stream(f); fclose(f); return r;
}
void jb_int(void)
{
        int v = vf_i("v", -LIM, LIM); struct NXJSONNode *n = nx_json_bundle_int(v);
        VF_ASSERT(nx_json_node_is(n, NX_JNT_INTEGER), "integer node"); VF_ASSERT(nx_json_unbundle_int(n) == v, "int round trip");
        int u = nx_json_unbundle_uchar(n); VF_ASSERT(u == (v < 0 ? 0 : v > 255 ? 255 : v), "byte clamped to 0..255");
        nx_json_tree_free(n); VF_COVER("int");
}
void jb_scalars(void)
{
        VF_FATAL_BAD();
        switch (vf_pick("k", 0, 5)) {
        case 0: { int v = BI[vf_pick("v", 0, 8)]; struct NXJSONNode *n = nx_json_bundle_int(v); VF_ASSERT(nx_json_unbundle_int(n) == v, "int round trip"); nx_json_tree_free(n); VF_COVER("int boundary"); break; }
        case 1: { size_t v = BZ[vf_pick("v", 0, 6)]; struct NXJSONNode *n = nx_json_bundle_size_t(v); VF_ASSERT(nx_json_unbundle_size_t(n) == v, "size round trip");
                  VF_ASSERT(nx_json_node_text(n)[0] != '-', "a size is printed without a sign"); nx_json_tree_free(n); VF_COVER("size"); break; }
        case 2: { double v = BD[vf_pick("v", 0, 7)]; struct NXJSONNode *n = nx_json_bundle_double(v), *g = nx_json_bundle_float((float)v); VF_ASSERT(nx_json_unbundle_double(n) == v, "double round trip"); VF_ASSERT(nx_json_node_is(g, NX_JNT_FPNUMBER), "number node");
                  if (v * 1024 < 1e9 && v > -1e9 && v * 4 == (int)(v * 4)) VF_ASSERT(nx_json_unbundle_float(g) == (float)v, "float round trip"); nx_json_tree_free(n); nx_json_tree_free(g); VF_COVER("double"); break; }
        case 3: { int v = vf_i("b", 0, 1); struct NXJSONNode *n = nx_json_bundle_bool(v); VF_ASSERT(!!nx_json_unbundle_bool(n) == v, "bool round trip"); nx_json_tree_free(n); VF_COVER("bool"); break; }
        case 4: { unsigned char c = vf_u8("c"); struct NXJSONNode *n = nx_json_bundle_char((char)c); VF_ASSERT((unsigned char)nx_json_unbundle_char(n) == c, "char round trip"); nx_json_tree_free(n);
                  n = nx_json_bundle_uchar(c); VF_ASSERT(nx_json_unbundle_uchar(n) == c, "byte round trip"); nx_json_tree_free(n); VF_COVER("char"); break; }
        default: { int l = vf_pick("l", 0, SL); char s[SL + 1]; vf_cstr("s", s, l); struct NXJSONNode *n = nx_json_bundle_string(s); char *t = nx_json_unbundle_string(n); VF_ASSERT(strcmp(t, s) == 0 && t != nx_json_node_text(n), "string round trip, private copy"); nx_free(t); nx_json_tree_free(n); VF_COVER("string"); break; }
        }
}
void jb_arrays(void)
{
        VF_FATAL_BAD();
        int n = vf_pick("n", 0, AN), m = -1;
        switch (vf_pick("k", 0, 4)) {
        case 0: { int x[AN + 1]; for (int i = 0; i < n; ++i) x[i] = vf_i("x", -99, 99); struct NXJSONNode *a = nx_json_bundle_int_array(n, x), *b = reread(a); int *y = nx_json_unbundle_int_array(b, &m);
                  VF_ASSERT(m == n, "count"); for (int i = 0; i < n; ++i) VF_ASSERT(y[i] == x[i], "int array round trip"); nx_free(y); nx_json_tree_free(a); nx_json_tree_free(b); VF_COVER("int array"); break; }
        case 1: { double x[AN + 1]; for (int i = 0; i < n; ++i) x[i] = BD[vf_pick("x", 0, 3)]; struct NXJSONNode *a = nx_json_bundle_double_array(n, x), *b = reread(a); double *y = nx_json_unbundle_double_array(b, &m);
                  VF_ASSERT(m == n, "count"); for (int i = 0; i < n; ++i) VF_ASSERT(y[i] == x[i], "double array round trip"); nx_free(y); nx_json_tree_free(a); nx_json_tree_free(b); VF_COVER("double array"); break; }
        case 2: { float x[AN + 1]; for (int i = 0; i < n; ++i) x[i] = (float)BD[vf_pick("x", 0, 3)]; struct NXJSONNode *a = nx_json_bundle_float_array(n, x), *b = reread(a); float *y = nx_json_unbundle_float_array(b, &m);
                  VF_ASSERT(m == n, "count"); for (int i = 0; i < n; ++i) VF_ASSERT(y[i] == x[i], "float array round trip"); nx_free(y); nx_json_tree_free(a); nx_json_tree_free(b); VF_COVER("float array"); break; }
        default: { char x[AN + 1][2], *p[AN + 1]; for (int i = 0; i < n; ++i) { int l = vf_pick("l", 0, 1); vf_cstr("s", x[i], l); p[i] = x[i]; }
                  struct NXJSONNode *a = nx_json_bundle_string_array(n, p), *b = reread(a);
                  if (vf_pick("as", 0, 1)) { struct NXStringArray *s = nx_json_unbundle_as_string_array(b); VF_ASSERT(nx_string_array_size(s) == n, "count"); for (int i = 0; i < n; ++i) VF_ASSERT(strcmp(nx_string_array_get(s, i), x[i]) == 0, "string array round trip"); nx_string_array_free(s); VF_COVER("string array object"); }
                  else { char **y = nx_json_unbundle_string_array(b, &m); VF_ASSERT(m == n, "count"); for (int i = 0; i < n; ++i) { VF_ASSERT(strcmp(y[i], x[i]) == 0, "string array round trip"); nx_free(y[i]); } nx_free(y); VF_COVER("string array"); }
                  nx_json_tree_free(a); nx_json_tree_free(b); break; }
        }
}
void jb_keypoint(void)
{
        VF_FATAL_BAD();
        int n = vf_pick("n", 0, 2), m = -1; struct NXKeypoint k[3]; memset(k, 0, sizeof k);
        int e = vf_pick("e", 0, 6);
        for (int i = 0; i < n; ++i) { int f = i ? 8 : 1;
                k[i].x = i ? 3 : vf_i("x", -9, 9); k[i].y = i ? 4 : vf_i("y", 0, 9); k[i].level = i ? 5 : vf_i("lv", 0, 9); k[i].xs = 1.5f * f; k[i].ys = -2.25f * f; k[i].scale = 3.5f * f; k[i].sigma = 4.125f * f; k[i].score = 5.75f * f; k[i].ori = -0.5f * f; k[i].id = BZ[e]; }
        struct NXJSONNode *a = nx_json_bundle_keypoint_array(n, k), *b = reread(a);
        struct NXKeypoint *q = nx_json_unbundle_keypoint_array(b, &m);
        VF_ASSERT(m == n, "count");
        for (int i = 0; i < n; ++i) VF_ASSERT(q[i].x == k[i].x && q[i].y == k[i].y && q[i].level == k[i].level && q[i].xs == k[i].xs && q[i].ys == k[i].ys && q[i].scale == k[i].scale && q[i].sigma == k[i].sigma && q[i].score == k[i].score && q[i].ori == k[i].ori && q[i].id == k[i].id, "keypoint round trip");
        VF_COVER("keypoints");
        nx_free(q); nx_json_tree_free(a); nx_json_tree_free(b);
}
