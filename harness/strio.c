#include "vf.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_io.h"
#ifndef N
#define N 3
#endif
static int same(const char *a, const char *b, int n) { int r = 1; for (int i = 0; i < n; ++i) r &= a[i] == b[i]; return r & (a[n] == 0); }
/* string written to a stream reads back; truncated at any byte it reports failure */
void strio_rt(void)
{
        int n = vf_pick("n", 0, N), m = vf_pick("m", 0, 2), cut = vf_pick("cut", 0, 8 + N + 10);
        char s[N + 1], t[3]; vf_cstr("s", s, n); vf_cstr("t", t, m);
        FILE *f = vf_stream_out();
        VF_ASSERT(nx_strwrite(s, f) == 0 && nx_strwrite(t, f) == 0, "writing succeeds");
        int L = vf_stream_out_len(f);
        VF_ASSERT(L == 16 + n + m, "length-prefixed representation");
        VF_ASSUME(cut <= L);
        FILE *g = vf_stream_in(vf_stream_out_data(f), cut);
        char *a = vf_pick("prealloc", 0, 1) ? malloc(2) : NULL;
        int ra = nx_strread(&a, a ? 2 : 0, g);
        VF_ASSERT((ra == 0) == (cut >= 8 + n), "first string readable exactly when complete");
        if (ra == 0) {
                VF_ASSERT(same(a, s, n), "first string reads back");
                char *b = nx_strread0(g);
                VF_ASSERT((b != NULL) == (cut == L), "second string readable exactly when complete");
                if (b) { VF_ASSERT(same(b, t, m), "second string reads back"); VF_COVER("both"); nx_free(b); }
        }
        if (a) nx_free(a);
}
/* write errors at any byte position are reported */
void strio_wfail(void)
{
        int n = vf_pick("n", 0, N), lim = vf_pick("lim", 0, 8 + N);
        char s[N + 1]; vf_cstr("s", s, n);
        FILE *f = vf_stream_out_fail(lim);
        int r = nx_strwrite(s, f);
        VF_ASSERT((r == 0) == (lim >= 8 + n), "write reports failure exactly when bytes were refused");
        VF_COVER("wfail");
}
/* arbitrary bytes: either a terminated string of the announced length or a failure report */
void strio_any(void)
{
        unsigned char b[8 + N];
        uint64_t ls = vf_u64("ls");
        VF_ASSUME(ls <= N + 2 || ls >= ((uint64_t)1 << 32));
        memcpy(b, &ls, 8); vf_bytes("b", b + 8, N);
        int n = vf_pick("n", 0, 8 + N);
        FILE *f = vf_stream_in(b, n);
        if (ls > ((uint64_t)1 << 31)) VF_FATAL_OK();
        char *s = nx_strread0(f);
        if (s) {
                VF_ASSERT(n >= 8 && ls <= (uint64_t)(n - 8), "success only with all bytes present");
                for (int i = 0; i < N; ++i) if ((uint64_t)i < ls) VF_ASSERT((unsigned char)s[i] == b[8 + i], "bytes as stored");
                VF_ASSERT(s[ls] == 0, "terminated");
                VF_COVER("read"); nx_free(s);
        } else { VF_ASSERT(n < 8 || ls > (uint64_t)(n - 8), "failure only for an incomplete string"); VF_COVER("refused"); }
}
/* string arrays through a stream */
void strio_array_rt(void)
{
        int k = vf_pick("k", 0, K), tot = 4;
        char s[K][3]; int n[K];
        struct NXStringArray *a = nx_string_array_alloc();
        for (int i = 0; i < k; ++i) { n[i] = vf_pick("n", 0, 2); vf_cstr("s", s[i], n[i]); tot += 8 + n[i]; nx_string_array_append(a, s[i]); }
        FILE *f = vf_stream_out();
        VF_ASSERT(nx_string_array_write(a, f) == 0, "writing succeeds");
        int L = vf_stream_out_len(f); VF_ASSERT(L == tot, "representation size");
        int cut = vf_pick("cut", 0, 4 + K * 10); VF_ASSUME(cut <= L);
        FILE *g = vf_stream_in(vf_stream_out_data(f), cut);
        struct NXStringArray *b;
        if (vf_pick("into", 0, 1)) { b = nx_string_array_alloc(); nx_string_array_append(b, "old"); int r = nx_string_array_read(b, g); VF_ASSERT((r == 0) == (cut == L), "read reports exactly incomplete input"); if (r) { nx_string_array_free(b); b = NULL; } }
        else b = nx_string_array_read0(g);
        VF_ASSERT((b != NULL) == (cut == L), "array readable exactly when complete");
        if (b) {
                VF_ASSERT(nx_string_array_size(b) == k, "same number of strings");
                for (int i = 0; i < k; ++i) VF_ASSERT(same(nx_string_array_get(b, i), s[i], n[i]), "same strings in the same order");
                VF_COVER("array"); nx_string_array_free(b);
        }
        nx_string_array_free(a);
}
void strio_array_wfail(void)
{
        int k = vf_pick("k", 0, 2), tot = 4;
        struct NXStringArray *a = nx_string_array_alloc();
        for (int i = 0; i < k; ++i) { char s[3]; int n = vf_pick("n", 0, 2); vf_cstr("s", s, n); tot += 8 + n; nx_string_array_append(a, s); }
        int lim = vf_pick("lim", 0, 24);
        FILE *f = vf_stream_out_fail(lim);
        int r = nx_string_array_write(a, f);
        VF_ASSERT((r == 0) == (lim >= tot), "write reports failure exactly when bytes were refused");
        VF_COVER("wfail");
        nx_string_array_free(a);
}
/* arbitrary bytes as a string array */
void strio_array_any(void)
{
        unsigned char b[4 + 8 + 1 + 8];
        int cnt = vf_int("cnt");
        VF_ASSUME(cnt <= 3);
        uint64_t l0 = vf_u64("l0"), l1 = vf_u64("l1");
        VF_ASSUME(l0 == 1 || l0 >= ((uint64_t)1 << 32)); VF_ASSUME(l1 <= 1 || l1 >= ((uint64_t)1 << 32));
        memcpy(b, &cnt, 4); memcpy(b + 4, &l0, 8); b[12] = vf_u8("c"); memcpy(b + 13, &l1, 8);
        int n = vf_pick("n", 0, 21);
        FILE *f = vf_stream_in(b, n);
        if (l0 > 2 || l1 > 1 || (l0 != 1)) VF_FATAL_OK();
        struct NXStringArray *a = nx_string_array_read0(f);
        if (a) {
                int k = nx_string_array_size(a);
                VF_ASSERT(k == cnt && cnt >= 0, "size as announced");
                for (int i = 0; i < k; ++i) { char *s = nx_string_array_get(a, i); VF_ASSERT(s != NULL, "every element present"); size_t q = strlen(s); VF_ASSERT(q <= 2, "element within input"); }
                VF_COVER("read"); nx_string_array_free(a);
        } else VF_COVER("refused");
}
/* ---- string array as a sequence container: any sequence of operations agrees with a list */
#define SL 2
struct ref { int n; char s[CAPN][SL + 1]; int nul[CAPN]; };
void sarr_ops(void)
{
        struct ref r; r.n = 0;
        struct NXStringArray *a;
        if (vf_pick("new", 0, 1)) { int k = vf_pick("k", 0, 3); a = nx_string_array_new(k); r.n = k; for (int i = 0; i < k; ++i) r.nul[i] = 1; }
        else a = nx_string_array_alloc();
        for (int st = 0; st < STEPS; ++st) {
                int op = vf_pick("op", 0, 6);
                char s[SL + 1]; int l = vf_pick("l", 0, SL);
                if (op == 0) { vf_cstr("s", s, l); int id = nx_string_array_append(a, s); VF_ASSERT(id == r.n, "append returns the new position"); memcpy(r.s[r.n], s, l + 1); r.nul[r.n++] = 0; }
                else if (op == 1) { VF_ASSUME(r.n > 0); int i = vf_pick("i", 0, CAPN - 1); VF_ASSUME(i < r.n); vf_cstr("s", s, l); nx_string_array_set(a, i, s); memcpy(r.s[i], s, l + 1); r.nul[i] = 0; }
                else if (op == 2) { VF_ASSUME(l == 0); int k = vf_pick("k", 0, 4); nx_string_array_resize(a, k); for (int i = r.n; i < k; ++i) r.nul[i] = 1; r.n = k; }
                else if (op == 3) { vf_cstr("s", s, l); int id = nx_string_array_appendf(a, "%s", s); VF_ASSERT(id == r.n, "append returns the new position"); memcpy(r.s[r.n], s, l + 1); r.nul[r.n++] = 0; }
                else if (op == 5 || op == 6) { /* the argument is an element of the array itself */
                        VF_ASSUME(l == 0); VF_ASSUME(r.n > 0); int i = vf_pick("i", 0, CAPN - 1); VF_ASSUME(i < r.n); VF_ASSUME(!r.nul[i]); int j = op == 5 ? i : r.n;
                        if (op == 5) nx_string_array_set(a, i, nx_string_array_get(a, i));
                        else { VF_ASSERT(nx_string_array_append(a, nx_string_array_get(a, i)) == j, "append returns the new position"); r.n++; }
                        memcpy(r.s[j], r.s[i], SL + 1); r.nul[j] = 0;
                }
                else { VF_ASSUME(l == 0); VF_ASSUME(r.n > 0); int i = vf_pick("i", 0, CAPN - 1); VF_ASSUME(i < r.n); if (vf_pick("nul", 0, 1)) { nx_string_array_set(a, i, NULL); r.nul[i] = 1; } else { nx_string_array_setf(a, i, "v%d", 7); strcpy(r.s[i], "v7"); r.nul[i] = 0; } }
                VF_ASSERT(nx_string_array_size(a) == r.n, "size");
                for (int i = 0; i < r.n; ++i) {
                        char *p = nx_string_array_get(a, i);
                        VF_ASSERT(p == nx_string_array_ptr(a)[i], "both accessors agree");
                        if (r.nul[i]) VF_ASSERT(p == NULL, "unset element is NULL");
                        else { VF_ASSERT(p != NULL, "set element present"); VF_ASSERT(strcmp(p, r.s[i]) == 0, "element value"); }
                }
        }
        {
                char q[SL + 1]; int l = vf_pick("ql", 0, SL); vf_cstr("q", q, l);
                int e = -1; for (int i = r.n - 1; i >= 0; --i) if (!r.nul[i] && strcmp(q, r.s[i]) == 0) e = i;
                VF_ASSERT(nx_string_array_find(a, q) == e, "find returns the first equal element or -1");
                VF_COVER("find");
        }
        VF_COVER("ops");
        nx_string_array_free(a);
        nx_string_array_free(NULL);
}
/* longer arrays: capacity growth keeps all elements */
void sarr_grow(void)
{
        char *list[GN + 1]; char buf[GN][2];
        int k = vf_pick("k", 0, GN);
        for (int i = 0; i < k; ++i) { buf[i][0] = (char)('a' + i); buf[i][1] = 0; list[i] = buf[i]; }
        list[k] = NULL;
        if (k) { int w = vf_i("w", 0, GN - 1); VF_ASSUME(w < k); unsigned char c = vf_u8("c"); VF_ASSUME(c); buf[w][0] = (char)c; }
        struct NXStringArray *a = nx_string_array_new_from_null_terminated_list(list);
        VF_ASSERT(nx_string_array_size(a) == k, "one element per list entry");
        for (int i = 0; i < k; ++i) VF_ASSERT(same(nx_string_array_get(a, i), buf[i], 1), "list entries in order");
        VF_COVER("grow");
        nx_string_array_free(a);
}
