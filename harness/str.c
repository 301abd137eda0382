#include "vf.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_io.h"
#ifndef N
#define N 4
#endif
static int same(const char *a, const char *b, int n) { int r = 1; for (int i = 0; i < n; ++i) r &= a[i] == b[i]; return r & (a[n] == 0); }
/* duplication: equal bytes, independent storage, NULL handled */
void str_dup(void)
{
        int n = vf_pick("n", 0, N);
        char *s = malloc(n + 1), keep[N + 1];
        vf_cstr("s", s, n); memcpy(keep, s, n + 1);
        char *d = nx_strdup(s);
        VF_ASSERT(d != s && same(d, keep, n), "duplicate equals the original");
        char *r = vf_pick("old", 0, 1) ? nx_strdup("xyz") : NULL;
        nx_strredup(&r, s);
        for (int i = 0; i < n; ++i) s[i] ^= 0x55;
        VF_ASSERT(same(d, keep, n) && same(r, keep, n), "duplicates are independent of the source");
        free(s);
        VF_ASSERT(same(d, keep, n) && same(r, keep, n), "duplicates outlive the source");
        nx_strredup(&r, NULL);
        VF_ASSERT(r == NULL, "replacing by nothing yields NULL");
        VF_COVER("dup");
        nx_free(d);
}
/* formatted strings of every length around the initial buffer size are complete */
void str_fmt(void)
{
        int pre = vf_pick("pre", FLO, FHI), n = vf_pick("n", 0, 2);
        char *pad = malloc(pre + 1); for (int i = 0; i < pre; ++i) pad[i] = 'a' + i % 26; pad[pre] = 0;
        char s[4]; vf_cstr("s", s, n);
        int v = vf_i("v", -99, 99);
        char *f = nx_fstr("%s%s:%d", pad, s, v);
        for (int i = 0; i < pre; ++i) VF_ASSERT(f[i] == pad[i], "formatted string: first argument");
        for (int i = 0; i < n; ++i) VF_ASSERT(f[pre + i] == s[i], "formatted string: second argument");
        char *q = f + pre + n;
        VF_ASSERT(*q == ':', "formatted string: literal text");
        ++q;
        if (v < 0) { VF_ASSERT(*q == '-', "sign"); ++q; v = -v; }
        if (v >= 10) { VF_ASSERT(*q == '0' + v / 10, "tens"); ++q; }
        VF_ASSERT(*q == '0' + v % 10, "units"); ++q;
        VF_ASSERT(*q == 0, "formatted string ends after the last argument");
        VF_COVER("fmt");
        nx_free(f); free(pad);
}
/* C-escaped and CSV-quoted text read back as the same string */
void str_readable_rt(void)
{
        int n = vf_pick("n", 0, N);
        char s[N + 1]; vf_cstr("s", s, n);
        FILE *f = vf_stream_out();
        VF_ASSERT(nx_fputs_readable(s, f) == 0, "writing succeeds");
        int L = vf_stream_out_len(f);
        const char *o = (const char *)vf_stream_out_data(f);
        VF_ASSERT(L >= 2 && o[0] == '"' && o[L - 1] == '"', "text is enclosed in quotes");
        int esc = 0;
        for (int i = 1; i < L - 1; ++i) {
                VF_ASSERT(o[i] != '\n' && o[i] != '\r' && o[i] != '\t' && o[i] != '\b' && o[i] != '\f', "no raw control character that has an escape");
                if (esc) esc = 0; else { VF_ASSERT(o[i] != '"', "no bare quote inside"); esc = o[i] == '\\'; }
        }
        VF_ASSERT(!esc, "closing quote is not escaped");
        char *b = malloc(L - 2 + 1); memcpy(b, o + 1, L - 2);
        char *r = nx_xstr_from_readable(L - 2, b);
        VF_ASSERT(same(r, s, n), "escaped text reads back as the original string");
        VF_COVER("readable");
        nx_free(r); free(b);
}
void str_dquoted_rt(void)
{
        int n = vf_pick("n", 0, N);
        char s[N + 1]; vf_cstr("s", s, n);
        FILE *f = vf_stream_out();
        VF_ASSERT(nx_fputs_double_quoted(s, f) == 0, "writing succeeds");
        int L = vf_stream_out_len(f);
        const char *o = (const char *)vf_stream_out_data(f);
        VF_ASSERT(L >= 2 && o[0] == '"' && o[L - 1] == '"', "text is enclosed in quotes");
        char *b = malloc(L - 2 + 1); memcpy(b, o + 1, L - 2);
        char *r = nx_xstr_from_double_quoted(L - 2, b);
        VF_ASSERT(same(r, s, n), "quoted text reads back as the original string");
        VF_COVER("dquoted");
        nx_free(r); free(b);
        VF_ASSERT(nx_xstr_from_readable(3, NULL) == NULL && nx_xstr_from_double_quoted(3, NULL) == NULL, "nothing in, nothing out");
}
/* arbitrary escaped input: decoded exactly as specified or refused, within the given bytes */
void str_readable_any(void)
{
        int n = vf_pick("n", 0, N), dq = vf_pick("dq", 0, 1);
        char *b = malloc(n ? n : 1), e[N + 1]; int m = 0, bad = 0, esc = 0;
        for (int i = 0; i < n; ++i) {
                char c = b[i] = (char)vf_u8("c");
                VF_ASSUME(c != 0);
                if (esc) {
                        esc = 0;
                        if (dq) { if (c == '"') e[m++] = '"'; else bad = 1; }
                        else switch (c) {
                        case 'n': e[m++] = '\n'; break; case 'r': e[m++] = '\r'; break; case 't': e[m++] = '\t'; break;
                        case 'f': e[m++] = '\f'; break; case 'b': e[m++] = '\b'; break;
                        case '\\': case '"': e[m++] = c; break;
                        case '/': e[m++] = '/'; bad |= 2; break;
                        default: bad = 1;
                        }
                } else if (c == (dq ? '"' : '\\')) esc = 1;
                else e[m++] = c;
        }
        if (esc) bad |= 1;
        if (bad) VF_FATAL_OK();
        char *r = dq ? nx_xstr_from_double_quoted(n, b) : nx_xstr_from_readable(n, b);
        VF_ASSERT(!(bad & 1), "malformed escapes are refused");
        VF_ASSERT(same(r, e, m), "escapes decode as specified");
        VF_COVER("decoded");
        nx_free(r); free(b);
}
/* hex rendering of a digest */
void str_hash(void)
{
        int n = vf_pick("n", 0, 3);
        uint8_t *h = malloc(n + 1); vf_bytes("h", h, n);
        char *s = nx_hash_to_str(n, h);
        for (int i = 0; i < n; ++i) {
                int a = h[i] >> 4, c = h[i] & 15;
                VF_ASSERT(s[2 * i] == (a < 10 ? '0' + a : 'a' + a - 10) && s[2 * i + 1] == (c < 10 ? '0' + c : 'a' + c - 10), "two hex digits per byte");
        }
        VF_ASSERT(s[2 * n] == 0, "terminated");
        VF_COVER("hash");
        nx_free(s); free(h);
}
/* gathering from several buffers in arbitrary portions = reading their concatenation */
void str_gather(void)
{
        unsigned char all[3 * N]; int tot = 0;
        size_t l[3]; const void *src[3];
        int ns = vf_pick("ns", 1, 3);
        for (int i = 0; i < ns; ++i) {
                l[i] = vf_pick("l", 0, GL);
                unsigned char *p = malloc(l[i] ? l[i] : 1); vf_bytes("b", p, l[i]);
                for (size_t j = 0; j < l[i]; ++j) all[tot++] = p[j];
                src[i] = p;
        }
        int so = 0; size_t off = 0, pos = 0;
        for (int k = 0; k < 3; ++k) {
                if (so >= ns) break;
                size_t want = (size_t)vf_pick("w", 0, GL + 1);
                unsigned char *d = malloc(want ? want : 1);
                size_t got = nx_memncpy_multi(d, ns, src, l, want, &so, &off);
                size_t left = tot - pos;
                VF_ASSERT(got == (want < left ? want : left), "number of bytes gathered");
                for (size_t j = 0; j < got; ++j) VF_ASSERT(d[j] == all[pos + j], "bytes gathered in order");
                pos += got;
                free(d);
        }
        VF_COVER("gather");
        for (int i = 0; i < ns; ++i) free((void *)src[i]);
}
