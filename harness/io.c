/* stream helpers: what they report must be what happened */
#include "vf.h"
#include "virg/nexus/nx_io.h"
#ifndef N
#define N 5
#endif
/* closing: success exactly when everything written has reached its destination */
void io_close(void)
{
        int kind = vf_pick("kind", 0, 2), lim = kind ? vf_pick("lim", 0, 4) : 99, n = vf_pick("n", 0, 4), x = vf_pick("x", 0, 1);
        FILE *f = kind == 0 ? vf_stream_out() : kind == 1 ? vf_stream_out_fail(lim) : vf_stream_out_lost(lim);
        unsigned char c = vf_u8("c");
        for (int i = 0; i < n; ++i) fputc(c, f);
        int lost = n > lim;
        if (x) { if (lost) VF_FATAL_OK(); else VF_FATAL_BAD(); nx_xfclose(f, "label"); VF_ASSERT(!lost, "lost data is fatal"); }
        else { VF_FATAL_BAD(); NXResult r = nx_fclose(f, "label"); VF_ASSERT((r == NX_OK) == !lost, "close succeeds exactly when all data was written"); }
        VF_COVER("closed");
}
/* transfer of n items of any size: fatal exactly when short */
void io_transfer(void)
{
        unsigned char b[N + 8], g[N + 8]; vf_bytes("b", b, N);
        int sz = vf_pick("sz", 1, 3), n = vf_pick("n", 0, 2), have = vf_pick("have", 0, N); VF_ASSUME(sz * n <= N);
        if (vf_pick("write", 0, 1)) {
                FILE *f = vf_stream_out_fail(have);
                if (sz * n > have) VF_FATAL_OK(); else VF_FATAL_BAD();
                nx_xfwrite(b, sz, n, f);
                VF_ASSERT(sz * n <= have, "a short write is fatal");
                fclose(f);
                f = vf_stream_out(); nx_xfwrite(b, sz, n, f); VF_ASSERT(vf_stream_out_len(f) == sz * n, "all items written");
                for (int i = 0; i < sz * n; ++i) VF_ASSERT(vf_stream_out_data(f)[i] == b[i], "items written in order");
                fclose(f);
        } else {
                FILE *f = vf_stream_in(b, have);
                for (int i = 0; i < N + 8; ++i) g[i] = 0x5a;
                if (sz * n > have) VF_FATAL_OK(); else VF_FATAL_BAD();
                nx_xfread(g, sz, n, f);
                VF_ASSERT(sz * n <= have, "a short read is fatal");
                for (int i = 0; i < N; ++i) VF_ASSERT(g[i] == (i < sz * n ? b[i] : 0x5a), "items read in order");
                fclose(f);
        }
        VF_COVER("transferred");
}
/* opening a file that is not there */
void io_open(void)
{
        int x = vf_pick("x", 0, 1), there = vf_pick("there", 0, 1);
        const char *nm = there ? vf_file_put((const unsigned char *)"q", 1, ".txt") : vf_file_new(".txt");
        if (x && !there) VF_FATAL_OK(); else VF_FATAL_BAD();
        FILE *f = x ? nx_xfopen(nm, "r") : nx_fopen(nm, "r");
        VF_ASSERT((f != NULL) == there, "opened exactly when it exists");
        if (f) { VF_ASSERT(fgetc(f) == 'q' && fgetc(f) == EOF, "the file itself"); VF_ASSERT(nx_fclose(f, nm) == NX_OK, "close"); }
        VF_COVER("opened");
}
/* line reading against a scan of the same bytes */
void io_getline(void)
{
        unsigned char b[N + 1]; int n = vf_pick("n", 0, N); vf_bytes("b", b, n);
        FILE *f = vf_stream_in(b, n);
        int cap = vf_pick("cap", 0, 5); char *line = cap ? malloc(cap) : NULL; size_t lc = cap;
        VF_FATAL_BAD();
        int p = 0;
        for (int k = 0; k <= N + 1; ++k) {
                int e = p; while (e < n && b[e] != '\n') ++e; if (e < n) ++e; /* line is [p,e) */
                ssize_t r = nx_getline(&line, &lc, f);
                if (p >= n) { VF_ASSERT(r == -1, "end of input"); break; }
                VF_ASSERT(r == e - p, "line length");
                for (int i = p; i < e; ++i) VF_ASSERT((unsigned char)line[i - p] == b[i], "line bytes");
                VF_ASSERT(line[e - p] == 0, "terminated"); VF_ASSERT(lc >= (size_t)(e - p + 1), "reported capacity holds the line");
                line[lc - 1] = line[lc - 1]; /* the reported capacity is really there */
                p = e;
        }
        VF_COVER("lines");
        free(line); fclose(f);
}
/* long lines: repeated growth */
void io_getline_long(void)
{
        static unsigned char b[LL + 3]; int n = vf_pick("n", 0, LL);
        for (int i = 0; i < n; ++i) b[i] = (unsigned char)('a' + i % 26);
        int w = vf_i("w", 0, LL - 1); unsigned char c = vf_u8("c"); VF_ASSUME(c != '\n'); if (w < n) b[w] = c;
        b[n] = '\n'; b[n + 1] = 'z';
        FILE *f = vf_stream_in(b, n + 2); char *line = NULL; size_t lc = 0;
        VF_FATAL_BAD();
        VF_ASSERT(nx_getline(&line, &lc, f) == n + 1, "long line length");
        int ok = 1; for (int i = 0; i <= n; ++i) ok &= (unsigned char)line[i] == b[i]; VF_ASSERT(ok, "long line bytes");
        VF_ASSERT(nx_getline(&line, &lc, f) == 1 && line[0] == 'z' && line[1] == 0, "next line"); VF_ASSERT(nx_getline(&line, &lc, f) == -1, "end");
        VF_COVER("long line");
        free(line); fclose(f);
}
/* quoted output reports a stream that stops accepting data */
void io_puts_fail(void)
{
        char s[4]; int l = vf_pick("l", 0, 2); vf_cstr("s", s, l); int q = vf_pick("q", 0, 2), lim = vf_pick("lim", 0, 6);
        FILE *o = vf_stream_out(); VF_FATAL_BAD();
        int r0 = q == 2 ? nx_fputs_readable(NULL, o) : q ? nx_fputs_readable(s, o) : nx_fputs_double_quoted(s, o), full = vf_stream_out_len(o);
        VF_ASSERT(r0 == 0, "succeeds on a good stream"); fclose(o);
        FILE *f = vf_stream_out_fail(lim);
        int r = q == 2 ? nx_fputs_readable(NULL, f) : q ? nx_fputs_readable(s, f) : nx_fputs_double_quoted(s, f);
        VF_ASSERT((r == 0) == (full <= lim), "reports failure exactly when the stream refused data");
        fclose(f); VF_COVER("puts");
}
