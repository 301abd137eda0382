/* PNM images: what is saved, what is loaded, what is refused */
#include "vf.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_io_pnm.h"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_mem_block.h"
#ifndef W
#define W 3
#define HH 2
#endif
#ifndef NB
#define NB 5
#endif
static int byte_at(const char *nm, int *p) { return vf_file_byte(nm, (*p)++); }
static int ws(int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static int rdint(const char *nm, int *p)
{
        int c = byte_at(nm, p), v = 0;
        while (ws(c)) c = byte_at(nm, p);
        VF_ASSERT(c >= '0' && c <= '9', "header number");
        while (c >= '0' && c <= '9') { v = v * 10 + c - '0'; c = byte_at(nm, p); }
        VF_ASSERT(ws(c), "a whitespace after each header number");
        return v;
}
/* saved file, parsed independently, and loaded back */
void pnm_save(void)
{
        int w = vf_pick("w", 0, W), h = vf_pick("h", 0, HH), rgba = vf_pick("rgba", 0, 1), pad = vf_pick("pad", 0, 1), how = vf_pick("how", 0, 2);
        int ch = rgba ? 4 : 1, full = vf_pick("full", 0, 1);
        struct NXImage *im = nx_image_alloc();
        nx_image_resize(im, w, h, w * ch + pad, rgba ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
        int rs = im->row_stride;
        for (int y = 0; y < h; ++y) vf_bytes("px", im->data.uc + y * rs, w * ch + pad);
        const char *ext = rgba ? ".ppm" : ".pgm";
        const char *nm = full ? vf_file_full(ext) : vf_file_new(ext);
        if (full && how == 1) VF_FATAL_OK(); else VF_FATAL_BAD();
        NXResult r = NX_OK;
        if (how == 0) r = nx_image_save_pnm(im, nm); else if (how == 1) nx_image_xsave_pnm(im, nm); else r = nx_image_save(im, nm);
        if (full) { VF_ASSERT(how != 1, "lost data is fatal"); VF_ASSERT(r != NX_OK, "lost data is reported"); nx_image_free(im); return; }
        VF_ASSERT(r == NX_OK, "saved");
        int p = 2;
        VF_ASSERT(vf_file_byte(nm, 0) == 'P' && vf_file_byte(nm, 1) == (rgba ? '6' : '5'), "magic");
        int fw = rdint(nm, &p), fh = rdint(nm, &p), lv = rdint(nm, &p);
        VF_ASSERT(fw == w && fh == h && lv == 255, "size and depth in the header");
        int nc = rgba ? 3 : 1;
        VF_ASSERT(vf_file_len(nm) == p + w * h * nc, "exactly the pixels follow");
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < nc; ++c)
                VF_ASSERT(byte_at(nm, &p) == im->data.uc[y * rs + x * ch + c], "pixels in row order");
        struct NXImage *l = nx_image_alloc();
        VF_ASSERT(nx_image_load_pnm(l, nm, NX_IMAGE_LOAD_AS_IS) == NX_OK, "loads back");
        VF_ASSERT(l->width == w && l->height == h && l->type == im->type && l->dtype == NX_IMAGE_UCHAR, "same shape");
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < ch; ++c)
                VF_ASSERT(l->data.uc[y * l->row_stride + x * ch + c] == (c == 3 ? 255 : im->data.uc[y * rs + x * ch + c]), "same pixels");
        VF_COVER("round trip");
        nx_image_free(l); nx_image_free(im);
}
/* loading any well formed file, complete or cut short, in every mode */
void pnm_load(void)
{
        static unsigned char b[64]; int n = 0;
        static const char sep[] = " \n\t";
        int w = vf_pick("w", 1, W), h = vf_pick("h", 1, HH), color = vf_pick("color", 0, 1), mode = vf_pick("mode", 0, 2), how = vf_pick("how", 0, 1);
        int s = vf_pick("sep", 0, 2), com = vf_pick("com", 0, 2), lv = vf_pick("lv", 0, 1);
        b[n++] = 'P'; b[n++] = color ? '6' : '5'; b[n++] = sep[s];
        for (int i = 0; i < com; ++i) { b[n++] = '#'; unsigned char c = vf_u8("c"); VF_ASSUME(c != '\n'); b[n++] = c; b[n++] = '\n'; }
        b[n++] = '0' + w; b[n++] = sep[s]; b[n++] = '0' + h; b[n++] = sep[(s + 1) % 3];
        if (lv) { b[n++] = '2'; b[n++] = '5'; b[n++] = '5'; } else b[n++] = '9';
        b[n++] = sep[(s + 2) % 3];
        int nc = color ? 3 : 1, need = w * h * nc, cut = vf_pick("cut", 0, 1), d = n;
        vf_bytes("px", b + n, need); n += need - cut;
        const char *nm = vf_file_put(b, n, ".pnm");
        struct NXImage *l = nx_image_alloc();
        if (how && cut) VF_FATAL_OK(); else VF_FATAL_BAD();
        enum NXImageLoadMode m = mode == 0 ? NX_IMAGE_LOAD_AS_IS : mode == 1 ? NX_IMAGE_LOAD_GRAYSCALE : NX_IMAGE_LOAD_RGBA;
        NXResult r = NX_OK;
        if (how) nx_image_xload_pnm(l, nm, m); else r = nx_image_load_pnm(l, nm, m);
        VF_ASSERT((r == NX_OK) == !cut && !(how && cut), "accepted exactly when complete");
        if (!cut) {
                int rgba = mode == 2 || (mode == 0 && color);
                VF_ASSERT(l->width == w && l->height == h && l->type == (rgba ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE) && l->dtype == NX_IMAGE_UCHAR && l->n_channels == (rgba ? 4 : 1), "shape");
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                        const unsigned char *q = b + d + (y * w + x) * nc, *o = l->data.uc + y * l->row_stride + x * l->n_channels;
                        if (rgba) { for (int c = 0; c < 3; ++c) VF_ASSERT(o[c] == q[color ? c : 0], "colour pixel"); VF_ASSERT(o[3] == 255, "opaque"); }
                        else if (!color) VF_ASSERT(o[0] == q[0], "gray pixel");
                        else { double s = 0.3 * q[0] + 0.59 * q[1] + 0.11 * q[2], g = (double)o[0] - s; VF_ASSERT((g <= 1.0) & (g >= -1.01), "luminance of a colour pixel"); }
                }
                VF_COVER("loaded");
        }
        nx_image_free(l);
}
static const char *BAD[] = { "P5\n-1 2 255\n", "P5\n2 -1 255\n", "P6\n-2 -2 255\n", "P5\n1 1 0\n", "P5\n1 1 256\n", "P5\n1 1 65535\n", "P5 1 1 -255\n",
        "P5\n65536 65536 255\n", "P6\n32768 32768 255\n", "P5\n2147483647 2147483647 255\n", "P5\n1073741824 4 255\n", "P4\n1 1 255\n", "P7\n1 1 255\n", "Q5\n1 1 255\n", "",
        "P", "P5", "P5\n# no end", "P5\n1", "P5\n1 1", "P5\n1 1 255", "P5\nx 1 255\n" };
/* files that are no PNM image of bytes, or too large to be held */
void pnm_refuse(void)
{
        int k = vf_pick("k", -1, (int)(sizeof(BAD) / sizeof(BAD[0])) - 1), how = vf_pick("how", 0, 1);
        static unsigned char b[64]; int n = 0;
        if (k >= 0) { for (; BAD[k][n]; ++n) b[n] = (unsigned char)BAD[k][n]; if (n > 9) { int e = n + 24; for (; n < e; ++n) b[n] = vf_u8("px"); if (k >= 17) n -= 24; } }
        const char *nm = k < 0 ? vf_file_new(".pnm") : vf_file_put(b, n, ".pnm");
        struct NXImage *l = nx_image_alloc();
        if (how) { VF_FATAL_OK(); nx_image_xload_pnm(l, nm, NX_IMAGE_LOAD_AS_IS); VF_ASSERT(0, "refused fatally"); }
        VF_FATAL_BAD();
        VF_ASSERT(nx_image_load_pnm(l, nm, NX_IMAGE_LOAD_AS_IS) != NX_OK, "refused");
        VF_COVER("refused");
        nx_image_free(l);
}
/* arbitrary bytes after the magic number: refused, or an image whose memory is all there */
void pnm_bytes(void)
{
        static unsigned char b[40];
        b[0] = 'P'; b[1] = '5' + vf_pick("col", 0, 1); b[2] = ' ';
        for (int i = 0; i < NB; ++i) { b[3 + i] = vf_u8("b"); VF_ASSUME(b[3 + i] < '0' || b[3 + i] > '9' || b[2 + i] < '0' || b[2 + i] > '9'); }
        for (int i = 0; i < 20; ++i) b[3 + NB + i] = (unsigned char)(65 + i);
        const char *nm = vf_file_put(b, 23 + NB, ".pnm");
        struct NXImage *l = nx_image_alloc();
        VF_FATAL_BAD();
        if (nx_image_load_pnm(l, nm, NX_IMAGE_LOAD_AS_IS) == NX_OK) {
                VF_ASSERT(l->width >= 0 && l->height >= 0 && l->width <= 9 && l->height <= 9, "size as written");
                for (int y = 0; y < l->height; ++y) VF_READABLE(l->data.uc + y * l->row_stride, l->width * l->n_channels);
                VF_COVER("accepted");
        }
        nx_image_free(l);
}
