/* nx_image_resize and nx_image_wrap against a recording memory block: the storage asked for is the true size, for shapes of any magnitude */
#include <stddef.h>
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_mem_block.h"
#include "vf.h"
static size_t asked; static int calls; static char byte;
struct NXMemBlock *nx_mem_block_alloc() { static struct NXMemBlock b[2]; static int n; return &b[n++ & 1]; }
void nx_mem_block_free(struct NXMemBlock *m) { (void)m; }
void *nx_mem_block_resize(struct NXMemBlock *m, size_t n) { asked = n; calls++; m->ptr = &byte; return m->ptr; }
void *nx_mem_block_wrap(struct NXMemBlock *m, void *p, size_t sz, size_t cap, NXBool own) { asked = sz; VF_ASSERT(cap >= sz, "capacity covers the size"); calls++; m->ptr = p; m->own_memory = own; return p; }
struct NXMemBlock *nx_mem_block_new(size_t n) { struct NXMemBlock *m = nx_mem_block_alloc(); nx_mem_block_resize(m, n); return m; }
void nx_mem_block_release(struct NXMemBlock *m) { m->ptr = 0; }
void nx_mem_block_swap(struct NXMemBlock *a, struct NXMemBlock *b) { struct NXMemBlock t = *a; *a = *b; *b = t; }
struct NXMemBlock *nx_mem_block_copy0(struct NXMemBlock *m) { return m; }
void *nx_mem_block_copy(struct NXMemBlock *d, const struct NXMemBlock *s) { *d = *s; return d->ptr; }
void nx_mem_block_set_zero(struct NXMemBlock *m) { (void)m; }
void *nx_mem_block_reserve(struct NXMemBlock *m, size_t n) { (void)n; return m->ptr; }
void img_size(void)
{
        int k = vf_pick("k", 0, 3), wrap = vf_pick("wrap", 0, 1);
        static const int HS[] = { 0, 1, 2, 3, 1000, 46341, 65535, 65536, 1 << 28, 0x7fffffff };
        int w = vf_i("w", 0, 0x7fffffff / 4), h = HS[vf_pick("hi", 0, 9)], req = vf_i("req", -1, 0x7fffffff);
        enum NXImageType t = k & 1 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; enum NXImageDataType d = k >= 2 ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR;
        VF_FATAL_BAD();
        int rs = req > w * (k & 1 ? 4 : 1) ? req : w * (k & 1 ? 4 : 1);
        struct NXImage *im = nx_image_alloc();
        calls = 0;
        if (wrap) nx_image_wrap(im, &byte, w, h, rs, t, d, NX_FALSE); else nx_image_resize(im, w, h, req, t, d);
        size_t bytes = (size_t)im->row_stride * h * (k >= 2 ? 4 : 1);
        VF_ASSERT(im->width == w && im->height == h && im->row_stride == rs, "shape");
        if (calls) VF_ASSERT(asked >= bytes, "room for every row"); else VF_ASSERT(bytes == 0, "storage obtained");
        VF_COVER("sized");
}
