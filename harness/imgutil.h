/* images with arbitrary elements, and how results are compared */
#include "vf.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_mem_block.h"
static inline struct NXImage *any(int w, int h, int pad, int rgba, int f32)
{
        struct NXImage *im = nx_image_alloc(); int ch = rgba ? 4 : 1;
        nx_image_resize(im, w, h, w * ch + pad, rgba ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, f32 ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR);
        for (int i = 0; i < (w * ch + pad) * h; ++i)
                if (f32) { if (i % (w * ch + pad) < w * ch) { im->data.f32[i] = vf_f("px"); VF_ASSUME((im->data.f32[i] >= -4.0f) & (im->data.f32[i] <= 4.0f)); } else im->data.f32[i] = 1000.0f; }
                else im->data.uc[i] = vf_u8("px");
        return im;
}
static inline float at(const struct NXImage *im, int x, int y) { return im->dtype == NX_IMAGE_FLOAT32 ? im->data.f32[y * im->row_stride + x] : (float)im->data.uc[y * im->row_stride + x]; }
static inline float clampf(float v, float lo, float hi) { return v < lo ? lo : v > hi ? hi : v; }
/* a byte must be the value cut to whole levels and to [0,255]; one level of slack for rounding */
#define LEVEL(got, want, msg) do { float vf_t_ = clampf((want), 0.0f, 255.0f), vf_g_ = (float)(got) - vf_t_; VF_ASSERT((vf_g_ <= 0.01f) & (vf_g_ >= -1.01f), msg); } while (0)
/* bytes or floats, n truncations on the way */
#define PIXEL(f32, got, want, n, msg) do { if (f32) VF_EQF(got, want, msg); else { float vf_h_ = (float)(got) - (want); VF_ASSERT((vf_h_ <= 0.02f) & (vf_h_ >= -1.02f * (n)), msg); } } while (0)
