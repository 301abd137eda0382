#include "vf.h"
#include "virg/nexus/nx_bit_ops.h"
#include "virg/nexus/nx_alloc.h"
void bits_count32(void) { uint32_t x = vf_u32("x"); int c = 0; for (int i = 0; i < 32; ++i) c += (x >> i) & 1; VF_ASSERT(nx_bit_count32(x) == c, "32-bit population count"); VF_COVER("c32"); }
void bits_count64(void) { uint64_t x = vf_u64("x"); int c = 0; for (int i = 0; i < 64; ++i) c += (x >> i) & 1; VF_ASSERT(nx_bit_count64(x) == c, "64-bit population count"); VF_COVER("c64"); }
void bits_rot(void)
{
        uint32_t x = vf_u32("x"); uint64_t y = vf_u64("y");
        int n = vf_i("n", 1, 31), m = vf_i("m", 1, 63), i = vf_i("i", 0, 31), j = vf_i("j", 0, 63);
        uint32_t r = nx_rotr32(x, (uint8_t)n); uint64_t q = nx_rotr64(y, (uint8_t)m);
        VF_ASSERT(((r >> i) & 1) == ((x >> ((i + n) % 32)) & 1), "32-bit rotation moves every bit");
        VF_ASSERT(((q >> j) & 1) == ((y >> ((j + m) % 64)) & 1), "64-bit rotation moves every bit");
        VF_COVER("rot");
}
void bits_endian(void)
{
        uint32_t x = vf_u32("x"); uint64_t y = vf_u64("y"); uint8_t b[4], c[8];
        nx_split_big_endian32(b, x); nx_split_big_endian64(c, y);
        for (int i = 0; i < 4; ++i) VF_ASSERT(b[i] == ((x >> (24 - 8 * i)) & 255), "most significant byte first (32)");
        for (int i = 0; i < 8; ++i) VF_ASSERT(c[i] == ((y >> (56 - 8 * i)) & 255), "most significant byte first (64)");
        VF_ASSERT(nx_compose_big_endian32(b) == x, "composition inverts the split");
        VF_COVER("endian");
}
/* bit array: a write changes exactly one bit, stays inside the array */
void bits_array(void)
{
        int n = vf_i("n", 1, NB);
        uint8_t *a = nx_bit_array_new(n);
        nx_bit_array_set_zero(n, a);
        int k = vf_i("k", 0, NB - 1); VF_ASSUME(k < n);
        VF_ASSERT(!nx_bit_array_get(a, k), "cleared array has no bit set");
        int init[NB];
        for (int i = 0; i < NB; ++i) if (i < n) { init[i] = vf_i("b", 0, 1); nx_bit_array_set(a, i, init[i]); }
        int w = vf_i("w", 0, NB - 1), v = vf_int("v"); VF_ASSUME(w < n);
        nx_bit_array_set(a, w, v);
        VF_ASSERT(!!nx_bit_array_get(a, k) == (k == w ? !!v : init[k]), "exactly the addressed bit changes");
        VF_COVER("array");
        nx_free(a);
}
