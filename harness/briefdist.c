/* Hamming distance of descriptors of every length up to NO octets, any contents */
#include <stdlib.h>
#include "vf.h"
#include "virg/nexus/nx_brief_extractor.h"
#ifndef NO
#define NO 10
#endif
static int bits(unsigned v) { int n = 0; for (int i = 0; i < 8; ++i) n += v >> i & 1; return n; }
void brief_dist(void)
{
        int n = vf_pick("n", 0, NO); unsigned char a[NO], b[NO]; int d = 0;
        vf_bytes("a", a, NO); vf_bytes("b", b, NO); unsigned char *p = malloc(n ? n : 1), *q = malloc(n ? n : 1);
        for (int i = 0; i < n; ++i) { p[i] = a[i]; q[i] = b[i]; d += bits(a[i] ^ b[i]); }
        VF_ASSERT(nx_brief_extractor_descriptor_distance(n, p, q) == d, "Hamming distance"); VF_COVER("distance"); free(p); free(q);
}
