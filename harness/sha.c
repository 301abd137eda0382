#include "vf.h"
#include "virg/nexus/nx_hash_sha256.h"
#include "virg/nexus/nx_string.h"
/* FIPS 180-4 reference */
static const uint32_t RK[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
#define R(x,n) (((x) >> (n)) | ((x) << (32 - (n))))
static void ref_sha(uint8_t out[32], const uint8_t *m, size_t n)
{
        uint32_t H[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
        size_t tot = (n + 9 + 63) / 64 * 64;
        uint8_t p[256];
        for (size_t i = 0; i < tot; ++i) p[i] = i < n ? m[i] : i == n ? 0x80 : i >= tot - 8 ? (uint8_t)(((uint64_t)n * 8) >> (8 * (tot - 1 - i))) : 0;
        for (size_t b = 0; b < tot; b += 64) {
                uint32_t W[64], v[8];
                for (int t = 0; t < 16; ++t) W[t] = (uint32_t)p[b + 4 * t] << 24 | (uint32_t)p[b + 4 * t + 1] << 16 | (uint32_t)p[b + 4 * t + 2] << 8 | (uint32_t)p[b + 4 * t + 3];
                for (int t = 16; t < 64; ++t) W[t] = (R(W[t - 2], 17) ^ R(W[t - 2], 19) ^ (W[t - 2] >> 10)) + W[t - 7] + (R(W[t - 15], 7) ^ R(W[t - 15], 18) ^ (W[t - 15] >> 3)) + W[t - 16];
                for (int i = 0; i < 8; ++i) v[i] = H[i];
                for (int t = 0; t < 64; ++t) {
                        uint32_t T1 = v[7] + (R(v[4], 6) ^ R(v[4], 11) ^ R(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + RK[t] + W[t];
                        uint32_t T2 = (R(v[0], 2) ^ R(v[0], 13) ^ R(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                        v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + T1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = T1 + T2;
                }
                for (int i = 0; i < 8; ++i) H[i] += v[i];
        }
        for (int i = 0; i < 8; ++i) for (int j = 0; j < 4; ++j) out[4 * i + j] = (uint8_t)(H[i] >> (24 - 8 * j));
}
static const int LEN[] = { 0, 1, 2, 3, 4, 8, 31, 32, 54, 55, 56, 57, 62, 63, 64, 65, 111, 118, 119, 120, 121, 127, 128, 129 };
#define NLEN ((int)(sizeof LEN / sizeof *LEN))
static int pick_len(void) { int k = vf_pick("len", 0, ALL ? 190 : NLEN - 1); return ALL ? k : LEN[k]; }
static const int LENM[] = { 0, 3, 55, 56, 63, 64, 65, 129 };
static void cmp(const uint8_t *h, const uint8_t *r) { for (int i = 0; i < 32; i += 4) { int eq = 1; for (int j = 0; j < 4; ++j) eq &= h[i + j] == r[i + j]; VF_ASSERT(eq, "digest equals FIPS 180-4 SHA-256"); } }
void sha_fips(void)
{
        int n = pick_len();
        uint8_t *m = malloc(n ? n : 1), h[32], r[32];
        for (int i = 0; i < n; ++i) m[i] = vf_u8("m");
        ref_sha(r, m, n);
        nx_sha256(h, m, n);
        cmp(h, r);
        VF_COVER("fips");
        free(m);
}
/* the digest of several buffers is the digest of their concatenation, however it is split */
void sha_multi(void)
{
        int n = ALL ? pick_len() : LENM[vf_pick("len", 0, 7)], k = vf_pick("k", 1, 3);
        uint8_t all[256], h[32], r[32];
        const uint8_t **p = malloc(k * sizeof *p); size_t *l = malloc(k * sizeof *l);
        int a = k > 1 ? vf_pick("a", 0, 4) : 4, b = k > 2 ? vf_pick("b", 0, 2) : 2;
        int c1 = a == 0 ? 0 : a == 1 ? (n > 1 ? 1 : n) : a == 2 ? n / 2 : a == 3 ? (n > 64 ? 64 : n) : n;
        int c2 = b == 0 ? c1 : b == 1 ? c1 + (n - c1) / 2 : n;
        int cut[4] = { 0, k == 1 ? n : c1, k == 2 ? n : c2, n };
        for (int i = 0; i < n; ++i) all[i] = vf_u8("m");
        for (int i = 0; i < k; ++i) { l[i] = cut[i + 1] - cut[i]; uint8_t *q = malloc(l[i] ? l[i] : 1); memcpy(q, all + cut[i], l[i]); p[i] = q; }
        ref_sha(r, all, n);
        nx_sha256_multi(h, k, p, l);
        cmp(h, r);
        VF_COVER("multi");
        for (int i = 0; i < k; ++i) free((void *)p[i]);
        free(p); free(l);
}
