// SHA-224 and SHA-256 against FIPS 180-4, from the padded message down.
#include "sym.h"
#include <crefl/sha256.h>
// the constants are computed from the roots of the primes, not copied from the code
static const uint32_t FK[] = { 0x428a2f98u, 0x71374491u, 0xb5c0fbcfu, 0xe9b5dba5u, 0x3956c25bu, 0x59f111f1u, 0x923f82a4u, 0xab1c5ed5u, 0xd807aa98u, 0x12835b01u, 0x243185beu, 0x550c7dc3u, 0x72be5d74u, 0x80deb1feu, 0x9bdc06a7u, 0xc19bf174u, 0xe49b69c1u, 0xefbe4786u, 0x0fc19dc6u, 0x240ca1ccu, 0x2de92c6fu, 0x4a7484aau, 0x5cb0a9dcu, 0x76f988dau, 0x983e5152u, 0xa831c66du, 0xb00327c8u, 0xbf597fc7u, 0xc6e00bf3u, 0xd5a79147u, 0x06ca6351u, 0x14292967u, 0x27b70a85u, 0x2e1b2138u, 0x4d2c6dfcu, 0x53380d13u, 0x650a7354u, 0x766a0abbu, 0x81c2c92eu, 0x92722c85u, 0xa2bfe8a1u, 0xa81a664bu, 0xc24b8b70u, 0xc76c51a3u, 0xd192e819u, 0xd6990624u, 0xf40e3585u, 0x106aa070u, 0x19a4c116u, 0x1e376c08u, 0x2748774cu, 0x34b0bcb5u, 0x391c0cb3u, 0x4ed8aa4au, 0x5b9cca4fu, 0x682e6ff3u, 0x748f82eeu, 0x78a5636fu, 0x84c87814u, 0x8cc70208u, 0x90befffau, 0xa4506cebu, 0xbef9a3f7u, 0xc67178f2u };
static const uint32_t F256[] = { 0x6a09e667u, 0xbb67ae85u, 0x3c6ef372u, 0xa54ff53au, 0x510e527fu, 0x9b05688cu, 0x1f83d9abu, 0x5be0cd19u };
static const uint32_t F224[] = { 0xc1059ed8u, 0x367cd507u, 0x3070dd17u, 0xf70e5939u, 0xffc00b31u, 0x68581511u, 0x64f98fa7u, 0xbefa4fa4u };

static uint32_t rotr(uint32_t x, unsigned n) { return (x >> n) | (x << (32 - n)); }
static void fips(int bits, const uint8_t *m, size_t len, uint8_t *out)
{
    uint32_t h[8]; memcpy(h, bits == 224 ? F224 : F256, 32); size_t blocks = (len + 8) / 64 + 1;
    for (size_t b = 0; b < blocks; b++) {
        uint32_t w[64]; uint8_t p[64];
        for (size_t i = 0; i < 64; i++) { size_t at = b * 64 + i; uint64_t l = (uint64_t)len * 8; p[i] = at < len ? m[at] : at == len ? 0x80 : at >= blocks * 64 - 8 ? (uint8_t)(l >> (8 * (blocks * 64 - 1 - at))) : 0; }
        for (int t = 0; t < 16; t++) w[t] = (uint32_t)p[4 * t] << 24 | (uint32_t)p[4 * t + 1] << 16 | (uint32_t)p[4 * t + 2] << 8 | p[4 * t + 3];
        for (int t = 16; t < 64; t++) { uint32_t x = w[t - 2], y = w[t - 15]; w[t] = (rotr(x, 17) ^ rotr(x, 19) ^ (x >> 10)) + w[t - 7] + (rotr(y, 7) ^ rotr(y, 18) ^ (y >> 3)) + w[t - 16]; }
        uint32_t a = h[0], B = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], k = h[7];
        for (int t = 0; t < 64; t++) {
            uint32_t t1 = k + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ((e & f) ^ (~e & g)) + FK[t] + w[t], t2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + ((a & B) ^ (a & c) ^ (B & c));
            k = g; g = f; f = e; e = d + t1; d = c; c = B; B = a; a = t1 + t2;
        }
        h[0] += a; h[1] += B; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += k;
    }
    for (int i = 0; i < bits / 8; i++) out[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4)));
}
static void init(sha256_ctx *c, int bits) { if (bits == 224) sha224_init(c); else sha256_init(c); }
// a whole message of arbitrary octets
HARNESS sha_msg()
{
    int bits = (int)sym_param("bits"); size_t len = sym_param("len"), lo = sym_param("fixed"); uint8_t *m = (uint8_t *)malloc(len); for (size_t i = 0; i < len; i++) m[i] = (uint8_t)(i * 7 + 3); if (lo < len) sym_bytes(m + lo, len - lo, "message");
    sha256_ctx c; uint8_t r[33], f[32]; memset(&c, 0x77, sizeof c); memset(r, 0x77, sizeof r); init(&c, bits);
    sha256_update(&c, m, len); sha256_final(&c, r); fips(bits, m, len, f);
    sym_assert_equiv(r, f, bits / 8, "the digest is that of FIPS 180-4");
    for (int i = bits / 8; i < 33; i++) sym_assert(r[i] == 0x77, "exactly the digest is written");
    free(m);
}
// messages in pieces: every way to cut a message in three, and the context used again
HARNESS sha_pieces()
{
    int bits = (int)sym_param("bits"); size_t len = sym_param("len"), a = sym_choose(0, len, "first"), b = sym_param("three") ? sym_choose(a, len, "second") : len; static uint8_t m[200]; sym_bytes(m, len, "message");
    sha256_ctx c, d; uint8_t r[32], s[32]; init(&c, bits); init(&d, bits);
    if (sym_choose(0, 1, "used before")) { sha256_update(&c, m, 9); sha256_final(&c, r); init(&c, bits); }
    sha256_update(&c, m, a); sha256_update(&c, m + a, b - a); sha256_update(&c, m + b, len - b); sha256_final(&c, r);
    sha256_update(&d, m, len); sha256_final(&d, s);
    sym_assert_equiv(r, s, bits / 8, "the digest does not depend on how the message is cut");
}
