/* Reference digests written from FIPS 180-4 / RFC 1321 / RFC 2104, structurally unlike the code under test:
 * the whole padded message is laid out first, then hashed with the textbook recurrences.
 * (models/ref_selftest checks them against Python's hashlib.) */
#ifndef REF_HASH_H
#define REF_HASH_H
#include <stdint.h>
#include <stddef.h>
#include "ref_consts.h"
#ifndef REF_MAX
#define REF_MAX 1024
#endif
enum { REF_MD5, REF_SHA1, REF_SHA256, REF_SHA512 };
static const unsigned ref_dlen[] = {16, 20, 32, 64}, ref_block[] = {64, 64, 64, 128};

static uint32_t rr32(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static uint32_t rl32(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static uint64_t rr64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }

static void ref_sha1_blk(uint32_t *H, const uint8_t *M)
{
    uint32_t W[80], a = H[0], b = H[1], c = H[2], d = H[3], e = H[4];
    for (int t = 0; t < 16; t++) W[t] = (uint32_t)M[4 * t] << 24 | (uint32_t)M[4 * t + 1] << 16 | (uint32_t)M[4 * t + 2] << 8 | M[4 * t + 3];
    for (int t = 16; t < 80; t++) W[t] = rl32(W[t - 3] ^ W[t - 8] ^ W[t - 14] ^ W[t - 16], 1);
    for (int t = 0; t < 80; t++) {
        uint32_t f = t < 20 ? (b & c) ^ (~b & d) : t < 40 ? b ^ c ^ d : t < 60 ? (b & c) ^ (b & d) ^ (c & d) : b ^ c ^ d;
        uint32_t k = t < 20 ? 0x5a827999u : t < 40 ? 0x6ed9eba1u : t < 60 ? 0x8f1bbcdcu : 0xca62c1d6u;
        uint32_t T = rl32(a, 5) + f + e + k + W[t];
        e = d; d = c; c = rl32(b, 30); b = a; a = T;
    }
    H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e;
}
static void ref_sha256_blk(uint32_t *H, const uint8_t *M)
{
    uint32_t W[64], v[8];
    for (int t = 0; t < 16; t++) W[t] = (uint32_t)M[4 * t] << 24 | (uint32_t)M[4 * t + 1] << 16 | (uint32_t)M[4 * t + 2] << 8 | M[4 * t + 3];
    for (int t = 16; t < 64; t++)
        W[t] = (rr32(W[t - 2], 17) ^ rr32(W[t - 2], 19) ^ (W[t - 2] >> 10)) + W[t - 7] + (rr32(W[t - 15], 7) ^ rr32(W[t - 15], 18) ^ (W[t - 15] >> 3)) + W[t - 16];
    for (int i = 0; i < 8; i++) v[i] = H[i];
    for (int t = 0; t < 64; t++) {
        uint32_t T1 = v[7] + (rr32(v[4], 6) ^ rr32(v[4], 11) ^ rr32(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + ref_K256[t] + W[t];
        uint32_t T2 = (rr32(v[0], 2) ^ rr32(v[0], 13) ^ rr32(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        for (int i = 7; i > 0; i--) v[i] = v[i - 1];
        v[4] += T1; v[0] = T1 + T2;
    }
    for (int i = 0; i < 8; i++) H[i] += v[i];
}
static void ref_sha512_blk(uint64_t *H, const uint8_t *M)
{
    uint64_t W[80], v[8];
    for (int t = 0; t < 16; t++) { uint64_t w = 0; for (int i = 0; i < 8; i++) w |= (uint64_t)M[8 * t + i] << (56 - 8 * i); W[t] = w; }
    for (int t = 16; t < 80; t++)
        W[t] = (rr64(W[t - 2], 19) ^ rr64(W[t - 2], 61) ^ (W[t - 2] >> 6)) + W[t - 7] + (rr64(W[t - 15], 1) ^ rr64(W[t - 15], 8) ^ (W[t - 15] >> 7)) + W[t - 16];
    for (int i = 0; i < 8; i++) v[i] = H[i];
    for (int t = 0; t < 80; t++) {
        uint64_t T1 = v[7] + (rr64(v[4], 14) ^ rr64(v[4], 18) ^ rr64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + ref_K512[t] + W[t];
        uint64_t T2 = (rr64(v[0], 28) ^ rr64(v[0], 34) ^ rr64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        for (int i = 7; i > 0; i--) v[i] = v[i - 1];
        v[4] += T1; v[0] = T1 + T2;
    }
    for (int i = 0; i < 8; i++) H[i] += v[i];
}
static const uint8_t ref_md5_s[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
static void ref_md5_blk(uint32_t *H, const uint8_t *M)
{
    uint32_t X[16], a = H[0], b = H[1], c = H[2], d = H[3];
    for (int t = 0; t < 16; t++) X[t] = (uint32_t)M[4 * t + 3] << 24 | (uint32_t)M[4 * t + 2] << 16 | (uint32_t)M[4 * t + 1] << 8 | M[4 * t];
    for (int i = 0; i < 64; i++) {
        uint32_t f; int g;
        if (i < 16) { f = (b & c) | (~b & d); g = i; }
        else if (i < 32) { f = (b & d) | (c & ~d); g = (5 * i + 1) % 16; }
        else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
        else { f = c ^ (b | ~d); g = (7 * i) % 16; }
        uint32_t t = d; d = c; c = b;
        b = b + rl32(a + f + X[g] + ref_Kmd5[i], ref_md5_s[i / 16][i % 4]);
        a = t;
    }
    H[0] += a; H[1] += b; H[2] += c; H[3] += d;
}
/* continue hashing: chaining value h (as big words), `prior` bits already hashed (block aligned), then msg[0..len) and padding */
static void ref_finish(int alg, const uint64_t *h0, uint64_t prior_bits, const uint8_t *msg, size_t len, uint8_t *out)
{
    static uint8_t buf[REF_MAX];
    unsigned B = ref_block[alg], lw = alg == REF_SHA512 ? 16 : 8;
    size_t tot = ((len + 1 + lw + B - 1) / B) * B;
    uint64_t bits = prior_bits + (uint64_t)len * 8;
    for (size_t i = 0; i < len; i++) buf[i] = msg[i];
    buf[len] = 0x80;
    for (size_t i = len + 1; i < tot; i++) buf[i] = 0;
    for (int i = 0; i < 8; i++)
        if (alg == REF_MD5) buf[tot - 8 + i] = (uint8_t)(bits >> (8 * i));
        else buf[tot - 1 - i] = (uint8_t)(bits >> (8 * i));
    if (alg == REF_SHA512) {
        uint64_t H[8];
        for (int i = 0; i < 8; i++) H[i] = h0[i];
        for (size_t o = 0; o < tot; o += B) ref_sha512_blk(H, buf + o);
        for (int i = 0; i < 64; i++) out[i] = (uint8_t)(H[i / 8] >> (56 - 8 * (i % 8)));
    } else {
        uint32_t H[8];
        for (int i = 0; i < 8; i++) H[i] = (uint32_t)h0[i];
        for (size_t o = 0; o < tot; o += B)
            if (alg == REF_MD5) ref_md5_blk(H, buf + o); else if (alg == REF_SHA1) ref_sha1_blk(H, buf + o); else ref_sha256_blk(H, buf + o);
        for (unsigned i = 0; i < ref_dlen[alg]; i++)
            out[i] = (uint8_t)(alg == REF_MD5 ? H[i / 4] >> (8 * (i % 4)) : H[i / 4] >> (24 - 8 * (i % 4)));
    }
}
static const uint64_t ref_iv[4][8] = {
    {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u},
    {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u},
    {0x6a09e667u, 0xbb67ae85u, 0x3c6ef372u, 0xa54ff53au, 0x510e527fu, 0x9b05688cu, 0x1f83d9abu, 0x5be0cd19u},
    {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull}};
static void ref_hash(int alg, const uint8_t *msg, size_t len, uint8_t *out) { ref_finish(alg, ref_iv[alg], 0, msg, len, out); }
static void ref_hmac(int alg, const uint8_t *key, size_t klen, const uint8_t *msg, size_t len, uint8_t *out)
{
    uint8_t k[128], in[REF_MAX], d[64];
    unsigned B = ref_block[alg];
    for (unsigned i = 0; i < 128; i++) k[i] = 0;
    if (klen > B) ref_hash(alg, key, klen, k);
    else for (size_t i = 0; i < klen; i++) k[i] = key[i];
    for (unsigned i = 0; i < B; i++) in[i] = k[i] ^ 0x36;
    for (size_t i = 0; i < len; i++) in[B + i] = msg[i];
    ref_hash(alg, in, B + len, d);
    for (unsigned i = 0; i < B; i++) in[i] = k[i] ^ 0x5c;
    for (unsigned i = 0; i < ref_dlen[alg]; i++) in[B + i] = d[i];
    ref_hash(alg, in, B + ref_dlen[alg], out);
}
/* RFC 5802 Hi() = PBKDF2 with one output block */
static void ref_hi(int alg, const uint8_t *pw, size_t pl, const uint8_t *salt, size_t sl, unsigned it, uint8_t *out)
{
    uint8_t u[64], s[REF_MAX];
    for (size_t i = 0; i < sl; i++) s[i] = salt[i];
    s[sl] = s[sl + 1] = s[sl + 2] = 0; s[sl + 3] = 1;
    ref_hmac(alg, pw, pl, s, sl + 4, u);
    for (unsigned i = 0; i < ref_dlen[alg]; i++) out[i] = u[i];
    for (unsigned j = 1; j < it; j++) {
        uint8_t n[64];
        ref_hmac(alg, pw, pl, u, ref_dlen[alg], n);
        for (unsigned i = 0; i < ref_dlen[alg]; i++) { u[i] = n[i]; out[i] ^= n[i]; }
    }
}
#endif
