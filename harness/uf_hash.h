/* MD5/SHA-1/SHA-256/SHA-512 as uninterpreted functions: equal messages (decided by the solver, byte by byte) get
 * equal digests, different ones different digests. Replaces md5.c, sha1.c, sha256.c and sha512.c (C17 decides
 * those); contexts may be copied. Some digests contain zero bytes. */
#include "md5.h"
#include "sha1.h"
#include "sha256.h"
#include "sha512.h"
typedef struct HN { const struct HN *prev; unsigned n; unsigned char b[]; } HN;
static const unsigned uf_dl[] = {16, 20, 32, 64};
#define UF_MAX 400
static struct { int alg; unsigned n; unsigned char *m, d[64]; } uf_t[UF_MAX]; static int uf_n;
static void uf_digest(int alg, const unsigned char *m, unsigned n, unsigned char *out)
{
    for (int k = 0; k < uf_n; k++) {
        unsigned char x = 0;
        if (uf_t[k].alg != alg || uf_t[k].n != n) continue;
        for (unsigned i = 0; i < n; i++) x |= uf_t[k].m[i] ^ m[i];
        if (x == 0) { memcpy(out, uf_t[k].d, uf_dl[alg]); return; }
    }
    vf_check(uf_n < UF_MAX, "harness: hash table");
    uf_t[uf_n].alg = alg; uf_t[uf_n].n = n; uf_t[uf_n].m = vf_malloc(n + 1); memcpy(uf_t[uf_n].m, m, n);
    uint32_t r = 0x9e3779b9u * (uint32_t)(uf_n + 1);
    for (unsigned i = 0; i < uf_dl[alg]; i++) { r = r * 1664525u + 1013904223u; uf_t[uf_n].d[i] = (unsigned char)(r >> 24); }
    uf_t[uf_n].d[(unsigned)(uf_n * 7 + 5) % uf_dl[alg]] = 0;
    memcpy(out, uf_t[uf_n].d, uf_dl[alg]);
    uf_n++;
}
static void uf_upd(const HN **c, const void *d, size_t n) { if (!n) return; HN *h = vf_malloc(sizeof *h + n); h->prev = *c; h->n = (unsigned)n; memcpy(h->b, d, n); *c = h; }
static void uf_fin(int alg, const HN **c, unsigned char *out)
{
    unsigned n = 0, o;
    for (const HN *h = *c; h; h = h->prev) n += h->n;
    unsigned char *m = vf_malloc(n + 1); o = n;
    for (const HN *h = *c; h; h = h->prev) { o -= h->n; memcpy(m + o, h->b, h->n); }
    uf_digest(alg, m, n, out);
    *c = NULL;
}
#define UFC(x) ((const HN **)(void *)(x))
void MD5Init(struct MD5Context *c) { *UFC(c) = NULL; }
void MD5Update(struct MD5Context *c, unsigned char const *b, uint32_t n) { uf_upd(UFC(c), b, n); }
void MD5Final(unsigned char d[16], struct MD5Context *c) { uf_fin(0, UFC(c), d); }
void crypto_SHA1_Init(SHA1_CTX *c) { *UFC(c) = NULL; }
void crypto_SHA1_Update(SHA1_CTX *c, const uint8_t *b, size_t n) { uf_upd(UFC(c), b, n); }
void crypto_SHA1_Final(SHA1_CTX *c, uint8_t *d) { uf_fin(1, UFC(c), d); }
void crypto_SHA1(const uint8_t *b, size_t n, uint8_t *d) { uf_digest(1, b, (unsigned)n, d); }
void sha256_init(sha256_context *c) { *UFC(c) = NULL; }
void sha256_process(sha256_context *c, const uint8_t *b, size_t n) { uf_upd(UFC(c), b, n); }
void sha256_done(sha256_context *c, uint8_t *d) { uf_fin(2, UFC(c), d); }
void sha256_hash(const uint8_t *b, size_t n, uint8_t *d) { uf_digest(2, b, (unsigned)n, d); }
void sha512_init(sha512_context *c) { *UFC(c) = NULL; }
void sha512_process(sha512_context *c, const uint8_t *b, size_t n) { uf_upd(UFC(c), b, n); }
void sha512_done(sha512_context *c, uint8_t *d) { uf_fin(3, UFC(c), d); }
void sha512_hash(const uint8_t *b, size_t n, uint8_t *d) { uf_digest(3, b, (unsigned)n, d); }
/* RFC 2104 / RFC 5802 over the uninterpreted hash */
static void rf_hmac(int alg, const unsigned char *k, unsigned kl, const unsigned char *m, unsigned n, unsigned char *out)
{
    unsigned bl = alg == 3 ? 128 : 64; unsigned char kb[128] = {0}, *t = vf_malloc(bl + (n > 64 ? n : 64) + 1), d[64];
    if (kl > bl) uf_digest(alg, k, kl, kb); else memcpy(kb, k, kl);
    for (unsigned i = 0; i < bl; i++) t[i] = kb[i] ^ 0x36;
    memcpy(t + bl, m, n);
    uf_digest(alg, t, bl + n, d);
    for (unsigned i = 0; i < bl; i++) t[i] = kb[i] ^ 0x5c;
    memcpy(t + bl, d, uf_dl[alg]);
    uf_digest(alg, t, bl + uf_dl[alg], out);
}
static void rf_hi(int alg, const unsigned char *p, unsigned pl, const unsigned char *s, unsigned sl, unsigned it, unsigned char *out)
{
    unsigned char *b = vf_malloc(sl + 5), u[64];
    memcpy(b, s, sl); b[sl] = b[sl + 1] = b[sl + 2] = 0; b[sl + 3] = 1;
    rf_hmac(alg, p, pl, b, sl + 4, u);
    memcpy(out, u, uf_dl[alg]);
    for (unsigned i = 1; i < it; i++) { rf_hmac(alg, p, pl, u, uf_dl[alg], u); for (unsigned k = 0; k < uf_dl[alg]; k++) out[k] ^= u[k]; }
}
