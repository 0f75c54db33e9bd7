/* C17: bundled digests against reference definitions; concrete lengths (picked), symbolic contents, any cut into update() calls. */
#include "vf.h"
#include <string.h>
#include "common.h"
#include "md5.h"
#include "sha1.h"
#include "sha256.h"
#include "sha512.h"
#include "scram.h"
#include "ref_hash.h"
#ifndef L0
#define L0 0
#endif
#ifndef L1
#define L1 L0
#endif
union uctx { struct MD5Context md5; SHA1_CTX sha1; sha256_context s256; sha512_context s512; };
static void u_init(union uctx *c)
{
    if (ALG == REF_MD5) MD5Init(&c->md5);
    else if (ALG == REF_SHA1) crypto_SHA1_Init(&c->sha1);
    else if (ALG == REF_SHA256) sha256_init(&c->s256);
    else sha512_init(&c->s512);
}
static void u_upd(union uctx *c, const uint8_t *p, size_t n)
{
    if (ALG == REF_MD5) MD5Update(&c->md5, p, n);
    else if (ALG == REF_SHA1) crypto_SHA1_Update(&c->sha1, p, n);
    else if (ALG == REF_SHA256) sha256_process(&c->s256, p, n);
    else sha512_process(&c->s512, p, n);
}
static void u_fin(union uctx *c, uint8_t *d)
{
    if (ALG == REF_MD5) MD5Final(d, &c->md5);
    else if (ALG == REF_SHA1) crypto_SHA1_Final(&c->sha1, d);
    else if (ALG == REF_SHA256) sha256_done(&c->s256, d);
    else sha512_done(&c->s512, d);
}
static void cmp(const uint8_t *a, const uint8_t *b, unsigned n, int what)
{
    int ok = 1;
    for (unsigned i = 0; i < n; i++) ok &= a[i] == b[i];
    if (what == 0) vf_check(ok, "digest in one piece equals the standard");
    else if (what == 1) vf_check(ok, "digest of a split message equals the standard");
    else if (what == 2) vf_check(ok, "public SHA-1 API digest equals the standard");
    else if (what == 3) vf_check(ok, "HMAC equals RFC 2104");
    else vf_check(ok, "digest of a very long message equals the standard");
}
static void hexcmp(const char *s, const uint8_t *d, unsigned n)
{
    static const char dg[] = "0123456789abcdef";
    int ok = s != NULL;
    for (unsigned i = 0; s && i < n; i++) ok &= s[2 * i] == dg[d[i] >> 4] && s[2 * i + 1] == dg[d[i] & 15];
    if (s) ok &= s[2 * n] == 0;
    vf_check(ok, "hex rendering is the digest in lower-case hex");
}
void vf_main(void)
{
    static uint8_t msg[REF_MAX];
    uint8_t d[64], r[64];
    size_t L = L0 + (L1 > L0 ? vf_pick(L1 - L0 + 1) : 0);
    unsigned D = ref_dlen[ALG];
    for (size_t i = 0; i < L; i++) msg[i] = ND_U8();
#if defined(ONE)
    if (ALG == REF_SHA1) crypto_SHA1(msg, L, d);
    else if (ALG == REF_SHA256) sha256_hash(msg, L, d);
    else if (ALG == REF_SHA512) sha512_hash(msg, L, d);
    else { union uctx c; u_init(&c); u_upd(&c, msg, L); u_fin(&c, d); }
    ref_hash(ALG, msg, L, r);
    cmp(d, r, D, 0);
#elif defined(SPLITS)
    /* SPLITS pieces: the first C0..C1 bytes, then an arbitrary cut, then the rest; C0 = C1 = -1 means an arbitrary first cut too */
    union uctx c;
    size_t a, b;
#ifdef CUTS
    static const int cuts[] = {CUTS};
    a = cuts[vf_pick(sizeof cuts / sizeof *cuts)];
    if (a > L) return;
    b = a + vf_pick(L - a + 1);
#else
    a = vf_pick(L + 1); b = L;
#endif
    u_init(&c);
    u_upd(&c, msg, a);
    u_upd(&c, msg + a, b - a);
    u_upd(&c, msg + b, L - b);
    if (SPLITS == 4) u_upd(&c, msg, 0);
    u_fin(&c, d);
    ref_hash(ALG, msg, L, r);
    cmp(d, r, D, 1);
#elif defined(CHUNK)
    union uctx c;
    size_t n = 1 + vf_pick(CHUNK);
    u_init(&c);
    for (size_t i = 0; i < L; i += n) u_upd(&c, msg + i, L - i < n ? L - i : n);
    u_fin(&c, d);
    ref_hash(ALG, msg, L, r);
    cmp(d, r, D, 1);
#elif defined(PUBLIC)
    size_t a = vf_pick(L + 1);
    char out[64], *s;
    ref_hash(REF_SHA1, msg, L, r);
    xmpp_sha1_digest(msg, L, d);
    cmp(d, r, 20, 2);
    s = xmpp_sha1(NULL, msg, L);
    hexcmp(s, r, 20);
    xmpp_free(NULL, s);
    xmpp_sha1_t *h = xmpp_sha1_new(NULL);
    xmpp_sha1_update(h, msg, a);
    xmpp_sha1_update(h, msg + a, 0);
    xmpp_sha1_update(h, msg + a, L - a);
    xmpp_sha1_final(h);
    for (int i = 0; i < 20; i++) d[i] = 0;
    xmpp_sha1_to_digest(h, d);
    cmp(d, r, 20, 2);
    out[0] = 1;
    hexcmp(xmpp_sha1_to_string(h, out, 41), r, 20);
    s = xmpp_sha1_to_string_alloc(h);
    hexcmp(s, r, 20);
    xmpp_free(NULL, s);
    xmpp_sha1_free(h);
#elif defined(HMAC)
    /* HMAC through the exported SCRAM helpers: ClientKey(i=1) = HMAC(HMAC(pw, salt||INT(1)), "Client Key"),
     * ClientSignature = HMAC(H(ClientKey), AuthMessage) */
    const struct hash_alg *alg = NULL;
    uint8_t t[64], u[64], salt[REF_MAX];
    for (size_t i = 0; i < scram_algs_num; i++) if (scram_algs[i]->digest_size == D) alg = scram_algs[i];
    vf_check(alg != NULL, "algorithm available");
    size_t sl = SALT;
    for (size_t i = 0; i < sl; i++) salt[i] = ND_U8();
    SCRAM_ClientKey(alg, msg, L, salt, sl, 1, d);
    ref_hi(ALG, msg, L, salt, sl, 1, t);
    ref_hmac(ALG, t, D, (const uint8_t *)"Client Key", 10, r);
    cmp(d, r, D, 3);
    SCRAM_ClientSignature(alg, salt, msg, L, d);   /* salt buffer doubles as an arbitrary ClientKey (SALT >= D) */
    ref_hash(ALG, salt, D, t);
    ref_hmac(ALG, t, D, msg, L, u);
    cmp(d, u, D, 3);
#elif defined(LONG)
    /* a context in an arbitrary mid-message state: arbitrary chaining value, arbitrary number of whole blocks hashed so far */
    union uctx c;
    static const uint32_t los[] = {0, 1024, 0x80000000u, 0xfffff400u, 0xfffff800u, 0xfffffc00u};
    uint64_t bits = ND_U64() << 32 | los[vf_pick(6)], h[8];
    uint8_t z[128] = {0};
    int same;
    vf_assume(bits < (1ull << 62));
    /* calibrate the meaning of the counters on the code itself; another layout is not judged here */
    u_init(&c); u_upd(&c, z, ref_block[ALG]);
    if (ALG == REF_MD5) same = c.md5.bits[0] == 512 && c.md5.bits[1] == 0;
    else if (ALG == REF_SHA1) same = c.sha1.count[0] == 512 && c.sha1.count[1] == 0;
    else if (ALG == REF_SHA256) same = c.s256.length == 512 && c.s256.curlen == 0;
    else same = c.s512.length == 1024 && c.s512.curlen == 0;
    if (!same) { vf_reached("counter layout differs"); return; }
    u_init(&c);
    for (int i = 0; i < 8; i++) h[i] = ALG == REF_SHA512 ? ND_U64() : ND_U32();
    if (ALG == REF_MD5) { for (int i = 0; i < 4; i++) c.md5.buf[i] = h[i]; c.md5.bits[0] = (uint32_t)bits; c.md5.bits[1] = (uint32_t)(bits >> 32); }
    else if (ALG == REF_SHA1) { for (int i = 0; i < 5; i++) c.sha1.state[i] = h[i]; c.sha1.count[0] = (uint32_t)bits; c.sha1.count[1] = (uint32_t)(bits >> 32); }
    else if (ALG == REF_SHA256) { for (int i = 0; i < 8; i++) c.s256.state[i] = h[i]; c.s256.length = bits; }
    else { for (int i = 0; i < 8; i++) c.s512.state[i] = h[i]; c.s512.length = bits; }
    size_t a = L > 1 ? 1 : 0;
    u_upd(&c, msg, a);
    u_upd(&c, msg + a, L - a);
    u_fin(&c, d);
    ref_finish(ALG, h, bits, msg, L, r);
    cmp(d, r, D, 4);
#endif
    vf_reached("compared");
}
