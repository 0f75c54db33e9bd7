/* C07: the nonce of the real rand.c is fresh for each attempt. DRBG 0: over getrandom() (short reads, EINTR);
 * DRBG 1: the Hash_DRBG built without getrandom(), its hash uninterpreted (uf_hash.h). */
#define W_OWN_RAND
#include "world.h"
#ifndef DRBG
#define DRBG 0
#endif
#if DRBG
#include "uf_hash.h"
static clock_t ck; clock_t vf_clock(void) { return ck; }
static void one(xmpp_rand_t *r, char *o, size_t n)
{
    ck = (clock_t)vf_nd(64); w_ms = (uint32_t)vf_nd(32); vf_assume(w_ms < 1000);
    memset(o, 'x', n + 1);
    xmpp_rand_nonce(r, o, n);
    vf_check(o[n - 1] == 0 && o[n] == 'x', "the nonce does not fit");
    for (size_t i = 0; i + 1 < n; i++) vf_check(o[i] > 32 && o[i] < 127 && o[i] != ',', "byte of a nonce");
}
void vf_main(void)
{
    static char o[6][40];
    w_init();
    xmpp_rand_t *r = w_ctx->rand, *q = xmpp_rand_new(w_ctx);
    size_t n = vf_pick(2) ? 21 : 33;
    for (int i = 0; i < 4; i++) one(r, o[i], n);
    for (int i = 4; i < 6; i++) one(q, o[i], n);
    for (int i = 0; i < 6; i++) for (int j = 0; j < i; j++) vf_check(strcmp(o[i], o[j]) != 0, "two attempts use the same nonce");
    xmpp_rand_free(w_ctx, q);
    vf_reached("nonces differ");
}
#else
static unsigned char st[2][64]; static unsigned at[2]; static int run_, intr;
ssize_t vf_getrandom(void *p, size_t n, unsigned fl)
{
    size_t k = n; unsigned c;
    (void)fl;
    c = intr < 3 ? (unsigned)vf_pick(3) : 0;
    if (c == 1) { intr++; errno = EINTR; return -1; }
    if (c == 2 && n > 1) { intr++; k = n / 2; }
    vf_check(at[run_] + k <= sizeof st[0], "harness: random stream"); 
    for (size_t i = 0; i < k; i++) { st[run_][at[run_] + i] = (unsigned char)vf_nd(8); ((unsigned char *)p)[i] = st[run_][at[run_] + i]; }
    at[run_] += (unsigned)k;
    return (ssize_t)k;
}
void vf_main(void)
{
    static char o[2][40]; static const unsigned lens[] = {16, 20, 21};
    unsigned char a = 0, b = 0; size_t n = lens[vf_pick(3)], k = (n - 1) / 2;
    w_init();
    for (run_ = 0; run_ < 2; run_++) {
        memset(o[run_], 'x', n + 1);
        xmpp_rand_nonce(w_ctx->rand, o[run_], n);
        vf_check(o[run_][n - 1] == 0 && o[run_][n] == 'x', "the nonce does not fit");
        for (size_t i = 0; i + 1 < n; i++) vf_check(o[run_][i] > 32 && o[run_][i] < 127 && o[run_][i] != ',', "byte of a nonce");
        vf_check(at[run_] >= k, "the nonce is made of too few random bytes"); if (at[run_] < k) return;
    }
    for (size_t i = 0; i < n; i++) a |= (unsigned char)(o[0][i] ^ o[1][i]);
    for (size_t i = 0; i < k; i++) b |= st[0][i] ^ st[1][i];
    vf_check(!(a == 0 && b != 0), "different random bytes, the same nonce");
    if (a) vf_reached("nonces differ");
}
#endif
