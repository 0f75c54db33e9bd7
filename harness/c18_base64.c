/* C18: base64 codec vs. an independent RFC 4648 reference. */
#include "vf.h"
#include <string.h>
#include "common.h"
extern int vf_live;
static int val(unsigned char c)
{
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    if (c == '+') return 62;
    if (c == '/') return 63;
    return -1;
}
static char sym(unsigned v)
{
    if (v < 26) return 'A' + v;
    if (v < 52) return 'a' + (v - 26);
    if (v < 62) return '0' + (v - 52);
    return v == 62 ? '+' : '/';
}
#ifndef N
#define N 9
#endif
#ifdef ENC
void vf_main(void)
{
    unsigned char in[N + 1];
    size_t n = LEN, i;
    vf_bytes(in, N);
    char *e = xmpp_base64_encode(NULL, in, n);
    vf_check(e != NULL, "encode returns a string");
    size_t el = (n + 2) / 3 * 4;
    for (i = 0; i < N; i += 3) {
        if (i < n) {
            unsigned a = in[i], b = i + 1 < n ? in[i + 1] : 0, c = i + 2 < n ? in[i + 2] : 0;
            char *q = e + i / 3 * 4;
            vf_check(q[0] == sym(a >> 2), "encoded char 0");
            vf_check(q[1] == sym((a & 3) << 4 | b >> 4), "encoded char 1");
            vf_check(q[2] == (i + 1 < n ? sym((b & 15) << 2 | c >> 6) : '='), "encoded char 2");
            vf_check(q[3] == (i + 2 < n ? sym(c & 63) : '='), "encoded char 3");
        }
    }
    vf_check(e[el] == 0, "encoded string terminated at canonical length");
    /* and back */
    if (n > 0) {
        unsigned char *d = NULL;
        size_t dl = 77;
        xmpp_base64_decode_bin(NULL, e, el, &d, &dl);
        vf_check(d != NULL, "canonical encoding accepted by decode_bin");
        vf_check(dl == n, "decoded length");
        for (i = 0; i < N; i++)
            if (i < n)
                vf_check(d[i] == in[i], "decoded byte equals input");
        strophe_free(NULL, d);
    }
    int hasnul = 0;
    for (i = 0; i < N; i++)
        if (i < n && in[i] == 0) hasnul = 1;
    char *s = xmpp_base64_decode_str(NULL, e, el);
    vf_check(hasnul == (s == NULL), "decode_str accepts exactly NUL-free values");
    if (s) {
        for (i = 0; i < N; i++)
            if (i < n)
                vf_check((unsigned char)s[i] == in[i], "decode_str byte equals input");
        vf_check(s[n] == 0, "decode_str terminated");
        strophe_free(NULL, s);
    }
    strophe_free(NULL, e);
    vf_check(vf_live == 0, "no block leaked");
    vf_reached("encode");
}
#else
/* decode: arbitrary character string of length <= N */
void vf_main(void)
{
    size_t n = LEN, i;
    /* exact-size buffer: reading past len is out of contract and caught */
    char *in = vf_malloc(n ? n : 1);
    unsigned char cp[N + 1];
    for (i = 0; i < N; i++) {
        unsigned char c = ND_U8();
        cp[i] = c;
        if (i < n) in[i] = (char)c;
    }
    /* reference */
    int ok = (n % 4) == 0;
    size_t pad = 0;
    if (ok && n) {
        if (cp[n - 1] == '=') pad = cp[n - 2] == '=' ? 2 : 1;
        for (i = 0; i < N; i++)
            if (i < n - pad && val(cp[i]) < 0) ok = 0;
    }
    size_t rl = n / 4 * 3 - pad;
    unsigned char ref[N + 4];
    int hasnul = 0;
    for (i = 0; i + 3 < N + 1; i += 4) {
        if (i < n) {
            unsigned w = 0, j;
            for (j = 0; j < 4; j++)
                w = w << 6 | (val(cp[i + j]) < 0 ? 0u : (unsigned)val(cp[i + j]));
            ref[i / 4 * 3] = w >> 16;
            ref[i / 4 * 3 + 1] = w >> 8;
            ref[i / 4 * 3 + 2] = w;
        }
    }
    if (ok)
        for (i = 0; i < N; i++)
            if (i < rl && ref[i] == 0) hasnul = 1;
    /* a correctly padded string whose unused trailing bits are non-zero:
       RFC 4648 3.5 leaves acceptance to the decoder, so neither verdict is demanded */
    int canon = 1;
    if (ok && pad == 1 && (val(cp[n - 2]) & 3)) canon = 0;
    if (ok && pad == 2 && (val(cp[n - 3]) & 15)) canon = 0;

    unsigned char *d = (unsigned char *)1;
    size_t dl = 77;
    xmpp_base64_decode_bin(NULL, in, n, &d, &dl);
    if (!ok) {
        vf_check(d == NULL, "decode_bin rejects a string that is not correctly padded base64");
        vf_check(dl == 0, "failure reports length 0");
    } else if (n > 0) {
        if (canon) vf_check(d != NULL, "decode_bin accepts correctly padded base64");
        if (d) {
            vf_check(dl == rl, "decode_bin length");
            for (i = 0; i < N; i++)
                if (i < rl)
                    vf_check(d[i] == ref[i], "decode_bin value");
        } else
            vf_check(dl == 0, "failure reports length 0");
    } else
        vf_check(dl == 0, "empty string decodes to length 0");
    if (d) strophe_free(NULL, d);
    char *s = xmpp_base64_decode_str(NULL, in, n);
    if (!ok || hasnul)
        vf_check(s == NULL, "decode_str refuses invalid or NUL-carrying values");
    else {
        if (canon) vf_check(s != NULL, "decode_str accepts correctly padded base64 without NUL");
        if (s) {
            for (i = 0; i < N; i++)
                if (i < rl)
                    vf_check((unsigned char)s[i] == ref[i], "decode_str value");
            vf_check(s[rl] == 0, "decode_str length");
        }
    }
    if (s) strophe_free(NULL, s);
    vf_check(vf_live == 0, "no block leaked");
    vf_free(in);
    vf_reached("decode");
}
#endif
