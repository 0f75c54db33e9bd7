/* C19: JID helpers.  Concrete lengths (one harness run per length tuple), symbolic contents. */
#include "vf.h"
#include <string.h>
#include "common.h"
extern int vf_live;
static int bad(char c) { return c == '"' || c == '&' || c == '\'' || c == '/' || c == ':' || c == '<' || c == '>' || c == '@'; }
static int eqn(const char *s, const char *t, size_t n)   /* s (NUL-terminated) equals the n bytes at t */
{
    for (size_t i = 0; i < n; i++)
        if (s[i] != t[i]) return 0;
    return s[n] == 0;
}
#ifdef SPLIT
void vf_main(void)
{
    char *j = vf_malloc(LEN + 1);
    size_t i;
    for (i = 0; i < LEN; i++) {
        unsigned char c = ND_U8();
        vf_assume(c != 0);
        j[i] = c;
    }
    j[LEN] = 0;
    size_t sl = LEN, at = LEN;
    for (i = LEN; i-- > 0;) if (j[i] == '/') sl = i;
    int hasat = 0;
    for (i = LEN; i-- > 0;) if (i < sl && j[i] == '@') { at = i; hasat = 1; }
    size_t ds = hasat ? at + 1 : 0;
    char *b = xmpp_jid_bare(NULL, j), *n = xmpp_jid_node(NULL, j), *d = xmpp_jid_domain(NULL, j), *r = xmpp_jid_resource(NULL, j);
    vf_check(b && eqn(b, j, sl), "bare JID is the string without its resource");
    vf_check((n != NULL) == hasat, "node present exactly when there is an '@' before the resource");
    if (n) vf_check(eqn(n, j, at), "node value");
    vf_check(d && eqn(d, j + ds, sl - ds), "domain value");
    vf_check((r != NULL) == (sl < LEN), "resource present exactly when there is a '/'");
    if (r) vf_check(eqn(r, j + sl + 1, LEN - sl - 1), "resource value");
    /* joining the returned parts reproduces the string (xmpp_jid_new is the joiner when it accepts) */
    size_t nl = n ? strlen(n) : 0, dl = strlen(d), rl = r ? strlen(r) : 0;
    vf_check(nl + (n ? 1 : 0) + dl + (r ? 1 + rl : 0) == LEN, "joined parts have the length of the string");
    if (n) { vf_reached("with node"); strophe_free(NULL, n); }
    if (r) { vf_reached("with resource"); strophe_free(NULL, r); }
    strophe_free(NULL, b);
    strophe_free(NULL, d);
    vf_check(vf_live == 0, "no block leaked");
    vf_free(j);
    vf_reached("split");
}
#else
/* NL/DL/RL: part lengths, -1 = absent.  FILL: bytes after the first and before the last FILL are 'a' (long parts). */
#ifndef FILL
#define FILL 100000
#endif
static char *part(int l)
{
    if (l < 0) return NULL;
    char *p = vf_malloc(l + 1);
    for (int i = 0; i < l; i++) {
        if (i < FILL || i >= l - FILL) {
            unsigned char c = ND_U8();
            vf_assume(c != 0);
            p[i] = c;
        } else
            p[i] = 'a';
    }
    p[l] = 0;
    return p;
}
void vf_main(void)
{
    char *n = part(NL), *d = part(DL), *r = part(RL);
    int i, nbad = 0, dbad = 0;
    for (i = 0; i < NL; i++) if (bad(n[i])) nbad = 1;
    for (i = 0; i < DL; i++) if (d[i] == '/' || d[i] == '@') dbad = 1;
    char *j = xmpp_jid_new(NULL, n, d, r);
    int refuse = DL < 0 || DL > 1023 || NL > 1023 || RL > 1023 || nbad;
    if (refuse)
        vf_check(j == NULL, "refuses a bad local part, a missing domain or an over-long part");
    else if (!dbad) {
        vf_check(j != NULL, "accepts valid parts");
        size_t o = 0;
        if (NL >= 0) {
            for (i = 0; i < NL; i++) vf_check(j[o + i] == n[i], "node bytes");
            vf_check(j[o + NL] == '@', "separator after node");
            o += NL + 1;
        }
        for (i = 0; i < DL; i++) vf_check(j[o + i] == d[i], "domain bytes");
        o += DL;
        if (RL >= 0) {
            vf_check(j[o] == '/', "separator before resource");
            for (i = 0; i < RL; i++) vf_check(j[o + 1 + i] == r[i], "resource bytes");
            o += RL + 1;
        }
        vf_check(j[o] == 0, "terminated");
        char *pn = xmpp_jid_node(NULL, j), *pd = xmpp_jid_domain(NULL, j), *pr = xmpp_jid_resource(NULL, j);
        vf_check((pn != NULL) == (NL >= 0) && (!pn || eqn(pn, n, NL)), "splitting returns the node");
        vf_check(pd && eqn(pd, d, DL), "splitting returns the domain");
        vf_check((pr != NULL) == (RL >= 0) && (!pr || eqn(pr, r, RL)), "splitting returns the resource");
        if (pn) strophe_free(NULL, pn);
        if (pr) strophe_free(NULL, pr);
        strophe_free(NULL, pd);
        vf_reached("accepted");
    }
    if (j) strophe_free(NULL, j);
    vf_check(vf_live == 0, "no block leaked");
    vf_reached("end");
}
#endif
