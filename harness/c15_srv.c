/* C15: DNS SRV response decoding against an independent RFC 1035/2782 decoder.
 * LEN bytes, all symbolic unless constrained below. */
#include "vf.h"
#include <string.h>
#include "common.h"
#include "resolver.h"
extern int vf_live;
#define MAXANS (MAXLEN / 11 + 1)
#ifndef MAXLEN
#define MAXLEN LEN
#endif
#ifndef GEN
#define len ((unsigned)LEN)
#else
static unsigned len;
#endif
static unsigned char *B;
static unsigned u16(unsigned o) { return B[o] << 8 | B[o + 1]; }
/* expands the name at off; returns wire length or 0 when malformed; *outl: text length without trailing dot, -1 if too long */
static unsigned ref_name(unsigned off, char *out, int *outl, int *odd)
{
    unsigned o = off, wire = 0, start = off, jumps = 0;
    int l = 0;
    *odd = 0;
    for (;;) {
        if (o >= len) return 0;
        unsigned c = B[o];
        if (c != 0 && c < 0x40 && o + 1 + c <= len) c = (unsigned)vf_concretize(c); /* one path per structure */
        if (c == 0) {
            if (!jumps) wire = o + 1 - off;
            else if (start == o) *odd = 1;      /* pointer straight to the root label */
            break;
        }
        if (c >= 0xc0) {
            if (o + 1 >= len) return 0;
            unsigned p = (c & 0x3f) << 8 | B[o + 1];
            if (!jumps) wire = o + 2 - off;
            if (p >= start) return 0; /* not a prior name */
            p = (unsigned)vf_concretize(p);
            start = o = p;
            jumps++;
            continue;
        }
        if (c >= 0x40) return 0;
        if (o + 1 + c > len) return 0;
        for (unsigned k = 0; k < c; k++) {
            if (out && l < 255) out[l] = B[o + 1 + k];
            if (B[o + 1 + k] == 0) *odd = 1;    /* NUL inside a label has no C-string form */
            l++;
        }
        if (out && l < 255) out[l] = '.';
        l++;
        o += 1 + c;
    }
    if (l > 0) l--;
    *outl = l;
    if (l > 253) *outl = -1;
    return wire;
}
struct rec { unsigned prio, weight, port; int tl; char t[256]; };
static struct rec R[MAXANS + 1];

#ifdef GEN
static unsigned char M[MAXLEN];
static unsigned mo;
static void p8(unsigned v) { M[mo++] = (unsigned char)v; }
static void p16(unsigned v) { p8(v >> 8); p8(v); }
static void sym(unsigned n) { while (n--) M[mo++] = ND_U8(); }
/* fields outside names: symbolic, or fixed when pointers may land in them (PLAIN) */
static void fld(unsigned n) {
#ifdef PLAIN
    while (n--) p8(mo % 3);
#else
    sym(n);
#endif
}
/* a name: kind 0 root, 1 one short label, 2 two labels, 3 pointer to any earlier offset, 4 label then pointer, 5 free bytes, 6 long labels, 7 long label then pointer to PREV */
static unsigned prevname = 12;
static void name(unsigned kind)
{
    unsigned at = mo;
    switch (kind) {
    case 0: p8(0); break;
    case 1: p8(1); sym(1); p8(0); break;
    case 2: p8(2); sym(2); p8(1); sym(1); p8(0); break;
    case 3: p8(0xc0); sym(1); break;
    case 4: p8(1); sym(1); p8(0xc0 | (unsigned)vf_nd(6)); sym(1); break;
    case 5: sym(FREE); break;
    case 6: { unsigned n = 1 + vf_pick(5), l = 60 + vf_pick(4); while (n--) { p8(l); for (unsigned i = 0; i < l; i++) p8('a' + n); } p8(0); break; }
    case 7: { unsigned l = vf_pick(2) ? 63 : 1 + vf_pick(3); p8(l); for (unsigned i = 0; i < l; i++) p8('b'); p8(0xc0 | prevname >> 8); p8(prevname); break; }
    }
    prevname = at;
}
#ifndef QK
#define QK 0
#endif
static void gen(void)
{
    static const unsigned char ok[] = {OKINDS};
    static const unsigned char tk[] = {TKINDS};
    p16(0); sym(1); p8(0x80 & 0xf0); mo = 0;
    p16(0); p8(0x80); p8(0); p16(QDN); p16(ANN); p16(0); p16(0);
#ifdef SYMFLAGS
    M[2] = ND_U8(); M[3] = ND_U8();
#endif
    for (unsigned q = 0; q < QDN; q++) { name(q ? 7 : QK); fld(4); }
    for (unsigned a = 0; a < ANN; a++) {
        name(ok[a]);
        if (tk[a] < 100) { p8(0); p8(vf_nd(1) ? 33 : 1); p8(0); sym(1); } else { p16(33); p16(1); }
        p16(0); p16(0);
        unsigned ro = mo;
        sym(2);                      /* rdlength */
        fld(6);
        name(tk[a] % 100 % 50);
        if (tk[a] % 100 >= 50) {     /* rdlength exact */
            M[ro] = (mo - ro - 2) >> 8; M[ro + 1] = mo - ro - 2;
        }
    }
#ifdef TAIL
    for (unsigned i = 0; i < TAIL; i++) p8(0);
#endif
    len = mo;
#ifdef TRUNC
    len -= vf_pick(TRUNC);
#endif
    B = vf_malloc(len);
    for (unsigned i = 0; i < len; i++) B[i] = M[i];
}
#endif
void vf_main(void)
{
    unsigned i, j;
#ifdef GEN
    gen();
#else
    B = vf_malloc(len);
    vf_bytes(B, len);
#endif
#ifdef QD
    B[4] = 0; B[5] = QD;
#endif
#ifdef AN
    B[6] = 0; B[7] = AN;
#endif
#ifdef OKHDR
    B[0] = B[1] = 0; B[2] = 0x80; B[3] = 0; B[8] = B[9] = B[10] = B[11] = 0;
#endif
    /* reference */
    int wf = len >= 12, n = 0, odd = 0, o1, tl;
    if (wf && (!(B[2] & 0x80) || (B[3] & 15))) wf = 0;
    int judge = 1;
    if (wf) {
        unsigned qd = u16(4), an = u16(6), w;
        j = 12;
        for (i = 0; wf && i < qd; i++) {
            w = ref_name(j, NULL, &tl, &o1);
            if (!w || tl < 0 || j + w + 4 > len) { wf = 0; break; }
            j += w + 4;
        }
        for (i = 0; i < an && j <= len && (wf || i < MAXANS); i++) {
            w = ref_name(j, NULL, &tl, &o1);
            if (!w || tl < 0 || j + w + 10 > len) { wf = 0; break; }
            j += w;
            unsigned type = u16(j), cls = u16(j + 2), rd = u16(j + 8);
            j += 10;
            if (j + rd > len) { wf = 0; rd = len; }
            rd = (unsigned)vf_concretize(rd);
            if (type == 33 && cls == 1) {
                w = ref_name(j + 6, R[n].t, &tl, &o1);
                if (!w || tl < 0 || w + 6 != rd) wf = 0;
                else {
                    if (o1) odd = 1;
                    R[n].prio = u16(j); R[n].weight = u16(j + 2); R[n].port = u16(j + 4);
                    R[n].tl = tl;
                    n++;
                }
            }
            j += rd;
        }
    }
    resolver_srv_rr_t *list = (resolver_srv_rr_t *)1;
    int set = resolver_srv_lookup_buf(NULL, B, len, &list);
    vf_check(set == XMPP_DOMAIN_FOUND || set == XMPP_DOMAIN_NOT_FOUND, "result is found or not found");
    vf_check((set == XMPP_DOMAIN_FOUND) == (list != NULL), "found exactly with a non-empty list");
    resolver_srv_rr_t *r;
    int cnt = 0;
    for (r = list; r; r = r->next) {
        size_t k = 0;
        while (k < sizeof(r->target) && r->target[k]) k++;
        vf_check(k < 256, "target is NUL-terminated and shorter than 256 bytes");
        if (r->next) {
            vf_check(r->priority < r->next->priority || (r->priority == r->next->priority && r->weight >= r->next->weight), "ordered by priority, heavier first");
        }
        cnt++;
    }
    if (wf) {
        vf_check(cnt == n, "exactly the IN/SRV answers are returned");
        /* same multiset: match each reference record with an unused returned one */
        if (!odd) {
            unsigned used = 0;
            for (i = 0; (int)i < n; i++) {
                int k = 0, hit = -1;
                for (r = list; r; r = r->next, k++) {
                    if (used >> k & 1) continue;
                    if (r->priority != R[i].prio || r->weight != R[i].weight || r->port != R[i].port) continue;
                    int same = r->target[R[i].tl] == 0;
                    for (int x = 0; x < R[i].tl; x++) same &= r->target[x] == R[i].t[x];
                    if (same) { hit = k; break; }
                }
                vf_check(hit >= 0, "record returned with its priority, weight, port and fully expanded target");
                used |= 1u << hit;
            }
        }
        vf_reached("well-formed");
        if (n) vf_reached("with records");
    }
    if (judge) vf_reached("judged");
    vf_note("cnt", cnt);
    resolver_srv_free(NULL, list);
    vf_check(vf_live == 0, "no block leaked");
    vf_free(B);
    vf_reached("end");
}
