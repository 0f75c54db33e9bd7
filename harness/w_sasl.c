/* C07: what the client says during authentication, judged by an independent server.
 *   MECH 1/2/3 SCRAM-SHA-1/256/512 (PLUS: with channel binding)   4 DIGEST-MD5   5 PLAIN   6 EXTERNAL
 *        7 ANONYMOUS   8 jabber:iq:auth   9 component handshake
 * Hashes are uninterpreted (uf_hash.h), base64 is an opaque injective encoding (C18 decides it). */
#define W_OWN_CB
#define W_MASK 0xff
#include "world.h"
#include "uf_hash.h"
#ifndef PLUS
#define PLUS 0
#endif
#ifndef TLS
#define TLS PLUS
#endif
#ifndef LU
#define LU 1                    /* length of the user name */
#endif
#ifndef LP
#define LP 2                    /* of the password */
#endif
#ifndef LSALT
#define LSALT 2
#endif
#ifndef LN
#define LN 2                    /* of the server's part of the nonce */
#endif
#ifndef ITERS
#define ITERS "1","2","3"
#endif
#ifndef FIXP
#define FIXP 0                  /* the first FIXP bytes of the password are fixed */
#endif
#ifndef VAR
#define VAR 0
#endif
/* ---- base64 as an opaque injective encoding of the right length */
typedef struct { unsigned char *d; unsigned n; char t[8]; } TK;
static TK tk[64]; static int ntk;
static char *tk_make(void *(*al)(xmpp_ctx_t *, size_t), xmpp_ctx_t *ctx, const unsigned char *d, unsigned n)
{
    unsigned l = (n + 2) / 3 * 4; char *r = al(ctx, l + 1);
    vf_check(ntk < 64, "harness: tokens");
    tk[ntk].d = vf_malloc(n + 1); memcpy(tk[ntk].d, d, n); tk[ntk].d[n] = 0; tk[ntk].n = n;
    for (unsigned i = 0; i < l; i++) r[i] = 'Z';
    r[l] = 0;
    if (l) { r[0] = (char)('A' + ntk / 16); r[1] = (char)('a' + ntk % 16); if (n % 3) r[l - 1] = '='; if (n % 3 == 1) r[l - 2] = '='; memcpy(tk[ntk].t, r, 2); }
    ntk++;
    return r;
}
static void *al_vf(xmpp_ctx_t *c, size_t n) { (void)c; return vf_malloc(n); }
static void *al_ctx(xmpp_ctx_t *c, size_t n) { return strophe_alloc(c, n); }
static TK *tk_get(const char *t, size_t l)
{
    if (!t) return NULL;
    for (int i = 0; i < ntk; i++) if (l == (tk[i].n + 2) / 3 * 4 && (!l || !memcmp(t, tk[i].t, 2))) return &tk[i];
    return NULL;
}
char *tk_encode(xmpp_ctx_t *ctx, const unsigned char *d, size_t n) { return tk_make(al_ctx, ctx, d, (unsigned)n); }
char *tk_dec_str(xmpp_ctx_t *ctx, const char *t, size_t l)
{
    TK *k = tk_get(t, l); if (!k) return NULL;
    char *r = strophe_alloc(ctx, k->n + 1); memcpy(r, k->d, k->n); r[k->n] = 0; return r;
}
void tk_dec_bin(xmpp_ctx_t *ctx, const char *t, size_t l, unsigned char **out, size_t *n)
{
    TK *k = tk_get(t, l); *out = NULL; *n = 0; if (!k) return;
    *out = strophe_alloc(ctx, k->n + 1); memcpy(*out, k->d, k->n); *n = k->n;
}
static const char *b64(const void *d, unsigned n) { return tk_make(al_vf, NULL, d, n); }
/* ---- channel binding, client certificate */
static unsigned char cb[40]; static unsigned cbn; static const char *cbtype;
int tls_init_channel_binding(tls_t *t, const char **pre, size_t *n) { (void)t; *pre = cbtype; *n = strlen(cbtype); return 0; }
const void *tls_get_channel_binding_data(tls_t *t, size_t *n) { (void)t; *n = cbn; return cb; }
static int xaddrs; static char xaddr[40];
char *tls_id_on_xmppaddr(xmpp_conn_t *c, unsigned n) { if ((int)n >= xaddrs) return NULL; return strophe_strdup(c->ctx, n ? "other@z" : xaddr); }
unsigned tls_id_on_xmppaddr_num(xmpp_conn_t *c) { (void)c; return (unsigned)xaddrs; }
/* ---- credentials */
static char user[8], pass[160], jid[40], sid[8]; static unsigned lu, lp;
static unsigned char salt[24], snonce[16];
static int judged;
static unsigned char nz(void) { unsigned char c = ND_U8(); vf_assume(c != 0); return c; }
static int same(const void *a, const void *b, unsigned n) { const unsigned char *x = a, *y = b; unsigned char d = 0; for (unsigned i = 0; i < n; i++) d |= x[i] ^ y[i]; return d == 0; }
static int cut(const char *s, const char *p, const char **rest) { size_t n = strlen(p); if (strncmp(s, p, n)) return 0; *rest = s + n; return 1; }
static char *expect_first(void)                        /* the user name as a saslname */
{
    static char n[32]; unsigned o = 0;
    for (unsigned i = 0; i < lu; i++) { if (user[i] == ',' || user[i] == '=') { memcpy(n + o, user[i] == ',' ? "=2C" : "=3D", 3); o += 3; } else n[o++] = user[i]; }
    n[o] = 0; return n;
}
/* ---- SCRAM server */
static const char *gs2, *bare, *nonce; static unsigned gs2n; static TK *first; static char sfirst[256]; static char *seen_nonce[4]; static int nseen_nonce; static const char *iter;
static const char *const iters[] = {ITERS};
static const char *const mname[] = {"", "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "DIGEST-MD5", "PLAIN", "EXTERNAL", "ANONYMOUS"};
static int bad_nonce;
static void scram_first(E *e)
{
    const char *p, *q; char want[64];
    first = tk_get(e->text ? e->text : "", e->text ? strlen(e->text) : 0);
    vf_check(first != NULL, "client-first is not base64");
    if (!first) return;
    p = (char *)first->d;
    vf_check(strlen(p) == first->n, "client-first contains a zero byte");
    if (PLUS) { snprintf(want, sizeof want, "p=%s,,", cbtype); vf_check(cut(p, want, &q), "the channel-binding flag does not name the binding"); }
    else { if (TLS) vf_check(cut(p, "y,,", &q), "the gs2 header of a client that could bind the channel"); else vf_check(cut(p, "n,,", &q) || cut(p, "y,,", &q), "the gs2 header without channel binding"); }
    if (strncmp(p, "p=", 2) && strncmp(p, "y,,", 3) && strncmp(p, "n,,", 3)) return;
    q = strchr(p, ','); if (!q || q[1] != ',') return; q += 2;
    gs2 = p; gs2n = (unsigned)(q - p); bare = q;
    const char *n = expect_first();
    vf_check(!strncmp(q, "n=", 2) && !strncmp(q + 2, n, strlen(n)) && q[2 + strlen(n)] == ',', "the user name in client-first is not the configured one");
    nonce = strstr(q + 2, ",r=");
    vf_check(nonce != NULL, "no nonce in client-first"); if (!nonce) return;
    nonce += 3;
    vf_check(strlen(nonce) >= 16 && !strchr(nonce, ','), "the client nonce is malformed");
    for (int i = 0; i < nseen_nonce; i++) vf_check(strcmp(seen_nonce[i], nonce), "the client nonce of an earlier attempt is used again");
    seen_nonce[nseen_nonce++] = (char *)nonce;
}
static const char *scram_challenge(void)
{
    char salt64[64]; const char *t = b64(salt, LSALT); strcpy(salt64, t);
    unsigned o = 0;
    strcpy(sfirst, "r="); strcat(sfirst, nonce); if (bad_nonce == 1) sfirst[6] ^= 1; if (bad_nonce == 2) sfirst[strlen(sfirst) - 1] = 0; o = (unsigned)strlen(sfirst);
    if (bad_nonce != 2) for (unsigned i = 0; i < LN; i++) sfirst[o++] = (char)snonce[i];
    sfirst[o] = 0; strcat(sfirst, ",s="); strcat(sfirst, salt64); strcat(sfirst, ",i="); strcat(sfirst, iter);
    if (VAR == 1) strcat(sfirst, ",x=ext");
    return b64(sfirst, (unsigned)strlen(sfirst));
}
static void scram_final(E *e)
{
    TK *f = tk_get(e->text ? e->text : "", e->text ? strlen(e->text) : 0), *c, *p; const char *q, *s, *r; char am[700]; unsigned char sp[64], ck[64], sk[64], sg[64]; unsigned rn, n;
    vf_check(f != NULL, "client-final is not base64"); if (!f) return;
    s = (char *)f->d;
    vf_check(!bad_nonce, "a proof is sent although the server did not return the client nonce");
    vf_check(strlen(s) == f->n, "client-final contains a zero byte");
    vf_check(cut(s, "c=", &q), "client-final does not start with the channel binding"); if (strncmp(s, "c=", 2)) return;
    r = strchr(q, ','); vf_check(r != NULL, "client-final malformed"); if (!r) return;
    c = tk_get(q, (size_t)(r - q));
    vf_check(c != NULL, "the channel binding is not base64"); if (!c) return;
    vf_check(c->n == gs2n + (PLUS ? cbn : 0) && same(c->d, gs2, gs2n), "the channel binding does not start with the gs2 header that was sent");
    if (PLUS && c->n == gs2n + cbn) vf_check(same(c->d + gs2n, cb, cbn), "the channel binding data is not that of the TLS session");
    rn = (unsigned)(strchr(sfirst, ',') - sfirst);
    /* the server's nonce may itself look like anything but a comma */
    rn = (unsigned)(2 + strlen(nonce) + LN);
    vf_check(same(r + 1, sfirst, rn) && r[1 + rn] == ',', "the nonce is not the server's"); if (r[1 + rn] != ',') return;
    q = r + 1 + rn;
    vf_check(!strncmp(q, ",p=", 3), "the proof is not the last field"); if (strncmp(q, ",p=", 3)) return;
    p = tk_get(q + 3, strlen(q + 3));
    vf_check(p != NULL && p->n == uf_dl[MECH], "the proof has the wrong length"); if (!p || p->n != uf_dl[MECH]) return;
    n = 0; memcpy(am, bare, strlen(bare)); n += (unsigned)strlen(bare); am[n++] = ','; memcpy(am + n, sfirst, strlen(sfirst)); n += (unsigned)strlen(sfirst); am[n++] = ','; memcpy(am + n, s, (size_t)(q - s)); n += (unsigned)(q - s);
    rf_hi(MECH, (unsigned char *)pass, lp, salt, LSALT, (unsigned)atoi(iter), sp);
    rf_hmac(MECH, sp, uf_dl[MECH], (const unsigned char *)"Client Key", 10, ck);
    uf_digest(MECH, ck, uf_dl[MECH], sk);
    rf_hmac(MECH, sk, uf_dl[MECH], (unsigned char *)am, n, sg);
    for (unsigned i = 0; i < uf_dl[MECH]; i++) sg[i] ^= ck[i];
    vf_check(same(sg, p->d, uf_dl[MECH]), "the client proof does not verify");
    judged = 1;
    vf_reached("proof judged");
}
/* ---- DIGEST-MD5 server */
static char realm[8], dnonce[8]; static int dq, has_realm, utf8;
static const char *const qops[] = {NULL, "auth", "auth,auth-int", "auth-int, auth", "auth-int"};
static char *put_q(char *o, const char *s) { *o++ = '"'; for (; *s; s++) { if (*s == '"' || *s == '\\') *o++ = '\\'; *o++ = *s; } *o++ = '"'; *o = 0; return o; }
static const char *digest_challenge(void)
{
    static char c[256]; char *o = c; *o = 0;
    if (VAR == 1) o += sprintf(o, "qop=\"%s\", ", qops[dq] ? qops[dq] : "auth");
    if (has_realm) { o += sprintf(o, "realm="); o = put_q(o, realm); *o++ = ','; *o = 0; }
    o += sprintf(o, "nonce="); o = put_q(o, dnonce);
    if (VAR == 0 && qops[dq]) o += sprintf(o, ",qop=\"%s\"", qops[dq]);
    if (utf8) o += sprintf(o, ",charset=utf-8");
    o += sprintf(o, ",algorithm=md5-sess");
    return b64(c, (unsigned)(o - c));
}
static char fk[12][12], fv[12][64]; static int nf;
static const char *fget(const char *k) { for (int i = 0; i < nf; i++) if (!strcmp(fk[i], k)) return fv[i]; return NULL; }
static void hex(const unsigned char *d, char *o) { static const char h[] = "0123456789abcdef"; for (int i = 0; i < 16; i++) { o[2 * i] = h[d[i] >> 4]; o[2 * i + 1] = h[d[i] & 15]; } o[32] = 0; }
static void digest_response(E *e)
{
    TK *f = tk_get(e->text ? e->text : "", e->text ? strlen(e->text) : 0); unsigned char d[16], *b; char ha1[33], ha2[33], t[300], r[33]; unsigned n; const char *s, *v;
    vf_check(f != NULL, "the digest response is not base64"); if (!f) return;
    vf_check(strlen((char *)f->d) == f->n, "zero byte in the digest response");
    nf = 0;
    for (s = (char *)f->d; *s;) {
        unsigned k = 0;
        while (*s == ',' || *s == ' ') s++;
        if (!*s) break;
        while (*s && *s != '=' && k < 11) fk[nf][k++] = *s++;
        fk[nf][k] = 0; k = 0;
        vf_check(*s == '=', "digest response malformed"); if (*s != '=') return;
        s++;
        if (*s == '"') { s++; while (*s && *s != '"') { if (*s == '\\' && s[1]) s++; if (k < 63) fv[nf][k++] = *s; s++; } vf_check(*s == '"', "unterminated string in the digest response"); if (*s) s++; }
        else while (*s && *s != ',' && k < 63) fv[nf][k++] = *s++;
        fv[nf][k] = 0;
        vf_check(!*s || *s == ',', "digest response malformed"); if (*s && *s != ',') return;
        for (int i = 0; i < nf; i++) vf_check(strcmp(fk[i], fk[nf]), "a directive appears twice in the digest response");
        vf_check(nf < 11, "too many directives"); if (nf < 11) nf++;
    }
    vf_check((v = fget("username")) && !strcmp(v, user), "username in the digest response");
    if (has_realm && realm[0]) vf_check((v = fget("realm")) && !strcmp(v, realm), "realm in the digest response");
    vf_check((v = fget("nonce")) && !strcmp(v, dnonce), "nonce in the digest response");
    vf_check((v = fget("nc")) && !strcmp(v, "00000001"), "nonce count in the digest response");
    vf_check((v = fget("cnonce")) && strlen(v) >= 8, "no usable client nonce in the digest response");
    if (v) { for (int i = 0; i < nseen_nonce; i++) vf_check(strcmp(seen_nonce[i], v), "the client nonce of an earlier attempt is used again"); seen_nonce[nseen_nonce] = vf_malloc(64); strcpy(seen_nonce[nseen_nonce++], v); }
    vf_check(!(v = fget("qop")) || !strcmp(v, "auth"), "qop in the digest response");
    vf_check((v = fget("digest-uri")) && !strcmp(v, "xmpp/example.net"), "digest-uri in the digest response");
    if (utf8) vf_check((v = fget("charset")) && !strcmp(v, "utf-8"), "charset in the digest response"); else vf_check(!fget("charset"), "charset in the digest response although the server did not offer it");
    vf_check((v = fget("response")) && strlen(v) == 32, "no response value in the digest response");
    if (!fget("cnonce") || !fget("response") || strlen(fget("response")) != 32) return;
    const char *rl = fget("realm"); if (!rl) rl = "";
    n = (unsigned)sprintf(t, "%s:%s:", user, rl); memcpy(t + n, pass, lp); uf_digest(0, (unsigned char *)t, n + lp, d);
    b = (unsigned char *)t; memcpy(b, d, 16); n = 16 + (unsigned)sprintf(t + 16, ":%s:%s", dnonce, fget("cnonce")); uf_digest(0, b, n, d); hex(d, ha1);
    n = (unsigned)sprintf(t, "AUTHENTICATE:xmpp/example.net"); uf_digest(0, b, n, d); hex(d, ha2);
    n = (unsigned)sprintf(t, "%s:%s:00000001:%s:auth:%s", ha1, dnonce, fget("cnonce"), ha2); uf_digest(0, b, n, d); hex(d, r);
    vf_check(!strcmp(r, fget("response")), "the digest response does not verify");
    judged = 1;
    vf_reached("response judged");
}
static int attempt_, stage;
static void sasl_failure(XML_Parser p) { x_el(p, el_ch(el(XN_SASL, "failure"), el(XN_SASL, "not-authorized"))); }
static E *txt(E *e, const char *n) { E *c = el_find(e, n); return c; }
static int turn(XML_Parser p)
{
    while (w_qh < w_qt) {
        E *e = w_q[w_qh];
        if (el_is(e, "auth", XN_SASL)) {
            const char *m = el_get(e, "mechanism"); TK *k; char want[40];
            w_qh++;
            strcpy(want, mname[MECH < 8 ? MECH : 0]); if (PLUS) strcat(want, "-PLUS");
            vf_check(m && !strcmp(m, want), "another mechanism than the only one offered"); if (!m || strcmp(m, want)) return 0;
            if (MECH <= 3) { scram_first(e); if (!nonce) return 0; stage = 1; x_el(p, el_tx(el(XN_SASL, "challenge"), scram_challenge())); return 1; }
            if (MECH == 4) { stage = 1; x_el(p, el_tx(el(XN_SASL, "challenge"), digest_challenge())); return 1; }
            k = tk_get(e->text ? e->text : "", e->text ? strlen(e->text) : 0);
            if (MECH == 5) {
                vf_check(k && k->n == 2 + lu + lp, "PLAIN message");
                if (k && k->n == 2 + lu + lp) vf_check(k->d[0] == 0 && same(k->d + 1, user, lu) && k->d[1 + lu] == 0 && same(k->d + 2 + lu, pass, lp), "the PLAIN message is not NUL user NUL password");
            }
            if (MECH == 6) {
                unsigned bn = lu + 12; /* RFC 6120 6.3.8: a bare JID */
                if (xaddrs == 0 || (xaddrs == 1 && strlen(xaddr) == bn && same(xaddr, jid, bn))) vf_check(e->text && !strcmp(e->text, "="), "EXTERNAL: an authorization identity although the certificate names at most the user's address");
                else vf_check(k && k->n == bn && same(k->d, jid, bn), "EXTERNAL: the authorization identity is not the user's address");
            }
            if (MECH == 7) vf_check(!e->text || !*e->text || (k && !strchr((char *)k->d, '@')), "ANONYMOUS carries more than trace information");
            judged = 1; vf_reached("message judged");
            sasl_failure(p); return 1;
        }
        if (el_is(e, "response", XN_SASL)) {
            w_qh++;
            if (stage == 1) { stage = 2; if (MECH <= 3) scram_final(e); else digest_response(e); }
            sasl_failure(p); return 1;
        }
        if (MECH == 8 && el_is(e, "iq", NULL) && el_find(e, "query")) {
            E *q = el_find(e, "query"), *u; w_qh++;
            vf_check(q->ns && !strcmp(q->ns, "jabber:iq:auth") && el_get(e, "type") && !strcmp(el_get(e, "type"), "set"), "legacy authentication request");
            vf_check((u = txt(q, "username")) && u->text && strlen(u->text) == lu && same(u->text, user, lu), "legacy authentication: user name");
            vf_check((u = txt(q, "password")) && u->text && strlen(u->text) == lp && same(u->text, pass, lp), "legacy authentication: password");
            vf_check((u = txt(q, "resource")) && u->text && !strcmp(u->text, "r"), "legacy authentication: resource");
            judged = 1; vf_reached("message judged");
            return 0;
        }
        if (MECH == 9 && el_is(e, "handshake", NULL)) {
            char t[200], h[41]; unsigned char d[20]; static const char x[] = "0123456789abcdef"; unsigned n = (unsigned)strlen(sid); w_qh++;
            memcpy(t, sid, n); memcpy(t + n, pass, lp); uf_digest(1, (unsigned char *)t, n + lp, d);
            for (int i = 0; i < 20; i++) { h[2 * i] = x[d[i] >> 4]; h[2 * i + 1] = x[d[i] & 15]; } h[40] = 0;
            vf_check(e->text && !strcmp(e->text, h), "the handshake is not hex(SHA1(stream id, secret))");
            judged = 1; vf_reached("message judged");
            return 0;
        }
        return sv_conform(p);
    }
    return 0;
}
static const char *sv_id[] = {"id", sid, "from", "example.net", "version", "1.0", NULL};
void vf_main(void)
{
    lu = LU; lp = LP;
    for (unsigned i = 0; i < lu; i++) { unsigned char c = nz(); vf_assume(c > ' ' && c != '"' && c != '&' && c != '\'' && c != '/' && c != ':' && c != '<' && c != '>' && c != '@' && c != 0x7f); user[i] = (char)c; }
    for (unsigned i = 0; i < lp; i++) { unsigned char c = i < FIXP ? (unsigned char)('0' + i % 10) : nz(); if (MECH == 8) vf_assume(c >= ' ' || c == '\t' || c == '\n' || c == '\r'); pass[i] = (char)c; }
    strcpy(sid, "s1");
    if (MECH == 9) { for (int i = 0; i < LN; i++) sid[i] = (char)nz(); sid[LN] = 0; strcpy(jid, "comp.example.net"); }
    else if (MECH == 7) strcpy(jid, "example.net");
    else { memcpy(jid, user, lu); strcpy(jid + lu, "@example.net/r"); }
    for (unsigned i = 0; i < LSALT; i++) salt[i] = ND_U8();
    for (unsigned i = 0; i < LN; i++) { unsigned char c = ND_U8(); vf_assume(c > ' ' && c < 0x7f && c != ','); snonce[i] = c; }
    if (MECH <= 3) iter = iters[vf_pick(sizeof iters / sizeof *iters)];
    if (PLUS) { int k = (int)vf_pick(3); cbtype = k == 0 ? "tls-exporter" : "tls-unique"; cbn = k == 0 ? 32 : k == 1 ? 12 : 36; for (unsigned i = 0; i < cbn; i++) cb[i] = ND_U8(); }
    if (MECH == 6) { xaddrs = (int)vf_pick(3); if (vf_pick(2)) strcpy(xaddr, "x@y"); else { strcpy(xaddr, jid); xaddr[lu + 12] = 0; } }
    if (MECH == 4) {
        dq = (int)vf_pick(5); has_realm = (int)vf_pick(2); utf8 = (int)vf_pick(2);
        for (int i = 0; i < 2; i++) { unsigned char c = ND_U8(); vf_assume(c >= ' ' && c != 0x7f); realm[i] = (char)c; } realm[has_realm ? vf_pick(3) : 0] = 0;
        for (int i = 0; i < LN; i++) { unsigned char c = ND_U8(); vf_assume(c > ' ' && c < 0x7f && c != '"' && c != '\\'); dnonce[i] = (char)c; } dnonce[LN] = 0;
    }
    if (VAR == 2) bad_nonce = 1 + (int)vf_pick(2);
    w_jid = jid; w_pass = MECH == 7 ? NULL : pass;
    if (MECH == 9) w_defns = XN_COMP;
    w_init();
    w_turn = turn;
    sv_open_at[1] = sid; (void)sv_id;
    sv.starttls = TLS; sv.session = 0;
    sv.mech = MECH == 1 ? (PLUS ? M_SCRAM1P : M_SCRAM1) : MECH == 2 ? (PLUS ? M_SCRAM256P : M_SCRAM256) : MECH == 3 ? (PLUS ? M_SCRAM512P : M_SCRAM512) : MECH == 4 ? M_DIGEST : MECH == 5 ? M_PLAIN : MECH == 6 ? M_EXT : MECH == 7 ? M_ANON : 0;
    if (MECH == 6) w_conn->tls_client_cert = strophe_strdup(w_ctx, "/cert");
    if (MECH == 8) xmpp_conn_set_flags(w_conn, XMPP_CONN_FLAG_LEGACY_AUTH);
    for (attempt_ = 0; attempt_ < (MECH <= 4 ? 2 : 1); attempt_++) {
        judged = stage = 0; nonce = NULL;
        if (MECH == 9) { w_new_attempt(); vf_check(xmpp_connect_component(w_conn, "h", 5347, w_handler, NULL) == XMPP_EOK, "harness: connect"); }
        else vf_check(w_client() == XMPP_EOK, "harness: connect");
        for (int i = 0; i < 24 && !judged && !w_disconnected; i++) w_step();
        if (MECH == 4 && dq == 4) { vf_check(!judged, "a response although the server does not offer qop=auth"); break; }
        if (VAR == 2) break;
        vf_check(judged, "the exchange was not completed");
        w_eof = 1; w_run(3);
    }
    w_eof = 1; w_run(3);
    vf_reached("end");
}
