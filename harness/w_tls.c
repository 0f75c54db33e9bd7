/* C08: the real tls_openssl.c over the OpenSSL contracts of ossl.h: who is trusted.
 * START 0 STARTTLS, 1 legacy SSL, 2 raw connection with xmpp_conn_tls_start();
 * two attempts on the same connection object, each with its own server and policy. */
#define W_OWN_TLS
#include "world.h"
#ifndef START
#define START 0
#endif
#ifndef FULL
#define FULL 1                        /* which attempt has the complete matrix: 1 first, 2 second */
#endif
static const char *const domain = "im.example.net";
static const char *const names[] = {"im.example.net", "IM.example.net", "*.example.net", "i*.example.net", "*m.example.net", "example.net", "evil.example.org", "h", "*.net", "*"};
static int trust, cbmode, anchor, conf;
static int hs_done, hs_ok, rejected; static int accepted[2]; static unsigned hs_wire; static int sent_tls;
static int name_ok(const char *n)     /* the certificate names the domain: exactly, or by a whole left-most label */
{
    const char *a = n, *b = domain;
    if (*a == '*' && a[1] == '.' && strchr(a + 2, '.')) { a++; while (*b != '.') b++; }
    while (*a && *b) { int x = *a >= 'A' && *a <= 'Z' ? *a + 32 : *a; if (x != *b) return 0; a++; b++; }
    return *a == *b;
}
static int chain_bad(void) { return !(anchor == A_STORE || (anchor == A_USER && (conf & 3) && !(conf & 4))); }
static int failing(int i)             /* certificate i has something wrong with it */
{
    if (o_chain[i].time) return 1;
    if (i == o_n - 1 && chain_bad()) return 1;
    return i == 0 && !name_ok(o_chain[0].name);
}
static int legit(void)
{
    int bad = 0;
    for (int i = 0; i < o_n; i++) if (failing(i)) { bad = 1; if (!accepted[i]) return trust; }
    if (bad && (cbmode != 1 || rejected)) return trust;
    return 1;
}
static int certfail(const xmpp_tlscert_t *c, const char *err)
{
    const char *pem = xmpp_tlscert_get_pem(c); int a;
    vf_check(cbmode == 1, "a certificate-failure callback that was removed is called");
    vf_check(err != NULL, "the callback is not told what is wrong");
    vf_check(pem && pem[0] == 'C' && pem[1] >= '0' && pem[1] < '0' + o_n, "the callback is not shown a certificate of the server");
    if (!pem) return 0;
    a = (int)vf_pick(2);
    if (a) { accepted[pem[1] - '0'] = 1; vf_reached("certificate accepted by the user"); } else { rejected = 1; vf_reached("certificate rejected by the user"); }
    return a;
}
static int pick(int w)
{
    if (w == O_IO) return (conf & 8) ? 1 + (int)vf_pick(4) : 0;
    if (w == O_DEFPATH) return conf >> 4 == 1;
    if (w == O_LOAD) return conf >> 4 == 2;
    if (w == O_FD) return conf >> 4 == 3;
    if (w == O_NEW) return conf >> 4 == 4;
    if (w == O_FD + 100) return conf >> 4 == 5 ? 2 : 0;
    return 0;
}
static void on_write(SSL *s) { (void)s; sent_tls = 1; vf_check(hs_done && hs_ok && legit(), "data is sent over a TLS session that is not trusted"); }
static void on_result(int ok)
{
    hs_done = 1; hs_ok = ok; hs_wire = w_wn;
    if (ok) vf_check(legit(), "the handshake is completed although the certificate is neither valid nor accepted");
}
static void look(void)
{
    if (xmpp_conn_is_secured(w_conn)) { vf_check(hs_done && hs_ok, "reported as secured without a completed handshake"); vf_check(legit(), "reported as secured although the certificate is neither valid nor accepted"); }
    if (hs_done && !hs_ok) vf_check(!xmpp_conn_is_secured(w_conn), "reported as secured after a failed handshake");
}
static int raw_rc;
static void handler(xmpp_conn_t *c, xmpp_conn_event_t ev, int e, xmpp_stream_error_t *se, void *u)
{
    look();
    if (START == 2 && ev == XMPP_CONN_RAW_CONNECT) {
        raw_rc = xmpp_conn_tls_start(c);
        if (hs_done && !hs_ok) vf_check(raw_rc != XMPP_EOK, "a failed handshake is reported as success");
        if (raw_rc == XMPP_EOK) { vf_check(hs_done && hs_ok && legit(), "success although the certificate is neither valid nor accepted"); look(); vf_check(xmpp_conn_open_stream_default(c) == XMPP_EOK, "harness: open"); }
        else xmpp_disconnect(c);
        look();
    }
    w_handler(c, ev, e, se, u);
    look();
}
static void on_item(E *e)
{
    if (!hs_done || hs_ok) { if (hs_ok) vf_check(e->secure, "data in the clear after TLS was established"); return; }
    if (e->kind == K_CLOSE) return;
    vf_check(0, "the stream goes on in the clear after a failed handshake");
}
static void attempt(int full)
{
    long fl = 0; int k;
    hs_done = hs_ok = rejected = sent_tls = 0; accepted[0] = accepted[1] = 0;
    trust = cbmode = conf = 0; anchor = A_STORE; o_n = 1;
    memset(o_chain, 0, sizeof o_chain); o_chain[1].id = 1; o_chain[1].name = "ca";
    if (full) {
        conf = 0;
        k = (int)vf_pick(3);
        if (k == 0) {                 /* the complete matrix of policies and certificates */
            trust = (int)vf_pick(2); cbmode = (int)vf_pick(3); anchor = (int)vf_pick(4);
            o_n = anchor == A_SELF ? 1 : 1 + (int)vf_pick(2);
            static const int cs[] = {0, 1, 2, 3, 7}, few[] = {0, 2, 3, 6};
            conf = cs[vf_pick(anchor == A_USER ? 5 : 2)];
            o_chain[0].time = (int)vf_pick(3); if (o_n == 2) o_chain[1].time = (int)vf_pick(FULL == 1 ? 3 : 2);
            o_chain[0].name = names[FULL == 1 ? vf_pick(sizeof names / sizeof *names) : few[vf_pick(4)]];
        } else if (k == 1) {          /* trouble with the transport or the library */
            trust = (int)vf_pick(2); cbmode = (int)vf_pick(2); anchor = vf_pick(2) ? A_USER : A_NONE;
            conf = (int)vf_pick(8) | 8; o_chain[0].name = names[vf_pick(2) ? 0 : 6];
        } else { trust = (int)vf_pick(2); cbmode = (int)vf_pick(2); anchor = (int)vf_pick(3); conf = (int)vf_pick(4) | (1 + (int)vf_pick(5)) << 4; o_chain[0].name = names[vf_pick(2) ? 0 : 6]; }
    } else {                          /* the other attempt: good, trusted, accepted or refused */
        k = (int)vf_pick(4);
        o_chain[0].name = names[k == 0 ? 0 : 6]; trust = k == 1; cbmode = k == 2;
    }
    o_anchor = anchor; o_capath_ok = !(conf & 4);
    xmpp_conn_set_cafile(w_conn, "/none"); xmpp_conn_set_capath(w_conn, "/none");
    if (conf & 1) xmpp_conn_set_cafile(w_conn, "/ca.pem"); else { if (w_conn->tls_cafile) strophe_free(w_ctx, w_conn->tls_cafile); w_conn->tls_cafile = NULL; }
    if (conf & 2) xmpp_conn_set_capath(w_conn, "/ca"); else { if (w_conn->tls_capath) strophe_free(w_ctx, w_conn->tls_capath); w_conn->tls_capath = NULL; }
    if (cbmode == 2) xmpp_conn_set_certfail_handler(w_conn, certfail);
    xmpp_conn_set_certfail_handler(w_conn, cbmode == 1 ? certfail : NULL);
    if (trust) fl |= XMPP_CONN_FLAG_TRUST_TLS;
    if (START == 1) fl |= XMPP_CONN_FLAG_LEGACY_SSL;
    if (full && START == 0 && vf_pick(2)) fl |= XMPP_CONN_FLAG_MANDATORY_TLS;
    vf_check(xmpp_conn_set_flags(w_conn, fl) == XMPP_EOK, "harness: flags");
    w_new_attempt();
    o_pick = pick; o_on_write = on_write; o_on_result = on_result; w_on_item = on_item;
    sv.mech = M_PLAIN;
    if (START == 2) vf_check(xmpp_connect_raw(w_conn, "h", 5222, handler, NULL) == XMPP_EOK, "harness: connect");
    else vf_check(xmpp_connect_client(w_conn, "h", 5222, handler, NULL) == XMPP_EOK, "harness: connect");
    for (int i = 0; i < 16 && !w_disconnected && !(w_connected && !w_qt); i++) { w_step(); look(); if (hs_done && !hs_ok && i > 3) w_sec += 1; if (w_connected) break; }
    if (hs_done && !hs_ok) {
        for (int i = 0; i < 4 && !w_disconnected; i++) { w_sec += 3; w_step(); look(); }
        vf_check(w_disconnected, "the connection is not torn down after a failed handshake");
        vf_reached("handshake failed");
    } else if (hs_ok) { if (!trust && !cbmode && sent_tls) vf_reached("valid certificate"); if (trust && sent_tls) vf_reached("trusted by the flag"); }
    w_eof = 1;
    for (int i = 0; i < 4 && !w_disconnected; i++) { w_step(); look(); }
    vf_check(w_disconnected, "harness: end of attempt");
    vf_check(!xmpp_conn_is_secured(w_conn) || legit(), "still reported as secured");
    o_pick = NULL;
}
void vf_main(void)
{
    w_jid = "user@im.example.net/r"; sv_open_at[3] = "im.example.net"; w_bound = "user@im.example.net/r";
    w_init();
    sv.starttls = START == 0; if (START == 2) sv.starttls = 0;
    if (FULL == 2) attempt(0);
    attempt(1);
    w_end();
    vf_check(o_chain[0].refs == 0, "a reference to the server's certificate is not returned");
    vf_check(o_live == 0, "TLS objects are not released");
    vf_reached("end");
}
