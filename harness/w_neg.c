/* One connection attempt against a server that mostly conforms but deviates in up to ADV
 * turns in any of the ways listed in adv(); symbolic element names, types, numbers.
 * P selects the property whose obligations are active (memory safety always is). */
#include "world.h"
#define CHK(p, c, m) do { if (P == (p)) vf_check((c), (m)); } while (0)
#ifndef ADV
#define ADV 1
#endif
#ifndef FLAGS
#define FLAGS 0
#endif
#ifndef COMPONENT
#define COMPONENT 0
#endif
static long flags; static int cert;
/* ---- what the server emitted / what happened (reset per attempt) */
static struct {
    int opens;                 /* stream headers the client sent */
    int tls_off, mech_off, mech_first, feats, zlib_off, bind_off, sess_off, sm_off;   /* offers seen on this connection */
    int sasl_pending, authed, early;  /* SASL exchange outstanding; success answered it */
    int need_open;             /* next client item must be a stream header */
    int comp_req, comp_ok;     /* <compress/> sent; server confirmed */
    int starttls;              /* <starttls/> requested */
    int bind_req, bound, sess_req, sess_ok, resume_req, resumed, enable_req, hs_req, hs_ok, leg_req, leg_ok;
    int plain_ok;
    int tls_was_up;
    int closed;                /* client closed its stream */
    int se;                    /* stream error sent: type+1 */
    const char *se_text;
    int in_end;
} m;
static int advs;
static const char *w_res = "r";
static int user_fired, user_timed;

static int mech_index(const char *s) { for (int i = 0; i < 10; i++) if (!strcmp(s, w_mech[i])) return i; return -1; }
static void on_item(E *e)
{
    if (w_tls_up && !m.tls_was_up) { m.tls_was_up = 1; if (!(flags & XMPP_CONN_FLAG_LEGACY_SSL)) CHK(3, e->kind == K_OPEN || e->kind == K_CLOSE, "the first thing sent after TLS came up is not a new stream header"); }
    if (m.need_open) {
        CHK(3, e->kind == K_OPEN || e->kind == K_CLOSE, "no stream restart after SASL success / compression");
        m.need_open = 0;
    }
    if (e->compressed) CHK(3, m.comp_ok, "compressed data before the server confirmed compression");
    if (e->kind == K_OPEN) {
        const char *to = el_get(e, "to"), *from = el_get(e, "from");
        m.opens++;
        CHK(3, to && !strcmp(to, COMPONENT ? w_jid : "example.net"), "stream header does not name the configured domain");
        if (from) CHK(3, e->secure, "stream header reveals the user's address on an unsecured stream");
        return;
    }
    if (e->kind == K_CLOSE) { m.closed = 1; return; }
    if (el_ns(e, XN_TLS)) {
        CHK(2, !(flags & XMPP_CONN_FLAG_DISABLE_TLS) && !COMPONENT, "STARTTLS requested although TLS is disabled");
        CHK(3, m.tls_off && (!w_tls_up || m.early) && !m.authed && !m.starttls, "STARTTLS requested without an offer or out of order");
        m.starttls = 1;
        return;
    }
    if (el_ns(e, XN_SASL)) {
        if (flags & XMPP_CONN_FLAG_MANDATORY_TLS) CHK(2, e->secure, "SASL data before TLS although TLS is mandatory");
        if (el_is(e, "auth", NULL)) {
            const char *mech = el_get(e, "mechanism");
            int i = mech ? mech_index(mech) : -1;
            CHK(3, i >= 0 && (m.mech_off >> i & 1), "SASL mechanism that the server did not offer");
            CHK(3, (!m.authed || m.early) && !COMPONENT, "SASL attempt out of order");
            if (i == 0) {
                int strong = m.mech_first & (M_DIGEST | M_SCRAM1 | M_SCRAM256 | M_SCRAM512);
                if (cert) strong |= m.mech_first & M_EXT;
                if (e->secure && w_tls_cb_ok) strong |= m.mech_first & (M_SCRAM1P | M_SCRAM256P | M_SCRAM512P);
                CHK(2, !strong, "password sent by PLAIN although a stronger mechanism was offered");
            }
            m.sasl_pending = 1;
        } else CHK(3, m.sasl_pending || m.early, "SASL response without an exchange");
        return;
    }
    if (el_ns(e, XN_COMPRESS)) {
        CHK(3, m.zlib_off && m.authed && (m.early || (!m.comp_ok && !m.bind_req)) && (flags & XMPP_CONN_FLAG_ENABLE_COMPRESSION), "compression requested without an offer or out of order");
        m.comp_req = 1;
        return;
    }
    if (el_is(e, "iq", NULL) && el_find(e, "bind")) {
        E *b = el_find(e, "bind"), *r = el_find(b, "resource");
        CHK(3, m.bind_off && m.authed && (m.early || (!m.bind_req && !m.resumed)), "bind requested without an offer or out of order");
        if (w_res) CHK(3, r && r->text && !strcmp(r->text, w_res), "bind request does not ask for the configured resource");
        else CHK(3, !r, "bind request asks for a resource although none is configured");
        CHK(3, b->ns && !strcmp(b->ns, XN_BIND) && el_get(e, "type") && !strcmp(el_get(e, "type"), "set"), "bind request malformed");
        m.bind_req = 1;
        return;
    }
    if (el_is(e, "iq", NULL) && el_find(e, "session")) { CHK(3, m.sess_off && m.bound && (m.early || !m.sess_req), "session requested without an offer or out of order"); m.sess_req = 1; return; }
    if (el_is(e, "iq", NULL) && el_find(e, "query")) {
        CHK(2, (flags & XMPP_CONN_FLAG_LEGACY_AUTH) != 0 && !COMPONENT, "legacy authentication although it was not enabled");
        if (flags & XMPP_CONN_FLAG_MANDATORY_TLS) CHK(2, e->secure, "legacy authentication before TLS although TLS is mandatory");
        m.leg_req = 1;
        return;
    }
    if (el_ns(e, XN_SM)) {
        if (el_is(e, "enable", NULL)) { CHK(3, m.sm_off && m.bound && !m.enable_req, "stream management enabled without an offer or out of order"); m.enable_req = 1; }
        else if (el_is(e, "resume", NULL)) { CHK(3, m.sm_off && m.authed && !m.bind_req, "resume requested without an offer or out of order"); m.resume_req = 1; }
        else CHK(3, m.enable_req || m.resumed, "stream-management request before stream management was enabled");
        if (flags & XMPP_CONN_FLAG_DISABLE_SM) CHK(3, 0, "stream management used although disabled");
        return;
    }
    if (el_is(e, "handshake", NULL)) { CHK(3, COMPONENT, "component handshake on a client connection"); m.hs_req = 1; return; }
    if (el_is(e, "stream:error", NULL)) return;
    /* anything else is the user's */
    CHK(3, w_connected, "user stanza on the wire before the connection was reported up");
}
static void on_event(xmpp_conn_event_t ev, int error, xmpp_stream_error_t *se)
{
    (void)error;
    if (ev == XMPP_CONN_CONNECT) {
        w_poll();
        CHK(3, w_connected == 1, "connection reported up twice");
        if (COMPONENT) CHK(3, m.hs_req && m.hs_ok, "component reported up without handshake acknowledgement");
        else CHK(3, (m.authed && m.bound) || m.resumed || m.leg_ok, "connection reported up without authentication and a bound or resumed session");
        if (m.sess_req) CHK(3, m.sess_ok, "connection reported up before the session request was answered");
        CHK(13, w_connected == 1 && w_disconnected == 0, "more than one connect notification, or one after the disconnect notification");
        CHK(13, xmpp_conn_is_connected(w_conn), "connect notification while not connected");
        CHK(2, !(flags & XMPP_CONN_FLAG_MANDATORY_TLS) || w_tls_up, "connected without TLS although it is mandatory");
    } else {
        CHK(13, w_disconnected == 1, "more than one disconnect notification");
        CHK(1, w_disconnected == 1, "more than one disconnect notification");
        CHK(13, xmpp_conn_is_disconnected(w_conn), "disconnect notification while not disconnected");
        if (m.se) {
            CHK(13, se != NULL, "stream error not reported");
            if (se) CHK(13, (int)se->type == m.se - 1, "stream error reported with the wrong condition");
            if (se) CHK(13, m.se_text ? se->text && !strcmp(se->text, m.se_text) : !se->text, "stream error text not reported");
        } else CHK(13, se == NULL, "stream error reported that was never sent");
    }
}
static int u_stanza(xmpp_conn_t *c, xmpp_stanza_t *s, void *u) { (void)c; (void)s; (void)u; CHK(3, w_connected, "user stanza handler ran before the connection was up"); user_fired++; return 1; }
static int u_timed(xmpp_conn_t *c, void *u) { (void)c; (void)u; CHK(3, w_connected, "user timed handler ran before the connection was up"); user_timed++; return 1; }

static const char *const cond[] = {"bad-format", "bad-namespace-prefix", "conflict", "connection-timeout", "host-gone", "host-unknown", "improper-addressing", "internal-server-error", "invalid-from", "invalid-id", "invalid-namespace", "invalid-xml", "not-authorized", "policy-violation", "remote-connection-failed", "resource-constraint", "restricted-xml", "see-other-host", "system-shutdown", "undefined-condition", "unsupported-encoding", "unsupported-stanza-type", "unsupported-version", "xml-not-well-formed", "something-else"};
/* a request counts as issued once it is queued: a server may answer before it was flushed */
static int queued(const char *pat) { for (xmpp_send_queue_t *q = w_conn->send_queue_head; q; q = q->next) if (q->data && strstr(q->data, pat)) return 1; return 0; }
/* ---- emission with bookkeeping of what the client may legitimately conclude */
static void rec(E *e)
{
    if (!strcmp(e->name, "handshake")) { if (queued("<handshake")) m.hs_req = 1; m.hs_ok |= m.hs_req; }
    if (el_is(e, "features", XN_STREAM)) {
        int first = m.feats < m.opens; /* a second <features/> on one stream is not an offer a client has to heed */
        m.feats = m.opens;
        for (E *c = e->child; c; c = c->next) {
            if (el_is(c, "starttls", XN_TLS)) m.tls_off = 1;
            if (el_is(c, "mechanisms", XN_SASL)) for (E *k = c->child; k; k = k->next) if (k->text) { int i = mech_index(k->text); if (i >= 0) { m.mech_off |= 1 << i; if (first) m.mech_first |= 1 << i; } }
            if (el_is(c, "compression", XN_FCOMPRESS)) m.zlib_off = 1;
            if (el_is(c, "bind", XN_BIND)) m.bind_off = 1;
            if (el_is(c, "session", XN_SESS)) m.sess_off = 1;
            if (el_is(c, "sm", XN_SM)) m.sm_off = 1;
        }
        return;
    }
    if (el_is(e, "error", XN_STREAM)) {
        static const int ct[] = {XMPP_SE_BAD_FORMAT, XMPP_SE_BAD_NS_PREFIX, XMPP_SE_CONFLICT, XMPP_SE_CONN_TIMEOUT, XMPP_SE_HOST_GONE, XMPP_SE_HOST_UNKNOWN, XMPP_SE_IMPROPER_ADDR, XMPP_SE_INTERNAL_SERVER_ERROR, XMPP_SE_INVALID_FROM, XMPP_SE_INVALID_ID, XMPP_SE_INVALID_NS, XMPP_SE_INVALID_XML, XMPP_SE_NOT_AUTHORIZED, XMPP_SE_POLICY_VIOLATION, XMPP_SE_REMOTE_CONN_FAILED, XMPP_SE_RESOURCE_CONSTRAINT, XMPP_SE_RESTRICTED_XML, XMPP_SE_SEE_OTHER_HOST, XMPP_SE_SYSTEM_SHUTDOWN, XMPP_SE_UNDEFINED_CONDITION, XMPP_SE_UNSUPPORTED_ENCODING, XMPP_SE_UNSUPPORTED_STANZA_TYPE, XMPP_SE_UNSUPPORTED_VERSION, XMPP_SE_XML_NOT_WELL_FORMED};
        m.se = XMPP_SE_UNDEFINED_CONDITION + 1; m.se_text = NULL;
        for (E *c = e->child; c; c = c->next) {
            if (!el_ns(c, XN_STREAMS_IETF)) continue;
            if (!strcmp(c->name, "text")) { m.se_text = c->text; continue; }
            for (int i = 0; i < 24; i++) if (!strcmp(c->name, cond[i])) { m.se = ct[i] + 1; break; }
        }
        return;
    }
    if (el_ns(e, XN_TLS)) { if (queued("<starttls")) m.tls_was_up = m.early = 1; return; }
    if (el_ns(e, XN_SASL)) {
        int early = queued("<auth ") || queued("<response");
        if (early) m.sasl_pending = m.early = 1;
        if (m.sasl_pending && !strcmp(e->name, "success")) { m.authed = 1; m.sasl_pending = 0; m.need_open = !early; }
        else if (m.sasl_pending && !strcmp(e->name, "failure")) m.sasl_pending = 0;
        return;
    }
    if (el_ns(e, XN_COMPRESS)) { if (queued("<compress ")) { m.early = 1; if (!strcmp(e->name, "compressed")) m.comp_ok = ss.zipped = 1; return; } if (m.comp_req && !m.comp_ok && !strcmp(e->name, "compressed")) { m.comp_ok = 1; m.need_open = 1; ss.zipped = 1; } return; }
    if (el_ns(e, XN_SM)) {
        if ((m.resume_req || queued("<resume")) && !strcmp(e->name, "resumed")) m.resumed = 1;
        return;
    }
    const char *id = el_get(e, "id"), *type = el_get(e, "type");
    if (id && type && !strcmp(type, "result")) {
        if (queued("id=\"_xmpp_")) m.early = 1; /* answered before the request was written */
        if (m.authed && m.bind_off && !strcmp(id, "_xmpp_bind1")) m.bound = 1;
        if ((m.sess_req || queued("_xmpp_session1")) && !strcmp(id, "_xmpp_session1")) m.sess_ok = 1;
        if ((m.leg_req || queued("_xmpp_auth1")) && !strcmp(id, "_xmpp_auth1")) m.leg_ok = 1;
    }
}
/* ---- adversarial items */
static char *sym(unsigned n)
{
    char *s = w_txt + w_tn;
    vf_check(w_tn + n + 1 < W_WIRE, "harness: text arena");
    for (unsigned i = 0; i < n; i++) { unsigned char c = ND_U8(); vf_assume((c >= 'a' && c <= 'z') | (c >= '0' && c <= '9') | (c == '-') | (c == '_')); s[i] = (char)c; }
    s[n] = 0;
    w_tn += n + 1;
    return s;
}
static const char *const nsv[] = {XN_SASL, XN_SM, XN_STREAM, XN_TLS, XN_CLIENT, XN_COMPRESS, XN_COMP, "urn:x"};
static const unsigned lenv[] = {1, 2, 4, 5, 6, 7, 8, 9, 10};
static E *feat_any(void)
{
    E *f = el(XN_STREAM, "features");
    int k = (int)vf_pick(8);
    if (k & 1) el_ch(f, el(XN_TLS, "starttls"));
    if (k & 2) { E *mm = el(XN_SASL, "mechanisms"); static const int set[] = {M_PLAIN, M_PLAIN | M_SCRAM1, M_PLAIN | M_DIGEST, M_ANON | M_EXT | M_PLAIN, M_PLAIN | M_SCRAM256P | M_SCRAM512}; int s = set[vf_pick(5)]; for (int i = 0; i < 10; i++) if (s >> i & 1) el_ch(mm, el_tx(el(XN_SASL, "mechanism"), w_mech[i])); el_ch(mm, el(XN_SASL, "mechanism")); el_ch(f, mm); }
    if (k & 4) { int q = (int)vf_pick(4); if (q & 1) el_ch(f, el(XN_BIND, "bind")); if (q & 2) { el_ch(f, el(XN_SESS, "session")); el_ch(f, el(XN_SM, "sm")); el_ch(f, el_ch(el(XN_FCOMPRESS, "compression"), el_tx(el(XN_FCOMPRESS, "method"), "zlib"))); } }
    return f;
}
static E *iq_any(void)
{
    E *e = el(XN_CLIENT, vf_pick(2) ? "iq" : "message");
    static const char *const ids[] = {"_xmpp_bind1", "_xmpp_session1", "_xmpp_auth1"};
    int i = (int)vf_pick(4);
    el_at(e, "id", i < 3 ? ids[i] : sym(2));
    int t = (int)vf_pick(3);
    if (t) el_at(e, "type", sym(t == 1 ? 5 : 6));
    switch (vf_pick(4)) {
    case 1: el_ch(e, el_ch(el(XN_BIND, "bind"), el_tx(el(XN_BIND, "jid"), "u@h/x"))); break;
    case 2: el_ch(e, el_ch(el(XN_BIND, "bind"), el(XN_BIND, "jid"))); break;
    case 3: el_ch(e, el(XN_BIND, sym(4))); break;
    }
    return e;
}
static E *sm_any(void)
{
    static const char *const nm[] = {"enabled", "resumed", "failed", "a", "r"};
    E *e = el(XN_SM, nm[vf_pick(5)]);
    int a = (int)vf_pick(6);
    if (a == 1) el_at(e, "h", sym(2));
    if (a == 2) { el_at(e, "previd", "sm1"); el_at(e, "h", "0"); }
    if (a == 3) el_at(e, "resume", "true");
    if (a == 4) { el_at(e, "resume", "true"); el_at(e, "id", "sm2"); }
    if (a == 5) { el_at(e, "previd", sym(3)); }
    switch (vf_pick(3)) {
    case 1: el_ch(e, el(XN_STANZAS, "item-not-found")); break;
    case 2: el_ch(e, el(XN_STANZAS, "feature-not-implemented")); break;
    }
    return e;
}
static E *err_any(void)
{
    E *e = el(XN_STREAM, "error");
    switch (vf_pick(5)) {
    case 1: el_ch(e, el(XN_STREAMS_IETF, "host-gone")); el_ch(e, el_tx(el(XN_STREAMS_IETF, "text"), "gone")); break;
    case 2: el_tx(e, "plain text"); break;
    case 3: el_ch(e, el(XN_STREAMS_IETF, "text")); el_ch(e, el(XN_STREAMS_IETF, sym(8))); break;
    case 4: el_ch(e, el_tx(el(XN_STREAMS_IETF, "text"), "a")); el_ch(e, el_tx(el(XN_STREAMS_IETF, "text"), "b")); el_ch(e, el("urn:x", "conflict")); break;
    }
    return e;
}
static E *err_full(void)
{
    E *e = el(XN_STREAM, "error"), *c = el(XN_STREAMS_IETF, cond[vf_pick(25)]), *t = el(XN_STREAMS_IETF, "text");
    el_tx(t, sym(3));
    switch (vf_pick(5)) {
    case 0: el_ch(e, c); break;
    case 1: el_ch(e, c); el_ch(e, t); break;
    case 2: el_ch(e, t); el_ch(e, c); break;
    case 3: el_ch(e, c); el_ch(e, t); el_ch(e, el("urn:x", "app")); break;
    case 4: el_ch(e, el("urn:x", "app")); el_ch(e, c); break;
    }
    return e;
}
static const char *const chal[] = {NULL, "", "=", "!!!!", "AAAA", "cj14", "cj0scz1RU1g9LGk9MQ==", "bm9uY2U9ImEi"};
static const char *badroot[] = {"id", "x", NULL};
static void adv(XML_Parser p)
{
#ifdef ERRALL
    x_el(p, err_full());
    return;
#endif
    switch (vf_pick(14)) {
    case 0: { const char *n = nsv[vf_pick(8)], *s = sym(lenv[vf_pick(9)]); x_el(p, el(n, s)); break; } /* one pick per statement: argument order is unspecified */
    case 1: x_el(p, el(NULL, sym(lenv[vf_pick(9)]))); break;
    case 2: x_el(p, iq_any()); break;
    case 3: { E *e = el(XN_SASL, vf_pick(2) ? "challenge" : "success"); const char *t = chal[vf_pick(8)]; if (t) el_tx(e, t); x_el(p, e); break; }
    case 4: x_el(p, feat_any()); break;
    case 5: x_el(p, sm_any()); break;
    case 6: x_el(p, err_any()); break;
    case 7: x_end(p, XN_STREAM, "stream"); if (vf_pick(2)) p->dead = 1; break;
    case 8: p->dead = 1; break;
    case 9: { const char *n = vf_pick(2) ? XN_STREAM : XN_CLIENT, *s = vf_pick(2) ? "stream" : "foo"; x_start(p, n, s, badroot); break; }
    case 10: x_text(p, "junk", 4); break;
    case 11: { E *e = el(XN_CLIENT, "message"); el_at(e, "type", "error"); x_el(p, e); break; }
    case 12: w_eof = 1; break;
    case 13: { static const char *hv[] = {"id", "_xmpp_bind1", "type", "result", NULL}; x_start(p, XN_CLIENT, "iq", hv); x_text(p, "x", 1); break; } /* left open */
    }
}
static int talk;
static int more(void) { return advs > 0 && w_connected && talk < 2; }
static int turn(XML_Parser p)
{
#ifdef HDRADV
    /* the stream header is honest, what follows it in place of the features (or before them) is not */
    if (advs > 0 && w_qh < w_qt && w_q[w_qh]->kind == K_OPEN && vf_pick(2)) {
        advs--; w_qh++; sv_open(p);
        if (vf_pick(2)) x_el(p, feat_any()); else { adv(p); if (vf_pick(2)) x_el(p, sv_features()); }
        return 1;
    }
    return sv_conform(p);
#endif
    if (w_qh >= w_qt) { talk++; if (advs > 0 && vf_pick(2)) { advs--; adv(p); } return 1; }
    if (advs > 0) {
        switch (vf_pick(4)) {
        case 1: advs--; adv(p); return 1;                       /* deviates, the honest answer comes later */
        case 2: advs--; sv_conform(p); adv(p); return 1;        /* honest answer and more in the same read */
        case 3: advs--; if (w_qh < w_qt) w_qh++; adv(p); return 1; /* instead of the honest answer */
        }
    }
    return sv_conform(p);
}
static void wire_rec(E *e) { if (!xmpp_conn_is_disconnected(w_conn)) rec(e); }
static void pred(void)
{
    int n = !!xmpp_conn_is_connecting(w_conn) + !!xmpp_conn_is_connected(w_conn) + !!xmpp_conn_is_disconnected(w_conn);
    CHK(13, n == 1, "not exactly one of connecting/connected/disconnected holds");
    CHK(13, !!xmpp_conn_is_disconnected(w_conn) == (w_disconnected > 0), "is_disconnected disagrees with the notifications");
    CHK(13, !!xmpp_conn_is_connected(w_conn) == (w_connected > 0 && !w_disconnected), "is_connected disagrees with the notifications");
    if (!xmpp_conn_is_disconnected(w_conn)) {
        long f = xmpp_conn_get_flags(w_conn);
        CHK(13, xmpp_conn_set_flags(w_conn, f ^ XMPP_CONN_FLAG_TRUST_TLS) != XMPP_EOK && xmpp_conn_get_flags(w_conn) == f, "flags changed on a connection that is not disconnected");
    }
}
static void user_noise(void)
{
    if (w_connected) return;
    xmpp_stanza_t *s = xmpp_message_new(w_ctx, "chat", "x@y", "u1");
    xmpp_send(w_conn, s);
    xmpp_stanza_release(s);
    xmpp_send_raw_string(w_conn, "<message id='%s'/>", "u2");
}
static int released;
static void steps(int n)
{
    for (int i = 0; i < n && !w_disconnected; i++) {
        if (P == 3) { user_noise(); w_ms++; }
        if (advs > 0) switch (vf_pick(P == 3 || P == 2 ? 2 : 5)) {
            case 1: advs--; w_sec += 16; break;                              /* the server is silent for 16 s */
            case 2: advs--; if (xmpp_conn_is_connected(w_conn)) xmpp_disconnect(w_conn); break;
            case 3: advs--; xmpp_conn_release(w_conn); released = 1; return;
            case 4: advs--; w_eof = 1; break;
        }
        w_step(); pred();
    }
}
#ifdef TLSFAIL
static int tls_fail(void) { return 0; }
#endif
static int start(void)
{
    memset(&m, 0, sizeof m);
    w_new_attempt();
    if (COMPONENT) return xmpp_connect_component(w_conn, "h", 5347, w_handler, NULL);
    return xmpp_connect_client(w_conn, "h", 5222, w_handler, NULL);
}
void vf_main(void)
{
    static const struct { int starttls, mech, zlib, session, sm; } off[] = {OFFERS};
    w_jid = JID; w_pass = PASS; w_res = RES;
    if (COMPONENT) { w_defns = XN_COMP; }
    w_init();
    w_on_item = on_item; w_on_event = on_event; w_turn = turn; w_on_emit = wire_rec; w_more = more;
#ifdef CERT
    cert = 1; xmpp_conn_set_client_cert(w_conn, "c", "k");
#endif
    flags = FLAGS;
    vf_assume(xmpp_conn_set_flags(w_conn, flags) == XMPP_EOK);
    int k = (int)vf_pick(sizeof off / sizeof off[0]);
    sv.starttls = off[k].starttls; sv.mech = off[k].mech; sv.zlib = off[k].zlib; sv.session = off[k].session; sv.sm = off[k].sm;
    if (P == 3) {
        xmpp_handler_add(w_conn, u_stanza, NULL, NULL, NULL, NULL);
        xmpp_id_handler_add(w_conn, u_stanza, "_xmpp_bind1", NULL);
        xmpp_timed_handler_add(w_conn, u_timed, 1, NULL);
    }
#ifdef TLSFAIL
    w_on_tls_start = tls_fail;
#endif
    advs = ADV;
    int rc = start();
    vf_check(rc == XMPP_EOK, "harness: connect");
    steps(26);
    vf_note("connected", w_connected); vf_note("disc", w_disconnected); vf_note("opens", m.opens); vf_note("advs", advs);
    if (released) {
        CHK(1, w_disconnected == 1, "connection released but not exactly one disconnect notification");
        CHK(13, w_disconnected == 1, "connection released but not exactly one disconnect notification");
        xmpp_ctx_free(w_ctx);
        CHK(1, w_open_fds() == 0, "socket left open after release");
        vf_leak(w_live == 0 && w_tls_live == 0 && w_xp_live == 0, "memory was not returned to the context's allocator");
        vf_reached("end");
        return;
    }
    if (advs == ADV) vf_reached(w_connected ? "honest run connects" : "honest run does not connect");
    if (!w_disconnected) {
        advs = 0; w_eof = 1;
        steps(3);
        CHK(1, w_disconnected == 1, "server closed the connection but no disconnect notification came");
        CHK(13, w_disconnected == 1, "server closed the connection but no disconnect notification came");
    }
    w_run(2);
    CHK(1, w_disconnected == 1, "not exactly one disconnect notification");
    CHK(13, w_disconnected == 1, "not exactly one disconnect notification");
    CHK(1, w_open_fds() == 0, "socket left open after disconnect");
    CHK(13, xmpp_conn_set_flags(w_conn, flags) == XMPP_EOK && xmpp_conn_get_flags(w_conn) == (COMPONENT ? flags : flags), "flags not settable after disconnect");
#ifdef RECONNECT
    {
        int was = w_connected;
        (void)was;
        advs = 0; user_fired = user_timed = 0;
        talk = 9;
        memset(&sv, 0, sizeof sv); sv.bind = 1; sv.h = "0"; sv.mech = M_PLAIN | M_ANON; sv.starttls = (flags & XMPP_CONN_FLAG_MANDATORY_TLS) != 0;
        w_bound = "user@example.net/r";
        rc = start();
        CHK(1, rc == XMPP_EOK, "connection object cannot be reconnected");
        steps(24);
        if (RECONNECT) CHK(1, w_connected == 1, "connection object does not reach 'connected' again");
        vf_note("re", w_connected);
        w_eof = 1;
        steps(4);
        CHK(13, w_disconnected == 1, "second attempt: not exactly one disconnect notification");
        CHK(1, w_disconnected == 1, "second attempt: not exactly one disconnect notification");
    }
#endif
    w_end();
    CHK(1, w_open_fds() == 0, "socket left open after release");
    vf_note("live", w_live);
    vf_leak(w_live == 0 && w_tls_live == 0 && w_xp_live == 0, "memory was not returned to the context's allocator");
    vf_reached("end");
}
