/* C09: what xmpp_stanza_to_text writes is read back as the same tree.
 * MODE 1: arbitrary bytes in text, attribute values and namespaces
 * MODE 2: tree shapes x namespaces x attribute sets; also rendering of subtrees
 * MODE 3: lengths around the 1024-byte first buffer
 * MODE 4: copies are deep and independent
 * MODE 5: reply, reply_error, message/iq/presence helpers, stream errors
 * MODE 6: a sequence of edits, then render */
#include "lite.h"
#include "xmlp.h"
#include "xmlexpat.h"
#ifndef L1
#define L1 1
#define L2 1
#define L3 1
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef NE
#define NE 3
#endif
#ifndef NOPS
#define NOPS 4
#endif
#define JC "jabber:client"
static const char *sym(int n) { char *b = n_dup("????????", n); for (int i = 0; i < n; i++) { uint8_t c = ND_U8(); vf_assume(c != 0); b[i] = (char)c; } return b; }
/* expected tree -> real stanza; ownership variations by pick */
static xmpp_stanza_t *build(N *n, int ex)
{
    xmpp_stanza_t *s = xmpp_stanza_new(w_ctx);
    if (n->text) { vf_check(xmpp_stanza_set_text(s, n->t) == XMPP_EOK, "set_text failed"); return s; }
    vf_check(xmpp_stanza_set_name(s, n->name) == XMPP_EOK, "set_name failed");
    if (n->ns) vf_check(xmpp_stanza_set_ns(s, n->ns) == XMPP_EOK, "set_ns failed");
    for (int i = 0; i < n->na; i++) vf_check(xmpp_stanza_set_attribute(s, n->ak[i], n->av[i]) == XMPP_EOK, "set_attribute failed");
    for (int i = 0; i < n->nk; i++) {
        xmpp_stanza_t *c = build(n->kid[i], ex);
        if (ex) xmpp_stanza_add_child_ex(s, c, 0); else { xmpp_stanza_add_child(s, c); xmpp_stanza_release(c); }
    }
    return s;
}
/* real stanza -> tree, through the accessors */
static N *walk(xmpp_stanza_t *s)
{
    if (xmpp_stanza_is_text(s)) { const char *t = xmpp_stanza_get_text_ptr(s); return n_tx(n_dup(t, (int)strlen(t))); }
    vf_check(xmpp_stanza_is_tag(s), "a stanza that is neither text nor element");
    const char *nm = xmpp_stanza_get_name(s), *ns = xmpp_stanza_get_ns(s), *at[40];
    N *n = n_el(ns ? n_dup(ns, (int)strlen(ns)) : NULL, n_dup(nm, (int)strlen(nm)));
    int k = xmpp_stanza_get_attributes(s, at, 40);
    vf_check(k == 2 * xmpp_stanza_get_attribute_count(s), "attribute count");
    for (int i = 0; i + 1 < k; i += 2) if (strcmp(at[i], "xmlns")) n_at(n, n_dup(at[i], (int)strlen(at[i])), n_dup(at[i + 1], (int)strlen(at[i + 1])));
    for (xmpp_stanza_t *c = xmpp_stanza_get_children(s); c; c = xmpp_stanza_get_next(c)) n_add(n, walk(c));
    return n;
}
static XP px;
/* parse a rendered stanza inside a stream */
static N *indep(const char *txt, int len)
{
    static TB t; t.root = t.cur = NULL;
    static const char open[] = "<stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams'>";
    xp_init(&px); px.sep = '\x1f'; px.ud = &t; px.start = tb_start; px.end = tb_end; px.text = tb_text;
    xp_feed(&px, open, sizeof open - 1);
    xp_feed(&px, txt, len);
    vf_check(!px.dead, "the rendered stanza is not well-formed");
    vf_check(px.depth == 1 && t.root && t.cur == t.root && px.st == X_TEXT, "the rendered stanza is not balanced");
    xp_feed(&px, "</stream:stream>", 16);
    vf_check(!px.dead && px.depth == 0, "the rendered stanza is not balanced");
    if (px.dead || !t.root) return NULL;
    vf_check(t.root->nk == 1 && !t.root->kid[0]->text, "the rendered stanza is not exactly one element");
    return t.root->nk ? t.root->kid[0] : NULL;
}
static void judge(xmpp_stanza_t *s, N *want, int roundtrip)
{
    char *buf = (char *)1; size_t len = 77;
    vf_check(xmpp_stanza_to_text(s, &buf, &len) == XMPP_EOK, "rendering failed");
    if (!buf || buf == (char *)1) return;
    vf_check(len == strlen(buf), "the reported length is not the length of the string");
    N *got = indep(buf, (int)strlen(buf));
    if (got) { got->up = NULL; n_cmp(want, got, JC, JC); }
    if (roundtrip) {
        xmpp_stanza_t *r = xmpp_stanza_new_from_string(w_ctx, buf);
        vf_check(r != NULL, "xmpp_stanza_new_from_string rejects the rendered stanza");
        if (r) { n_cmp(want, walk(r), JC, JC); xmpp_stanza_release(r); }
    }
    xmpp_free(w_ctx, buf);
}
static void judge_acc(xmpp_stanza_t *s, N *want) { n_cmp(want, walk(s), JC, JC); }
static const char *const nss[] = {NULL, "urn:a", JC, "urn:b"};
static const char *const names[] = {"message", "a", "a", "b-1.x"};
static void m_bytes(void)
{
    const char *s;
    N *r = n_el(NULL, "message"), *c = n_el(NULL, "body");
#if defined(WHERE) && WHERE == 1
    s = sym(L1); n_add(c, n_tx(s)); n_add(r, c);
#elif WHERE == 2
    s = sym(L1); n_at(r, "id", s); n_at(r, "to", "x"); n_add(r, c);
#elif WHERE == 3
    s = sym(L1); r->ns = s; s = L2 ? sym(L2) : NULL; c->ns = s; for (int i = 0; i < L1 + L2; i++) vf_assume((i < L1 ? r->ns[i] : s[i - L1]) != '\x1f'); /* no XML character, and what the library asked expat to separate by */ n_add(r, c); n_add(r, n_el(JC, "z"));
#else
    s = sym(L1); n_at(c, "id", s); s = sym(L2); n_add(c, n_tx(s)); n_add(r, c); s = sym(L3); n_add(r, n_tx(s)); n_add(r, n_el("urn:x", "z"));
#endif
    xmpp_stanza_t *st = build(r, 1);
    judge(st, r, 1);
    xmpp_stanza_release(st);
}
static N *shape(int *texts)
{
    N *el[6]; int k;
    for (int i = 0; i < NE; i++) {
        k = (int)vf_pick(4); el[i] = n_el(nss[k], names[i]);
        k = (int)vf_pick(i ? 2 : 3);
        if (k == 1) { n_at(el[i], "id", "1"); n_at(el[i], "type", "<"); }
        if (k == 2) { static const char *const kk[] = {"id", "Q1", "type", "to", "from", "xml:lang", "a", "i", "q", "y"}; for (int j = 0; j < 10; j++) n_at(el[i], kk[j], j % 3 ? kk[9 - j] : ""); }
        if (i) { k = (int)vf_pick(i); if (texts[0] && vf_pick(2)) n_add(el[k], n_tx(i == 1 ? "t&" : "")); n_add(el[k], el[i]); }
    }
    if (texts[0] && vf_pick(2)) n_add(el[NE - 1], n_tx("\xc3\xa9]]>"));
    return el[0];
}
static void m_shape(void)
{
    int texts = NE < 4;
    N *r = shape(&texts);
    int ex = (int)vf_pick(2);
    xmpp_stanza_t *st = build(r, ex);
    judge_acc(st, r);
    judge(st, r, 1);
    /* a subtree on its own: its root names its namespace itself */
    xmpp_stanza_t *c = xmpp_stanza_get_children(st); int i = 0;
    while (c && !xmpp_stanza_is_tag(c)) { c = xmpp_stanza_get_next(c); i++; }
    if (c && r->kid[i]->ns) { N *k = r->kid[i]; judge(c, k, 1); }
    xmpp_stanza_release(st);
}
static char big[1500];
static void m_size(void)
{
    static const char *const tails[] = {"", "&", "\"<", "xy"};
    int w = (int)vf_pick(4), off = (int)vf_pick(18), t = (int)vf_pick(4);
    int len = w == 0 ? 1024 - (int)strlen("<message><body></body></message>") : w == 1 ? 1024 - (int)strlen("<message id=\"\"/>") : w == 2 ? 1024 - (int)strlen("<message><a><b></b></a><c/></message>") : 1024 - (int)strlen("<message a=\"\" b=\"\"><c/></message>");
    len += off - 12;
    for (int i = 0; i < len; i++) big[i] = 'a' + i % 26;
    strcpy(big + len, tails[t]);
    N *r = n_el(NULL, "message"), *c;
    if (w == 0) { c = n_el(NULL, "body"); n_add(c, n_tx(big)); n_add(r, c); }
    if (w == 1) n_at(r, "id", big);
    if (w == 2) { c = n_el(NULL, "a"); N *b = n_el(NULL, "b"); n_add(b, n_tx(big)); n_add(c, b); n_add(r, c); n_add(r, n_el(NULL, "c")); }
    if (w == 3) { n_at(r, "a", "1"); n_at(r, "b", big); n_add(r, n_el(NULL, "c")); }
    xmpp_stanza_t *st = build(r, 1);
    judge(st, r, 0);
    xmpp_stanza_release(st);
}
static xmpp_stanza_t *nth(xmpp_stanza_t *s, int path) { while (path--) { s = xmpp_stanza_get_children(s); while (s && !xmpp_stanza_is_tag(s)) s = xmpp_stanza_get_next(s); if (!s) return NULL; } return s; }
static void damage(xmpp_stanza_t *s)
{
    xmpp_stanza_t *k, *v = nth(s, (int)vf_pick(3)); if (!v) v = s;
    switch (vf_pick(6)) {
    case 0: xmpp_stanza_set_name(v, "changed"); break;
    case 1: xmpp_stanza_set_attribute(v, "id", "changed"); break;
    case 2: xmpp_stanza_del_attribute(v, "id"); xmpp_stanza_set_attribute(v, "type", "c"); break;
    case 3: xmpp_stanza_set_ns(v, "urn:changed"); break;
    case 4: k = xmpp_stanza_new(w_ctx); xmpp_stanza_set_text(k, "changed"); xmpp_stanza_add_child_ex(v, k, 0); break;
    case 5: for (k = xmpp_stanza_get_children(v); k; k = xmpp_stanza_get_next(k)) if (xmpp_stanza_is_text(k)) xmpp_stanza_set_text(k, "changed"); break;
    }
}
static void m_copy(void)
{
    int texts = 1; N *r = shape(&texts), *sub = r; int i;
    xmpp_stanza_t *st = build(r, 1), *from = st, *cp;
    if (vf_pick(2)) { for (i = 0; i < r->nk && r->kid[i]->text; i++) ; if (i < r->nk) { from = nth(st, 1); sub = r->kid[i]; } }
    cp = xmpp_stanza_copy(from);
    vf_check(cp != NULL && cp != from, "no copy");
    vf_check(xmpp_stanza_get_next(cp) == NULL, "the copy has siblings");
    N *up = sub->up; sub->up = NULL;
    judge_acc(cp, sub);
    switch (vf_pick(3)) {
    case 0: xmpp_stanza_release(st); st = NULL; break;      /* the copy outlives the original */
    case 1: damage(from); break;
    case 2: damage(cp); sub->up = up; judge_acc(st, r); judge(st, r, 0); xmpp_stanza_release(cp); cp = NULL; judge_acc(st, r); break;
    }
    if (cp) { judge_acc(cp, sub); judge(cp, sub, 0); xmpp_stanza_release(cp); }
    if (st) xmpp_stanza_release(st);
}
static const struct { xmpp_error_type_t t; const char *n; } serr[] = {
    {XMPP_SE_BAD_FORMAT, "bad-format"}, {XMPP_SE_BAD_NS_PREFIX, "bad-namespace-prefix"}, {XMPP_SE_CONFLICT, "conflict"}, {XMPP_SE_CONN_TIMEOUT, "connection-timeout"},
    {XMPP_SE_HOST_GONE, "host-gone"}, {XMPP_SE_HOST_UNKNOWN, "host-unknown"}, {XMPP_SE_IMPROPER_ADDR, "improper-addressing"}, {XMPP_SE_INTERNAL_SERVER_ERROR, "internal-server-error"},
    {XMPP_SE_INVALID_FROM, "invalid-from"}, {XMPP_SE_INVALID_ID, "invalid-id"}, {XMPP_SE_INVALID_NS, "invalid-namespace"}, {XMPP_SE_INVALID_XML, "invalid-xml"},
    {XMPP_SE_NOT_AUTHORIZED, "not-authorized"}, {XMPP_SE_POLICY_VIOLATION, "policy-violation"}, {XMPP_SE_REMOTE_CONN_FAILED, "remote-connection-failed"}, {XMPP_SE_RESOURCE_CONSTRAINT, "resource-constraint"},
    {XMPP_SE_RESTRICTED_XML, "restricted-xml"}, {XMPP_SE_SEE_OTHER_HOST, "see-other-host"}, {XMPP_SE_SYSTEM_SHUTDOWN, "system-shutdown"}, {XMPP_SE_UNDEFINED_CONDITION, "undefined-condition"},
    {XMPP_SE_UNSUPPORTED_ENCODING, "unsupported-encoding"}, {XMPP_SE_UNSUPPORTED_STANZA_TYPE, "unsupported-stanza-type"}, {XMPP_SE_UNSUPPORTED_VERSION, "unsupported-version"}, {XMPP_SE_XML_NOT_WELL_FORMED, "xml-not-well-formed"}};
#define NSE ((int)(sizeof serr / sizeof *serr))
static const char *get(N *n, const char *k) { for (int i = 0; i < n->na; i++) if (!strcmp(n->ak[i], k)) return n->av[i]; return NULL; }
static void m_reply(void)
{
    int kind = KIND; const char *from = NULL, *to = NULL, *id = NULL;
    static const char *const cond[] = {"item-not-found", "service-unavailable", "bad-request", "feature-not-implemented"};
    static const char *const et[] = {"cancel", "modify", "auth", "wait"};
    xmpp_stanza_t *s, *r;
    if (kind == 2) {                                       /* helpers */
        const char *ty = vf_pick(2) ? "chat" : NULL; const char *i = vf_pick(2) ? sym(1) : NULL; const char *t = vf_pick(2) ? sym(1) : NULL;
        int k = (int)vf_pick(3); N *w = n_el(NULL, k == 0 ? "message" : k == 1 ? "iq" : "presence");
        s = k == 0 ? xmpp_message_new(w_ctx, ty, t, i) : k == 1 ? xmpp_iq_new(w_ctx, ty, i) : xmpp_presence_new(w_ctx);
        if (k < 2) { if (ty) n_at(w, "type", ty); if (i) n_at(w, "id", i); }
        if (k == 0 && t) n_at(w, "to", t);
        if (k == 0 && vf_pick(2)) { const char *b = sym(2); N *bd = n_el(NULL, "body"); n_add(bd, n_tx(b)); n_add(w, bd); vf_check(xmpp_message_set_body(s, b) == XMPP_EOK, "set_body"); vf_check(xmpp_message_set_body(s, "z") != XMPP_EOK, "second body accepted"); char *g = xmpp_message_get_body(s); vf_check(g && !strcmp(g, b), "get_body"); xmpp_free(w_ctx, g); }
        judge_acc(s, w); judge(s, w, 1); xmpp_stanza_release(s);
        return;
    }
    if (kind == 3) {                                       /* stream errors */
        int i = (int)vf_pick(NSE); const char *t = vf_pick(2) ? sym(1) : NULL; const char *sns = "urn:ietf:params:xml:ns:xmpp-streams";
        N *w = n_el("http://etherx.jabber.org/streams", "error"), *x; x = n_el(sns, serr[i].n); n_add(w, x); if (t) { x = n_el(sns, "text"); n_add(x, n_tx(t)); n_add(w, x); }
        s = xmpp_error_new(w_ctx, serr[i].t, t); vf_check(s != NULL, "no stream error"); judge(s, w, 0); xmpp_stanza_release(s);
        return;
    }
    int nsp = (int)vf_pick(3);
    N *w = n_el(nsp == 0 ? NULL : nsp == 1 ? JC : "urn:a", KIND ? "iq" : vf_pick(2) ? "iq" : "message"), *c = n_el("urn:q", "query");
    if (vf_pick(2)) { from = sym(1); n_at(w, "from", from); }
    if (vf_pick(2)) { to = "me@x/r"; n_at(w, "to", to); }
    if (vf_pick(2)) { id = KIND ? "i&" : sym(1); n_at(w, "id", id); }
    if (vf_pick(2)) n_at(w, "type", "get");
    n_add(w, c); n_add(c, n_tx("x"));
    s = build(w, 1);
    if (kind == 0) {
        r = xmpp_stanza_reply(s);
        if (from) vf_check(r != NULL, "no reply");
        if (r) { N *g = walk(r); vf_check(n_eq(g->name, w->name), "reply: name"); vf_check(from && get(g, "to") && !strcmp(get(g, "to"), from), "the reply is not addressed to the original sender"); vf_check(!get(g, "from"), "reply: from"); vf_check(!id == !get(g, "id") && (!id || !strcmp(id, get(g, "id"))), "reply: id"); vf_check(g->nk == 0, "reply: children"); judge(r, g, 1); }
    } else {
        int ci = (int)vf_pick(2) * (id ? 1 : 3); const char *txt = vf_pick(2) ? sym(1) : NULL;
        r = xmpp_stanza_reply_error(s, et[ci], cond[ci], txt);
        if (from) vf_check(r != NULL, "no error reply");
        if (r) {
            N *x = n_el(NULL, w->name), *e = n_el(NULL, "error"), *d = n_el("urn:ietf:params:xml:ns:xmpp-stanzas", cond[ci]);
            if (from) n_at(x, "to", from); if (to) n_at(x, "from", to); if (id) n_at(x, "id", id); n_at(x, "type", "error");
            n_add(x, e); n_at(e, "type", et[ci]); n_add(e, d);
            if (txt) { d = n_el("urn:ietf:params:xml:ns:xmpp-stanzas", "text"); n_add(d, n_tx(txt)); n_add(e, d); }
            judge_acc(r, x); judge(r, x, 1);
        }
    }
    judge_acc(s, w);                                       /* the original is untouched */
    if (r) xmpp_stanza_release(r);
    xmpp_stanza_release(s);
}
static void m_edit(void)
{
    N *r = n_el(NULL, "message"), *c = n_el(NULL, "c"), *t = NULL; const char *v;
    xmpp_stanza_t *s = xmpp_stanza_new(w_ctx), *sc = xmpp_stanza_new(w_ctx), *stx = NULL, *hold = NULL;
    xmpp_stanza_set_name(s, "message"); xmpp_stanza_set_name(sc, "c"); xmpp_stanza_add_child(s, sc); n_add(r, c);
    for (int i = 0; i < NOPS; i++) {
        N *n = r; xmpp_stanza_t *x = s;
        int k = (int)vf_pick(10);
        if (k < 4 && vf_pick(2)) { n = c; x = sc; }
        switch (k) {
        case 0: v = sym(1); xmpp_stanza_set_attribute(x, "id", v); n_at(n, "id", v); break;
        case 1: xmpp_stanza_set_name(x, "renamed"); n->name = "renamed"; break;
        case 2: { int f = -1; for (int j = 0; j < n->na; j++) if (!strcmp(n->ak[j], "id")) f = j; int rc = xmpp_stanza_del_attribute(x, "id"); vf_check((rc == 0) == (f >= 0), "del_attribute"); if (f >= 0) { n->na--; n->ak[f] = n->ak[n->na]; n->av[f] = n->av[n->na]; } } break;
        case 3: xmpp_stanza_set_ns(x, "urn:a"); n->ns = "urn:a"; break;
        case 4: if (!t) { stx = xmpp_stanza_new(w_ctx); v = sym(2); vf_check(xmpp_stanza_set_text_with_size(stx, v, 1) == XMPP_EOK, "set_text_with_size"); t = n_tx(n_dup(v, 1)); n_add(c, t); xmpp_stanza_add_child(sc, stx); } else { v = sym(1); xmpp_stanza_set_text(stx, v); t->t = v; } break;
        case 5: vf_check(xmpp_stanza_set_text(s, "x") != XMPP_EOK, "text set on an element"); if (stx) { vf_check(xmpp_stanza_set_name(stx, "x") != XMPP_EOK, "name set on a text"); vf_check(xmpp_stanza_set_attribute(stx, "a", "x") != XMPP_EOK, "attribute set on a text"); } break;
        case 6: xmpp_stanza_set_id(s, "i"); n_at(r, "id", "i"); xmpp_stanza_set_to(s, "t"); n_at(r, "to", "t"); break;
        case 7: xmpp_stanza_set_type(s, "y"); n_at(r, "type", "y"); xmpp_stanza_set_from(s, "f"); n_at(r, "from", "f"); break;
        case 8: { N *z = n_el("urn:b", "z"); n_add(r, z); hold = xmpp_stanza_new(w_ctx); xmpp_stanza_set_name(hold, "z"); xmpp_stanza_set_ns(hold, "urn:b"); xmpp_stanza_add_child_ex(s, hold, 0); } break;
        case 9: xmpp_stanza_set_attribute(s, "Q1", "q"); n_at(r, "Q1", "q"); break; /* shares a bucket with "i1" */
        }
    }
    judge_acc(s, r); judge(s, r, 1);
    xmpp_stanza_release(s);
    if (stx) { vf_check(xmpp_stanza_is_text(stx), "kept text"); xmpp_stanza_release(stx); }
    vf_check(!strcmp(xmpp_stanza_get_name(sc), c->name), "kept child"); c->up = NULL; judge_acc(sc, c);
    xmpp_stanza_release(sc);
}
void vf_main(void)
{
    lite_init();
    if (MODE == 1) m_bytes();
    if (MODE == 2) m_shape();
    if (MODE == 3) m_size();
    if (MODE == 4) m_copy();
    if (MODE == 5) m_reply();
    if (MODE == 6) m_edit();
    lite_end(1);
    vf_reached("end");
}
