/* C10 at the connection: the bytes of two consecutive streams (the second after a stream restart in the
 * middle of a chunk), read in pieces by the real event loop, against an independent parse. */
#include "world.h"
#include "xmlp.h"
static XP lx; static XML_Parser lx_of;
static void lx_s(XP *x, const char *n, const char **a) { XML_Parser p = x->ud; p->depth++; p->rooted = 1; if (p->start) p->start(p->ud, n, a); if (p->stopped) x->stopped = 1; }
static void lx_e(XP *x, const char *n) { XML_Parser p = x->ud; p->depth--; if (p->end) p->end(p->ud, n); }
static void lx_t(XP *x, const char *s, int n) { XML_Parser p = x->ud; if (p->chr) p->chr(p->ud, s, n); }
static void raw_feed(XML_Parser p, const char *s, int n)
{
    if (lx_of != p || !p->rooted) { if (!p->rooted && (lx_of != p || lx.rooted)) { xp_init(&lx); lx.sep = p->sep; lx.ud = p; lx.start = lx_s; lx.end = lx_e; lx.text = lx_t; lx_of = p; } }
    xp_feed(&lx, s, n);
    if (lx.dead) p->dead = 1;
}
#define HD(id) "<?xml version='1.0'?><stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams' id='" id "' version='1.0'>"
static const char *const first[] = {
    HD("a") "<message id='1'><body>a&lt;\nb</body></message><go/>",
    HD("a") "<message id='1'><body>a&lt;\nb</body></message> <go/><message id='gone'><body>lost",
    HD("a") "<iq xmlns:p='urn:p'><p:x/></iq><go/><iq id='\xc3",
    HD("a") "<iq/><go/>text</stray>",
    HD("a") "<presence/><m><n></m>",
    HD("a") "<presence><c>]]&gt;</c></presence></stream:stream>",
};
static const char *const second = HD("b") "<message id='2'><body>x&amp;<![CDATA[<y>]]>z</body></message>\n<presence/></stream:stream>";
static N *seen[16]; static int nseen, opens, gone;
static N *walk(xmpp_stanza_t *s)
{
    if (xmpp_stanza_is_text(s)) { const char *t = xmpp_stanza_get_text_ptr(s); return n_tx(n_dup(t, (int)strlen(t))); }
    const char *nm = xmpp_stanza_get_name(s), *ns = xmpp_stanza_get_ns(s), *at[40];
    N *n = n_el(ns ? n_dup(ns, (int)strlen(ns)) : "", n_dup(nm, (int)strlen(nm)));
    int k = xmpp_stanza_get_attributes(s, at, 40);
    for (int i = 0; i + 1 < k; i += 2) if (strcmp(at[i], "xmlns")) n_at(n, n_dup(at[i], (int)strlen(at[i])), n_dup(at[i + 1], (int)strlen(at[i + 1])));
    for (xmpp_stanza_t *c = xmpp_stanza_get_children(s); c; c = xmpp_stanza_get_next(c)) n_add(n, walk(c));
    return n;
}
static int on_stz(xmpp_conn_t *c, xmpp_stanza_t *s, void *u)
{
    (void)u;
    vf_check(nseen < 16, "harness: stanzas");
    seen[nseen++] = walk(s);
    if (!strcmp(xmpp_stanza_get_name(s), "go")) { gone = 1; vf_check(xmpp_conn_open_stream_default(c) == XMPP_EOK, "stream restart"); }
    return 1;
}
static void on_ev(xmpp_conn_t *c, xmpp_conn_event_t e, int err, xmpp_stream_error_t *se, void *u)
{
    (void)err; (void)se; (void)u;
    if (e == XMPP_CONN_RAW_CONNECT) xmpp_conn_open_stream_default(c);
    if (e == XMPP_CONN_CONNECT) opens++;
    if (e == XMPP_CONN_DISCONNECT) w_disconnected++;
}
static const char *src; static int so, sn, cut, phase;
static int hdrs(void) { int k = 0; for (unsigned i = 0; i + 14 <= w_wn; i++) if (!memcmp(w_wire + i, "<stream:stream", 14)) k++; return k; }
static int nosecond;
static int r_able(void) { if (so < sn) return phase == 0 ? hdrs() >= 1 : 1; if (phase == 0 && gone && !nosecond && hdrs() >= 2) return 1; return 0; }
static int cut2_;
static int r_recv(void *b, size_t n)
{
    if (so >= sn && phase == 0 && gone && !nosecond && hdrs() >= 2) { phase = 1; src = second; so = 0; sn = (int)strlen(second); cut = cut2_; }
    int k = sn - so;
    if (!k) return -EAGAIN;
    if (so < cut && so + k > cut) k = cut - so;
    if ((size_t)k > n) k = (int)n;
    memcpy(b, src + so, k); so += k;
    return k;
}
/* reference */
static N *want[16]; static int nwant, wdead, wclosed; static TB tb; static int rd;
static void rs(XP *x, const char *n, const char **a) { if (rd++) tb_start(x, n, a); }
static void re(XP *x, const char *n) { if (--rd) { N *c = tb.cur; tb_end(x, n); if (rd == 1) want[nwant++] = c; } else wclosed = 1; }
static void rt(XP *x, const char *s, int n) { if (tb.cur) tb_text(x, s, n); }
static void parse(const char *d) { static XP px; xp_init(&px); px.sep = '\x1f'; px.ud = &tb; px.start = rs; px.end = re; px.text = rt; tb.cur = tb.root = NULL; rd = 0; wclosed = wdead = 0; xp_feed(&px, d, (int)strlen(d)); wdead = px.dead; }
void vf_main(void)
{
    int restart, f, idle = 0;
    w_init(); w_new_attempt();
    w_feed = raw_feed; w_on_recv = r_recv; w_readable = r_able;
    src = first[DOC]; so = 0; sn = (int)strlen(src); cut = sn; f = sn; cut2_ = (int)strlen(second);
    int w = (int)vf_pick(1 + (DOC < 4));
    const char *g = strstr(src, "<go/>");
    if (DOC >= 1 && DOC <= 3) f = (int)(g - src) + 4; /* what follows comes with the end of <go/>: a server says nothing more before it sees the new header */
    if (w == 0) { cut = (int)vf_pick(f + 1); } else { cut2_ = (int)vf_pick((uint32_t)strlen(second) + 1); }
    parse(src); nosecond = wdead; int fdead = wdead, fclosed = wclosed;
    int upto = nwant; restart = 0;
    for (int i = 0; i < nwant; i++) if (!strcmp(want[i]->name, "go")) { upto = i + 1; restart = 1; }
    if (fdead && restart) upto = nwant;
    nwant = upto;
    if (restart && !fdead) parse(second);
    xmpp_handler_add(w_conn, on_stz, NULL, NULL, NULL, NULL);
    vf_check(xmpp_connect_raw(w_conn, "h", 5222, on_ev, NULL) == XMPP_EOK, "harness: connect");
    for (int i = 0; i < 400 && idle < 4 && !w_disconnected; i++) { xmpp_run_once(w_ctx, 1); if (!r_able()) idle++; else idle = 0; }
    for (int i = 0; i < 4; i++) { w_sec += 1; xmpp_run_once(w_ctx, 1); }
    vf_check(nseen == nwant, "another number of stanzas reached the handlers");
    for (int i = 0; i < nseen && i < nwant; i++) { want[i]->up = NULL; n_cmp(want[i], seen[i], "", ""); }
    vf_check(opens == 1 + (restart && !fdead), "number of opened streams");
    if (fclosed || fdead || restart) vf_check(w_disconnected == 1, "the connection does not end with the stream");
    w_end();
    vf_leak(w_live == 0, "memory lost");
    vf_reached("end");
}
