/* C10: what parser_expat.c makes of a byte stream, however the bytes are cut.
 * MODE 1: documents DOC, cut at any two places
 * MODE 2: documents with NSYM arbitrary bytes at place POS, cut around them
 * MODE 3: reset after any prefix of a document, then another document
 * MODE 4: every cut of MAXCUT places in a short document, byte by byte */
#include "lite.h"
#include "xmlp.h"
#include "xmlexpat.h"
#ifndef DOC
#define DOC 0
#endif
#ifndef POS
#define POS 0
#endif
#ifndef NSYM
#define NSYM 2
#endif
#define ST "<stream:stream xmlns='jabber:client' xmlns:stream=\"http://etherx.jabber.org/streams\" id='i&amp;1' from='x.org' version='1.0' xml:lang='en'>"
#define SH "<s:s xmlns='j' xmlns:s='t' id='1'>"
static const char *const docs[] = {
    "<?xml version='1.0'?>" ST "\n<message to='a&lt;b' type=\"it's\"><body>x &amp; y\r\nz&#233;&#x1F600;</body><x xmlns='urn:x'><y a=''/><n xmlns=''/></x></message> <iq/></stream:stream>",
    SH "<stream:features xmlns:stream='q'><a xmlns='urn:a'>t<![CDATA[<raw>&amp; ]]]]>u<b/>v</a><stream:c/></stream:features>\r\n<p/></s:s>",
    SH "<m><!-- c -- no --></m></s:s>",
    SH "<m><!-- c <x> --><b>a<i/>b&gt;c\n\nd</b><?pi data?></m><m><b></c></m><n/></s:s>",
    SH "<m a='1' a='2'/></s:s>",
    SH "<m>a&undef;b</m></s:s>",
    SH "<p:m xmlns:p='urn:p'><p:q xmlns:p='urn:r'><p:s/></p:q><p:t/></p:m><p:u/></s:s>",
    SH "<m a='\t\n\r\n&#10;'>  <b>\t</b>  </m><m>last</m></s:s><again/>",
};
#define NDOC ((int)(sizeof docs / sizeof *docs))
/* ---- what happened, as a sequence */
typedef struct { int kind; N *n; } EV;                     /* 1 opened (attributes) 2 stanza 3 closed 4 error */
typedef struct { EV e[12]; int n; N *cur; int depth; } TR;
static void tr_add(TR *t, int k, N *n) { vf_check(t->n < 12, "harness: events"); if (t->n < 12) { t->e[t->n].kind = k; t->e[t->n].n = n; t->n++; } }
static TR ref, got; static TB tbx;
static void rf_start(XP *x, const char *nsname, const char **at)
{
    TR *t = x->ud;
    if (t->depth == 0) { N *n = n_el("", n_dup(strchr(nsname, x->sep) ? strchr(nsname, x->sep) + 1 : nsname, (int)strlen(strchr(nsname, x->sep) ? strchr(nsname, x->sep) + 1 : nsname))); for (int i = 0; at[i]; i += 2) { const char *u = strchr(at[i], x->sep); n_at(n, n_dup(u ? u + 1 : at[i], (int)strlen(u ? u + 1 : at[i])), n_dup(at[i + 1], (int)strlen(at[i + 1]))); } tr_add(t, 1, n); }
    else { tbx.cur = t->cur; x->ud = &tbx; tb_start(x, nsname, at); x->ud = t; t->cur = tbx.cur; }
    t->depth++;
}
static void rf_end(XP *x, const char *nsname)
{
    TR *t = x->ud; (void)nsname; t->depth--;
    if (t->depth == 0) tr_add(t, 3, NULL);
    else { N *n = t->cur; t->cur = n->up; if (t->depth == 1) tr_add(t, 2, n); }
}
static void rf_text(XP *x, const char *s, int n) { TR *t = x->ud; if (!t->cur) return; tbx.cur = t->cur; x->ud = &tbx; tb_text(x, s, n); x->ud = t; }
static XP px;
static void reference(TR *t, const char *d, int n) { t->n = 0; t->cur = NULL; t->depth = 0; tbx.cur = tbx.root = NULL; xp_init(&px); px.sep = '\x1f'; px.ud = t; px.start = rf_start; px.end = rf_end; px.text = rf_text; xp_feed(&px, d, n); if (px.dead) tr_add(t, 4, NULL); }
static N *walk(xmpp_stanza_t *s)
{
    if (xmpp_stanza_is_text(s)) { const char *t = xmpp_stanza_get_text_ptr(s); return n_tx(n_dup(t, (int)strlen(t))); }
    vf_check(xmpp_stanza_is_tag(s), "a stanza that is neither text nor element");
    const char *nm = xmpp_stanza_get_name(s), *ns = xmpp_stanza_get_ns(s), *at[40];
    N *n = n_el(ns ? n_dup(ns, (int)strlen(ns)) : "", n_dup(nm, (int)strlen(nm)));
    int k = xmpp_stanza_get_attributes(s, at, 40);
    for (int i = 0; i + 1 < k; i += 2) if (strcmp(at[i], "xmlns")) n_at(n, n_dup(at[i], (int)strlen(at[i])), n_dup(at[i + 1], (int)strlen(at[i + 1])));
    for (xmpp_stanza_t *c = xmpp_stanza_get_children(s); c; c = xmpp_stanza_get_next(c)) { n_add(n, walk(c)); if (n->nk > 1 && n->kid[n->nk - 1]->text && n->kid[n->nk - 2]->text) vf_check(0, "text of one element was delivered in pieces"); }
    return n;
}
static parser_t *ps;
static void on_start(char *name, char **attrs, void *u)
{
    TR *t = u; N *n = n_el("", n_dup(name, (int)strlen(name)));
    for (int i = 0; attrs[i]; i += 2) { char *k = parser_attr_name(w_ctx, attrs[i]); n_at(n, n_dup(k, (int)strlen(k)), n_dup(attrs[i + 1], (int)strlen(attrs[i + 1]))); strophe_free(w_ctx, k); }
    tr_add(t, 1, n);
}
static void on_end(char *name, void *u) { (void)name; tr_add(u, 3, NULL); }
static void on_stanza(xmpp_stanza_t *s, void *u) { tr_add(u, 2, walk(s)); }
static int failed;
static void feed(const char *d, int n)
{
    if (failed || !n) return;
    char *c = malloc(n); memcpy(c, d, n);                  /* the buffer is reused by the caller afterwards */
    if (!parser_feed(ps, c, n)) { failed = 1; tr_add(&got, 4, NULL); }
    memset(c, '<', n); free(c);
}
static void same(void)
{
    vf_check(ref.n == got.n, "another number of events");
    for (int i = 0; i < ref.n && i < got.n; i++) {
        vf_check(ref.e[i].kind == got.e[i].kind, "another event");
        if (ref.e[i].kind == got.e[i].kind && ref.e[i].n) { ref.e[i].n->up = NULL; n_cmp(ref.e[i].n, got.e[i].n, "", ""); }
    }
}
static void begin(void) { got.n = 0; failed = 0; ps = parser_new(w_ctx, on_start, on_end, on_stanza, &got); vf_check(ps != NULL, "no parser"); }
static void finish(void) { parser_free(ps); vf_leak(xe_live == 0, "expat parser leaked"); }
static void cuts(const char *d, int n)
{
    int a = (int)vf_pick(n + 1), b = CUT2 ? a + (int)vf_pick(n + 1 - a) : n;
    begin(); feed(d, a); feed(d + a, b - a); feed(d + b, n - b); finish();
}
static void m_docs(void)
{
    const char *d = docs[DOC]; int n = (int)strlen(d);
    reference(&ref, d, n);
    cuts(d, n);
    same();
}
static char sb[400];
static void m_sym(void)
{
    static const char *const tmpl[] = {SH "<m><b>x#y</b></m><n/></s:s>", SH "<m id='#'/><n/></s:s>", SH "<#/><n/></s:s>", SH "<m>a&#;b</m></s:s>", SH "#<m/></s:s>", SH "<m><![CDATA[a#]]></m></s:s>", SH "<m a='1'#><b/></m></s:s>", SH "<m><b>t</#></m></s:s>"};
    const char *t = tmpl[POS]; int h = 0, n = 0, k, keep;
    while (t[h] != '#' || (POS == 3 && t[h + 1] != ';')) { sb[n++] = t[h]; h++; }
    keep = n;
    for (k = 0; k < NSYM; k++) { uint8_t c = ND_U8(); sb[n++] = (char)c; }
    for (h++; t[h]; h++) sb[n++] = t[h];
    reference(&ref, sb, n);
    k = keep - 1 + (int)vf_pick(NSYM + 3);
    begin(); feed(sb, k); feed(sb + k, n - k); finish();
    same();
}
static void m_reset(void)
{
    const char *d = docs[DOC], *e = docs[vf_pick(2)]; int n = (int)strlen(d), a = (int)vf_pick(n + 1), m = (int)strlen(e);
    begin(); feed(d, a); failed = 0; got.n = 0;
    vf_check(parser_reset(ps), "reset failed");
    reference(&ref, e, m);
    int b = m / 2; feed(e, b); feed(e + b, m - b);
    finish(); same();
}
static void m_bytes(void)
{
    const char *d = docs[DOC]; int n = (int)strlen(d), step = 1 + (int)vf_pick(7), off = (int)vf_pick(step);
    reference(&ref, d, n);
    begin(); feed(d, off); for (int i = off; i < n; i += step) feed(d + i, n - i < step ? n - i : step); finish();
    same();
}
void vf_main(void)
{
    lite_init();
    if (MODE == 1) m_docs();
    if (MODE == 2) m_sym();
    if (MODE == 3) m_reset();
    if (MODE == 4) m_bytes();
    lite_end(1);
    vf_reached("end");
}
