/* C11: which handlers are called, in which order, and for how long.
 * MODE 1: one handler (by filter or by id) and one stanza whose names, namespaces, types and ids are symbolic
 * MODE 2: NH handlers, NSTZ stanzas; callbacks return true/false, add, delete, re-add handlers or send
 * MODE 3: timed handlers of the connection and of the context, symbolic periods and clock advances */
#include "world.h"
#ifndef NH
#define NH 3
#endif
#ifndef ACT
#define ACT 2
#endif
#ifndef NSTZ
#define NSTZ 2
#endif
#ifndef KINDS
#define KINDS 4
#endif
#ifndef RECON
#define RECON 0
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef NF
#define NF 2
#endif
#ifndef MATCH
#define MATCH 1
#endif
#ifndef PERSYM
#define PERSYM 0
#endif
#ifndef LATE
#define LATE 0
#endif
#ifndef SLEN
#define SLEN 0
#endif
#ifndef FLEN
#define FLEN 0
#endif
#ifndef EARLY
#define EARLY 0
#endif
typedef struct { int id, fn, ud; const char *f_id, *ns, *name, *type; int alive, fresh, called; } R;
static R m[32]; static int nm;
static int ud_[32];
static const E *cur;                  /* the stanza being dispatched */
static int acts = 0, adds;
static int eq(const char *a, const char *b) { return a && b && !strcmp(a, b); }
static int match(const R *r)
{
    if (r->id) return eq(el_get(cur, "id"), r->f_id);
    if (r->ns) {
        int ok = eq(cur->ns, r->ns);
        for (const E *c = cur->child; c; c = c->next) ok |= eq(c->ns, r->ns);
        if (!ok) return 0;
    }
    if (r->name && !eq(cur->name, r->name)) return 0;
    if (r->type && !eq(el_get(cur, "type"), r->type)) return 0;
    return 1;
}
static R *next_due(void)
{
    for (int k = 1; k >= 0; k--)
        for (int i = 0; i < nm; i++) if (m[i].alive && m[i].id == k && !m[i].fresh && !m[i].called && match(&m[i])) return &m[i];
    return NULL;
}
static void dispatch_end(void)
{
    if (!cur) return;
    vf_check(next_due() == NULL, "a handler whose filter matches was not called");
    for (int i = 0; i < nm; i++) m[i].fresh = m[i].called = 0;
    cur = NULL;
}
static int negotiated;
static void on_emit(E *e) { dispatch_end(); if (negotiated) cur = e; }
static int call(int fn, xmpp_conn_t *c, xmpp_stanza_t *s, void *u);
#define CB(n) static int f##n(xmpp_conn_t *c, xmpp_stanza_t *s, void *u) { return call(n, c, s, u); }
CB(0) CB(1) CB(2)
static const xmpp_handler fns[] = {f0, f1, f2};
static void reg(const R *r)
{
    if (r->id) xmpp_id_handler_add(w_conn, fns[r->fn], r->f_id, &ud_[r->ud]);
    else xmpp_handler_add(w_conn, fns[r->fn], r->ns, r->name, r->type, &ud_[r->ud]);
    for (int i = 0; i < nm; i++) if (m[i].alive && m[i].id == r->id && m[i].fn == r->fn && m[i].ud == r->ud && (!r->id || !strcmp(m[i].f_id, r->f_id))) return;
    vf_check(nm < 32, "harness: registrations");
    m[nm] = *r; m[nm].alive = 1; m[nm].called = 0; m[nm].fresh = cur != NULL; nm++;
}
static void del(int id, int fn, const char *fid)
{
    if (id) xmpp_id_handler_delete(w_conn, fns[fn], fid); else xmpp_handler_delete(w_conn, fns[fn]);
    for (int i = 0; i < nm; i++) if (m[i].alive && m[i].id == id && m[i].fn == fn && (!id || !strcmp(m[i].f_id, fid))) m[i].alive = 0;
}
static R kind(int k, int fn, int ud)
{
    R r = {0, fn, ud, NULL, NULL, NULL, NULL, 1, 0, 0};
    switch (k) {
    case 0: r.id = 1; r.f_id = "i1"; break;
    case 1: break;                                      /* every stanza */
    case 2: r.name = "presence"; break;
    case 3: r.id = 1; r.f_id = "Q1"; break;             /* same hash bucket as i1 */
    case 4: r.ns = "urn:c"; break;
    case 5: r.type = "chat"; r.name = "message"; break;
    }
    return r;
}
static int call(int fn, xmpp_conn_t *c, xmpp_stanza_t *s, void *u)
{
    R *r;
    vf_check(c == w_conn && s != NULL, "callback arguments");
    if (!negotiated) return 1;                         /* negotiation stanzas are not judged */
    vf_check(cur != NULL, "a handler was called although no stanza arrived");
    r = next_due();
    vf_check(r && r->fn == fn && u == (void *)&ud_[r->ud], "a handler was called that is not the next one to be called");
    if (!r) return 1;
    r->called = 1;
    int me = (int)(r - m);
    vf_check(!strcmp(xmpp_stanza_get_name(s), cur->name), "the callback got another stanza");
    if (acts <= 0) return 1;
    switch (vf_pick(9)) {
    case 0: return 1;
    case 1: acts--; m[me].alive = 0; return 0;
    case 2: acts--; { int k = (int)vf_pick(3); int f = (int)vf_pick(NF); R n = kind(k, f, 16 + adds++); reg(&n); } return 1;
    case 3: acts--; { int x = (int)vf_pick(NF); del(0, x, NULL); } return 1;
    case 4: acts--; { int x = (int)vf_pick(NF); del(1, x, "i1"); } if (vf_pick(2)) { m[me].alive = 0; return 0; } return 1;
    case 5: acts--; { R n = m[me]; reg(&n); } return 1;
    case 6: acts--; { R n = m[me]; reg(&n); } m[me].alive = 0; return 0;
    case 7: acts--; { R n = m[me]; del(n.id, n.fn, n.f_id); reg(&n); } return 1;
    case 8: acts--; { xmpp_stanza_t *p = xmpp_presence_new(w_ctx); xmpp_send(w_conn, p); xmpp_stanza_release(p); } if (vf_pick(2)) { int x = (int)vf_pick(NF); del(0, x, NULL); m[me].alive = 0; return 0; } return 1;
    }
    return 1;
}
static E *push[8]; static int npush, ipush;
static int turn(XML_Parser p)
{
    if (ipush < npush) { while (ipush < npush) { E *e = push[ipush++]; x_el(p, e); } return 1; }
    return sv_conform(p);
}
static int more(void) { return ipush < npush; }
static int slen_, flen_;             /* lengths of the strings of the stanza and of the filters */
static const char *sstr(int n)
{
    char *s = w_txt + w_tn; w_tn += (unsigned)n + 1;
    for (int i = 0; i < n; i++) { s[i] = (char)ND_U8(); vf_assume(s[i] > 32 && s[i] < 127 && s[i] != '|');
#ifdef ALPH
        vf_assume(s[i] >= 'a' && s[i] < 'a' + ALPH);
#endif
    }
    s[n] = 0;
    return s;
}
static void connect_(void)
{
    negotiated = 0;
    vf_check(w_client() == XMPP_EOK, "harness: connect");
    w_run(16);
    vf_check(w_connected == 1, "harness: not connected");
    negotiated = 1;
}
static void deliver(void) { w_run(1); if (ipush < npush) w_run(1); dispatch_end(); vf_check(ipush == npush, "harness: not delivered"); npush = ipush = 0; }
static void mode_match(void)
{
    E *e; const char *t; static const char *const nms[] = {"message", "iq", "presence"};
    int byid = MATCH == 2;
    slen_ = SLEN ? SLEN : 1 + (int)vf_pick(2); flen_ = FLEN ? FLEN : 1 + (int)vf_pick(2);
    int pk = byid ? (int)vf_pick(3) : 1 + 2 * (int)vf_pick(2);
    const char *nm_ = pk < 3 ? nms[pk] : sstr(slen_);
    e = el(vf_pick(2) ? XN_CLIENT : sstr(slen_), nm_);
    if (!byid && vf_pick(2)) { t = sstr(slen_); el_at(e, "type", t); }
    if (byid && vf_pick(2)) { t = sstr(slen_); el_at(e, "id", t); }
    if (byid && vf_pick(2)) { t = sstr(slen_); el_at(e, "type", t); }
    int nc = byid ? 0 : (int)vf_pick(3);
    if (nc == 1) el_tx(e, "x");
    for (int i = 0; i < nc; i++) {
        E *c; int k = nc == 2 && i == 0 ? 0 : (int)vf_pick(3);
        c = el(k == 0 ? NULL : k == 1 ? XN_CLIENT : sstr(slen_), "c");
        if (k) el_ch(c, el("zz", "g"));
        el_ch(e, c);
    }
    R r = {byid, 0, 0, NULL, NULL, NULL, NULL, 1, 0, 0};
    if (byid) r.f_id = sstr(flen_);
    else {
        int k;
        k = (int)vf_pick(4); r.ns = k == 0 ? NULL : k == 1 ? XN_CLIENT : k == 2 ? "zz" : sstr(flen_);
        k = (int)vf_pick(3); r.name = k == 0 ? NULL : k == 1 ? "iq" : sstr(flen_);
        k = (int)vf_pick(2); r.type = k == 0 ? NULL : sstr(flen_);
    }
    reg(&r);
    push[0] = e; npush = 1;
    deliver();
    vf_reached("end");
}
static E *stz(void)
{
    E *e;
    switch (vf_pick(3)) {
    case 0: e = el_at(el(XN_CLIENT, "message"), "id", "i1"); break;
    case 1: e = el(XN_CLIENT, "presence"); break;
    default: e = el_at(el_at(el(XN_CLIENT, "message"), "type", "chat"), "id", "Q1"); el_ch(e, el("urn:c", "c")); break;
    }
    return e;
}
static void mode_dispatch(void)
{
    for (int i = 0; i < NH; i++) {
        int k = (int)vf_pick(KINDS + 1);
        if (k == KINDS) { if (nm) { R d = m[nm - 1]; reg(&d); } }
        else { int f = (int)vf_pick(NF); R r = kind(k, f, i); reg(&r); }
    }
    if (RECON) connect_();
    acts = ACT;
    for (int a = 0; a <= RECON; a++) {
        if (a) { w_eof = 1; w_run(2); vf_check(w_disconnected == 1, "harness: drop"); w_eof = 0; connect_(); }
        int same = NSTZ > 1 && vf_pick(2);
        for (int i = 0; i < NSTZ; i++) { E *e = i == 0 ? el_at(el(XN_CLIENT, "message"), "id", "i1") : stz(); push[npush++] = e; if (!same) deliver(); }
        if (same) deliver();
    }
    acts = 0;
    push[npush++] = el_at(el(XN_CLIENT, "message"), "id", "i1");
    push[npush++] = el(XN_CLIENT, "presence");
    deliver();
    vf_reached("end");
}
/* ---- timed */
typedef struct { int glob, fn, ud; unsigned long per; uint64_t last, lo, armed; int alive, fired, due; } T;
static T tm[12]; static int nt; static int t_acts;
static uint64_t now(void) { return w_sec * 1000 + w_ms; }
static void tick(uint32_t maxs)
{
    static const uint32_t off[] = {0, 499, 1};
    uint32_t d = ND_U8(), o = off[vf_pick(PERSYM ? 3 : 2)];
    vf_assume(d <= maxs);
    w_sec += d;
    w_ms += o;
    if (w_ms >= 1000) { w_ms -= 1000; w_sec++; }
}
static int tcall(int glob, int fn, void *u);
static int g0(xmpp_conn_t *c, void *u) { vf_check(c == w_conn, "callback arguments"); return tcall(0, 0, u); }
static int g1(xmpp_conn_t *c, void *u) { vf_check(c == w_conn, "callback arguments"); return tcall(0, 1, u); }
static int h0(xmpp_ctx_t *c, void *u) { vf_check(c == w_ctx, "callback arguments"); return tcall(1, 0, u); }
static int h1(xmpp_ctx_t *c, void *u) { vf_check(c == w_ctx, "callback arguments"); return tcall(1, 1, u); }
static const xmpp_timed_handler gs[] = {g0, g1}; static const xmpp_global_timed_handler hs[] = {h0, h1};
static void t_reg(int glob, int fn, int ud, unsigned long per)
{
    if (glob) xmpp_global_timed_handler_add(w_ctx, hs[fn], per, &ud_[ud]); else xmpp_timed_handler_add(w_conn, gs[fn], per, &ud_[ud]);
    for (int i = 0; i < nt; i++) if (tm[i].alive && tm[i].glob == glob && tm[i].fn == fn && tm[i].ud == ud) return;
    vf_check(nt < 12, "harness: registrations");
    tm[nt] = (T){glob, fn, ud, per, now(), now(), 0, 1, 0, 0}; nt++;
}
static void t_del(int glob, int fn)
{
    if (glob) xmpp_global_timed_handler_delete(w_ctx, hs[fn]); else xmpp_timed_handler_delete(w_conn, gs[fn]);
    for (int i = 0; i < nt; i++) if (tm[i].glob == glob && tm[i].fn == fn) tm[i].alive = 0;
}
static int tcall(int glob, int fn, void *u)
{
    T *t = NULL;
    for (int i = 0; i < nt; i++) if (tm[i].alive && tm[i].glob == glob && tm[i].fn == fn && u == (void *)&ud_[tm[i].ud]) t = &tm[i];
    vf_check(t != NULL, "a timed handler was called that is not registered");
    if (!t) return 1;
    vf_check(glob || (w_connected && !w_disconnected), "a timed handler fired while its connection is not connected");
    vf_check(now() - t->lo >= t->per, "a timed handler fired early");
    t->last = t->lo = now(); t->fired++;
    if (t_acts <= 0) return 1;
    int me = (int)(t - tm);
    switch (vf_pick(glob ? 7 : 8)) {
    case 0: return 1;
    case 1: t_acts--; tm[me].alive = 0; return 0;
    case 2: t_acts--; { int g = (int)vf_pick(2), f = (int)vf_pick(2); t_del(g, f); } return 1;
    case 3: t_acts--; { int g = (int)vf_pick(2), f = (int)vf_pick(2); t_reg(g, f, 8 + t_acts, vf_pick(2) ? 1 : 1000); } return 1;
    case 4: t_acts--; { T n = tm[me]; t_reg(n.glob, n.fn, n.ud, n.per + 1); } if (vf_pick(2)) return 1; tm[me].alive = 0; return 0; /* registered twice: kept once */
    case 5: t_acts--; { T n = tm[me]; t_del(n.glob, n.fn); t_reg(n.glob, n.fn, n.ud, n.per); } return 1;
    case 6: t_acts--; tick(1); return 1;                                         /* a slow callback */
    case 7: t_acts--; xmpp_disconnect(w_conn); return 1;
    }
    return 1;
}
static int opens;
static int t_turn(XML_Parser p)
{
    if (w_qh < w_qt && w_q[w_qh]->kind == K_OPEN) { for (int i = 0; i < nt; i++) if (!tm[i].glob) { tm[i].last = now(); if (!opens) tm[i].lo = now(); } opens++; }
    return turn(p);
}
/* one loop iteration: whatever is due when it starts fires in it */
static void t_step(void)
{
    int conn = w_connected && !w_disconnected;
    for (int i = 0; i < nt; i++) { tm[i].fired = 0; tm[i].due = tm[i].alive && (tm[i].glob || conn) && now() - tm[i].last >= tm[i].per; }
    w_step();
    conn = w_connected && !w_disconnected;
    for (int i = 0; i < nt; i++) if (tm[i].due && tm[i].alive && (tm[i].glob || conn)) vf_check(tm[i].fired >= 1, "a timed handler that is due did not fire");
}
static void mode_timed(void)
{
    static const unsigned long per[] = {1, 1000, 2500};
    int conf = 0;
    for (int i = 0; i < NH; i++) {
        int g = (int)vf_pick(2), f = i ? (int)vf_pick(2) : 0, k = (int)vf_pick(PERSYM ? 1 : i ? 2 : 3);
        unsigned long pr = PERSYM ? ND_U16() : per[k];
        if (PERSYM) vf_assume(pr <= 4000);
        t_reg(g, f, i, pr);
    }
    if (LATE) { t_acts = 0; }
    if (!EARLY) { tick(1); t_step(); }
    opens = 0;
    if (LATE != 2) {
        vf_check(w_client() == XMPP_EOK, "harness: connect");
        for (int i = 0; i < 16 && !w_connected; i++) { if (EARLY && (i == 3 || i == 5)) tick(1); t_step(); }
        vf_check(w_connected == 1, "harness: not connected");
        conf = 1;
    }
    t_acts = ACT;
    for (int i = 0; i < STEPS; i++) {
        tick(2);
        if (conf && i == STEPS - 1) { w_eof = (int)vf_pick(2); }
        t_step();
        if (conf && i < STEPS - 1 && vf_pick(3) == 0) { push[0] = el(XN_CLIENT, "presence"); ipush = 0; npush = 1; }
    }
    tick(2); t_step();
    vf_reached("end");
}
void vf_main(void)
{
    w_init();
    w_turn = MODE == 3 ? t_turn : turn; w_more = more; w_on_emit = on_emit;
    sv.starttls = 0; sv.mech = M_PLAIN; sv.sm = 0;
    if (MODE == 1) { connect_(); mode_match(); }
    if (MODE == 2) { if (!RECON) connect_(); mode_dispatch(); }
    if (MODE == 3) mode_timed();
    w_eof = 1; w_run(2);
    w_end();
    vf_leak(w_live == 0, "memory of the handlers lost");
}
