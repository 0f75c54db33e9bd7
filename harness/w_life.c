/* Lifecycle obligations of C13 that do not need a hostile server:
 *   MODE 0  flag words and SM state in every connection state
 *   MODE 1  TCP connect that never completes, symbolic elapsed time
 *   MODE 2  server goes silent at stage STAGE, symbolic elapsed time
 *   MODE 3  graceful close requested by the user, symbolic elapsed time */
#include "world.h"
#ifndef FLAGS
#define FLAGS 0
#endif
#ifndef COMPONENT
#define COMPONENT 0
#endif
static void on_event(xmpp_conn_event_t ev, int error, xmpp_stream_error_t *se)
{
    (void)error; (void)se;
    if (ev == XMPP_CONN_DISCONNECT) vf_check(w_disconnected == 1, "more than one disconnect notification");
    else vf_check(w_connected == 1 && !w_disconnected, "more than one connect notification, or one after the disconnect notification");
}
static int silent, stage, seen_open;
static int sturn(XML_Parser p)
{
    if (silent) { w_qh = w_qt; return 0; }
    if (w_qh < w_qt) {
        E *e = w_q[w_qh];
        if (e->kind == K_OPEN && ++seen_open == stage) { silent = 1; w_qh++; sv_open(p); return 1; }   /* header without features */
        if ((stage == 10 && el_is(e, "iq", NULL) && el_find(e, "bind")) || (stage == 11 && el_is(e, "iq", NULL) && el_find(e, "session")) ||
            (stage == 12 && el_is(e, "iq", NULL) && el_find(e, "query")) || (stage == 13 && el_is(e, "handshake", NULL))) { silent = 1; w_qh = w_qt; return 0; }
    }
    return sv_conform(p);
}
static int readable(void) { w_poll(); if (w_eof) return 1; if (silent) return 0; return w_qh < w_qt; }
static int pending_forever(int fd) { (void)fd; return -1; }
static int inprogress(int fd, const struct sockaddr *sa) { (void)fd; (void)sa; return EINPROGRESS; }
static void pred(void)
{
    int n = !!xmpp_conn_is_connecting(w_conn) + !!xmpp_conn_is_connected(w_conn) + !!xmpp_conn_is_disconnected(w_conn);
    vf_check(n == 1, "not exactly one of connecting/connected/disconnected holds");
    vf_check(!!xmpp_conn_is_disconnected(w_conn) == (w_disconnected > 0), "is_disconnected disagrees with the notifications");
    vf_check(!!xmpp_conn_is_connected(w_conn) == (w_connected > 0 && !w_disconnected), "is_connected disagrees with the notifications");
}
static int start(void)
{
    w_new_attempt(); seen_open = 0;
    if (COMPONENT) return xmpp_connect_component(w_conn, "h", 5347, w_handler, NULL);
    return xmpp_connect_client(w_conn, "h", 5222, w_handler, NULL);
}
static void step(void) { w_step(); pred(); }
/* symbolic seconds, a few millisecond offsets: keeps the clock arithmetic cheap for the solver */
static uint32_t tick(uint32_t maxs)
{
    static const uint32_t off[] = {0, 1, 999};
    uint32_t d = ND_U8(), o = off[vf_pick(3)];
    vf_assume(d <= maxs);
    w_sec += d;
    w_ms += o;
    if (w_ms >= 1000) { w_ms -= 1000; w_sec++; }
    return d * 1000 + o;
}

static void try_flags(int must_refuse)
{
    long f = (long)ND_U16(), old = xmpp_conn_get_flags(w_conn);
    vf_assume(f < 512);
    int rc = xmpp_conn_set_flags(w_conn, f);
    if (must_refuse) {
        vf_check(rc != XMPP_EOK, "flags accepted although the connection is not disconnected");
        vf_check(xmpp_conn_get_flags(w_conn) == old, "refused flags took effect");
        vf_check(xmpp_conn_set_sm_state(w_conn, w_conn->sm_state) != XMPP_EOK, "SM state accepted although the connection is not disconnected");
        vf_check(xmpp_conn_restore_sm_state(w_conn, (const unsigned char *)"\x1a\0\0\0\0\x1a\0\0\0\0\x1a\0\0\0\0\x7a\0\0\0\0\x9a\0\0\0\0\xba\0\0\0\0", 30) != XMPP_EOK, "SM blob accepted although the connection is not disconnected");
        return;
    }
    if (rc == XMPP_EOK) vf_check(xmpp_conn_get_flags(w_conn) == f, "accepted flags do not read back as set");
    else {
        int conflict = (f & XMPP_CONN_FLAG_DISABLE_TLS) && (f & (XMPP_CONN_FLAG_MANDATORY_TLS | XMPP_CONN_FLAG_LEGACY_SSL | XMPP_CONN_FLAG_TRUST_TLS));
        vf_check(conflict || f >= 256, "valid flags refused on a disconnected connection");
        if (f < 256) vf_check(xmpp_conn_get_flags(w_conn) == old, "refused flags took effect");
    }
    xmpp_conn_set_flags(w_conn, FLAGS);
}
void vf_main(void)
{
    if (COMPONENT) { w_defns = XN_COMP; w_jid = "comp.example.net"; }
#ifdef JID
    w_jid = JID;
#endif
    w_init();
    w_turn = sturn; w_readable = readable; w_on_event = on_event; w_on_connect = inprogress;
    sv.mech = M_PLAIN; sv.session = 1; sv.starttls = 1; sv.zlib = 1;
#ifdef NOMECH
    sv.mech = 0; sv.starttls = NOMECH - 1;
#endif
    vf_assume(xmpp_conn_set_flags(w_conn, FLAGS) == XMPP_EOK);
#if MODE == 0
    try_flags(0);
    w_on_async = pending_forever;
    vf_check(start() == XMPP_EOK, "harness: connect");
    pred();
    int k = (int)vf_pick(3);
    if (k == 0) { try_flags(1); w_step(); try_flags(1); vf_reached("flags while connecting"); }
    w_on_async = NULL;
    for (int i = 0; i < 30 && !w_connected; i++) step();
    vf_check(w_connected == 1, "honest server: not connected");
    if (k == 1) { try_flags(1); vf_reached("flags while connected"); }
    xmpp_disconnect(w_conn);
    if (k == 2) { try_flags(1); vf_reached("flags while closing"); }
    w_run(4);
    w_sec += 3;
    step();
    vf_check(w_disconnected == 1, "graceful close did not end");
    try_flags(0);
#elif MODE == 1
    w_on_async = pending_forever;
    vf_check(start() == XMPP_EOK, "harness: connect");
    uint32_t t = 0;
    step();
    for (int i = 0; i < 3 && !w_disconnected; i++) {
        t += tick(9);
        step();
        if (t < 5000) vf_check(!w_disconnected, "TCP connect given up before 5 s");
        if (t > 5000) vf_check(w_disconnected == 1, "TCP connect not given up after 5 s");
    }
    vf_reached(w_disconnected ? "timed out" : "still waiting");
#elif MODE == 2
    stage = STAGE;
    vf_check(start() == XMPP_EOK, "harness: connect");
    for (int i = 0; i < 40 && !silent; i++) step();
    vf_check(silent, "harness: stage not reached");
    w_step(); w_step(); w_step();
    vf_check(!w_disconnected, "connection given up before any time has passed");
    unsigned wn = w_wn; uint32_t t = 0; int gone = 0;
    for (int i = 0; i < 2 && !gone; i++) {
        t += tick(30);
        w_step(); w_step();
        gone = w_wn != wn || w_disconnected;
        if (t < 15000) vf_check(!gone, "wait given up before its 15 s deadline");
        else vf_check(gone, "wait not given up after its 15 s deadline");
        if (!w_disconnected) pred();
    }
    if (gone) {
        vf_reached("given up");
#ifndef FALLBACK
        t = tick(9);
        step();
        if (t < 2000) { w_sec += 2; step(); }
        vf_check(w_disconnected == 1, "connection not ended after its deadline and the 2 s close");
        vf_check(w_connected == 0, "reported up although the wait was given up");
#endif
    } else vf_reached("still waiting");
#else
    vf_check(start() == XMPP_EOK, "harness: connect");
    for (int i = 0; i < 40 && !w_connected; i++) step();
    vf_check(w_connected == 1, "honest server: not connected");
    step(); step();
    silent = 1;
    xmpp_disconnect(w_conn);
    step();
    uint32_t t = 0; unsigned wn = w_wn;
    vf_check(wn >= 16 && !memcmp(w_wire + wn - 16, "</stream:stream>", 16), "stream not closed by xmpp_disconnect()");
    for (int i = 0; i < 2 && !w_disconnected; i++) {
        t += tick(9);
        step();
        if (t < 2000) vf_check(!w_disconnected, "graceful close given up before 2 s");
        else vf_check(w_disconnected == 1, "graceful close not given up after 2 s");
    }
    vf_reached(w_disconnected ? "closed" : "still waiting");
#endif
    int was = w_disconnected;
    xmpp_conn_release(w_conn);
    vf_check(w_disconnected == 1, was ? "disconnect notified again by release" : "released connection did not notify its end");
    xmpp_ctx_free(w_ctx);
    vf_reached("end");
}
