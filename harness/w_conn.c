/* C12: programs over connection objects: START puts the connection into one of several stages, then NOPS
 * operations of the public API, then everything held is given back. Only ownership is judged. */
#include "world.h"
#ifndef NOPS
#define NOPS 2
#endif
static int h1(xmpp_conn_t *c, xmpp_stanza_t *s, void *u) { (void)c; (void)s; (void)u; return 1; }
static int h2(xmpp_conn_t *c, xmpp_stanza_t *s, void *u) { (void)c; (void)s; (void)u; return 0; }
static int t1(xmpp_conn_t *c, void *u) { (void)c; (void)u; return 1; }
static int t2(xmpp_conn_t *c, void *u) { (void)c; (void)u; return 0; }
static int g1(xmpp_ctx_t *c, void *u) { (void)c; (void)u; return 1; }
static xmpp_conn_t *conns[4]; static int refs[4], nc, cur;
static xmpp_sm_state_t *held_sm;
static unsigned char blob[400]; static size_t blobn;
static void on_sm(xmpp_conn_t *c, void *ctx, const unsigned char *b, size_t n) { (void)c; (void)ctx; if (b && n <= sizeof blob) { memcpy(blob, b, n); blobn = n; } }
static int quota_on, quota;
static int on_send(size_t n) { if (!quota_on) return (int)n; if (!quota) return -EAGAIN; int r = (int)n < quota ? (int)n : quota; quota -= r; return r; }
static int sink(XML_Parser p) { return sv_conform(p); }
/* the stanza a test server sends on its own */
static int push;
static int more(void) { return push; }
static int turn(XML_Parser p)
{
    if (w_qh >= w_qt && push) { int k = push; push = 0;
        if (k == 1) { E *e = el_at(el_at(el(XN_CLIENT, "iq"), "type", "result"), "id", "i1"); el_ch(e, el(XN_SESS, "x")); x_el(p, e); }
        if (k == 2) { E *e = el(XN_STREAM, "error"); el_ch(e, el("urn:ietf:params:xml:ns:xmpp-streams", "conflict")); el_ch(e, el_tx(el("urn:ietf:params:xml:ns:xmpp-streams", "text"), "t")); x_el(p, e); }
        if (k == 3) { E *e = el_at(el(XN_SM, "a"), "h", "1"); x_el(p, e); }
        if (k == 4) p->dead = 1;
        return 1; }
    return sink(p);
}
static void go(int n) { if (w_eof && w_conn->state == XMPP_STATE_DISCONNECTED) return; w_run(n); }
static xmpp_conn_t *mk(void) { xmpp_conn_t *c = xmpp_conn_new(w_ctx); xmpp_conn_set_jid(c, "user@example.net/r"); xmpp_conn_set_pass(c, "pencil"); conns[nc] = c; refs[nc] = 1; return conns[nc++]; }
static void up(void)
{
    if (w_conn->state != XMPP_STATE_DISCONNECTED) { (void)xmpp_connect_client(w_conn, "h2", 1, w_handler, NULL); return; }
    w_client();
    for (int i = 0; i < 24 && !w_connected && !w_disconnected; i++) w_step();
}
static void user_send(void)
{
    xmpp_stanza_t *s = xmpp_message_new(w_ctx, "chat", "a@b", NULL);
    xmpp_message_set_body(s, "b");
    xmpp_send(w_conn, s); xmpp_stanza_release(s);
    xmpp_send_raw_string(w_conn, "<%s/>", "presence"); xmpp_send_raw(w_conn, "<iq/>", 5);
}
static void op(void)
{
    int k; char *t;
    switch (vf_pick(14)) {
    case 0:
        xmpp_conn_set_jid(w_conn, "user2@example.net"); xmpp_conn_set_jid(w_conn, "user@example.net/r"); xmpp_conn_set_pass(w_conn, "x"); xmpp_conn_set_pass(w_conn, "pencil");
        xmpp_conn_set_cafile(w_conn, "/a"); xmpp_conn_set_cafile(w_conn, "/b"); xmpp_conn_set_capath(w_conn, "/c"); xmpp_conn_set_capath(w_conn, "/d");
        if (vf_pick(2)) { xmpp_conn_set_client_cert(w_conn, "/cert", "/key"); xmpp_conn_set_client_cert(w_conn, "/cert2", NULL); xmpp_conn_set_client_cert(w_conn, NULL, NULL); }
        break;
    case 1:
        xmpp_handler_add(w_conn, h1, "urn:x", "iq", "get", NULL); xmpp_handler_add(w_conn, h1, "urn:x", "iq", "get", NULL); xmpp_handler_add(w_conn, h2, XN_SESS, NULL, NULL, NULL);
        xmpp_id_handler_add(w_conn, h1, "i1", NULL); xmpp_id_handler_add(w_conn, h2, "i1", NULL); xmpp_id_handler_add(w_conn, h1, "i1", NULL);
        xmpp_timed_handler_add(w_conn, t1, 10, NULL); xmpp_timed_handler_add(w_conn, t2, 0, NULL); xmpp_timed_handler_add(w_conn, t1, 20, NULL);
        xmpp_global_timed_handler_add(w_ctx, g1, 1, NULL);
        break;
    case 2:
        xmpp_handler_delete(w_conn, h1); xmpp_id_handler_delete(w_conn, h1, "i1"); xmpp_id_handler_delete(w_conn, h2, "none"); xmpp_timed_handler_delete(w_conn, t1); xmpp_global_timed_handler_delete(w_ctx, g1);
        break;
    case 3: user_send(); quota_on = 1; quota = (int)vf_pick(2) * 30; go(2); quota_on = 0; break;
    case 4: k = (int)vf_pick(2); quota_on = 1; quota = 0; user_send(); while ((t = xmpp_conn_send_queue_drop_element(w_conn, k ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST))) xmpp_free(w_ctx, t); quota_on = 0; break;
    case 5: xmpp_disconnect(w_conn); if (vf_pick(2)) { w_sec += 3; go(3); } break;
    case 6: w_eof = 1; go(2); break;
    case 7: up(); break;
    case 8: if (w_conn->state == XMPP_STATE_DISCONNECTED) { w_new_attempt(); k = (int)vf_pick(2); if (k ? xmpp_connect_component(w_conn, "h", 5347, w_handler, NULL) : xmpp_connect_raw(w_conn, "h", 5222, w_handler, NULL)) break; go(3); if (!k) { xmpp_conn_open_stream_default(w_conn); go(3); } } break;
    case 9: { /* hand-over of the stream management state */
        if (held_sm) { if (vf_pick(2)) { xmpp_free_sm_state(held_sm); held_sm = NULL; } else if (xmpp_conn_set_sm_state(w_conn, held_sm) == XMPP_EOK) held_sm = NULL; }
        else { held_sm = xmpp_conn_get_sm_state(w_conn); if (held_sm && vf_pick(2) && nc < 3) { xmpp_conn_t *n = mk(); if (xmpp_conn_set_sm_state(n, held_sm) == XMPP_EOK) held_sm = NULL; w_conn = n; cur = nc - 1; } }
        break; }
    case 10: if (refs[cur] < 3) { xmpp_conn_clone(w_conn); refs[cur]++; } break;
    case 11: if (refs[cur] > 1) { refs[cur]--; vf_leak(!xmpp_conn_release(w_conn), "release of a held connection freed it"); }
        else if (nc < 3) { refs[cur]--; vf_leak(xmpp_conn_release(w_conn) == 1, "last release did not free"); w_conn = mk(); cur = nc - 1; w_new_attempt(); w_eof = 1; } break;
    case 12:
        xmpp_conn_set_sm_callback(w_conn, on_sm, NULL);
        if (w_conn->state == XMPP_STATE_DISCONNECTED) {
            static const unsigned char b0[] = "\x1a\0\0\0\0\x1a\0\0\0\1\x1a\0\0\0\2\x7a\0\0\0\2id\x9a\0\0\0\1\x7a\0\0\0\4<a/>\xba\0\0\0\1\x1a\0\0\0\1\x7a\0\0\0\4<b/>";
            int cutn = vf_pick(2) ? 3 : 0; /* a truncated blob leaves nothing behind */
            xmpp_conn_restore_sm_state(w_conn, b0, sizeof b0 - 1 - cutn);
            if (blobn) xmpp_conn_restore_sm_state(w_conn, blob, blobn);
        }
        break;
    case 13: if (w_connected && !w_disconnected) { push = 1 + (int)vf_pick(4); go(3); push = 0; } break;
    }
}
void vf_main(void)
{
    w_init(); conns[0] = w_conn; refs[0] = 1; nc = 1; cur = 0;
    w_turn = turn; w_more = more; w_on_send = on_send;
    sv.mech = M_PLAIN; sv.session = 0; sv.sm = 1; sv.starttls = 1; sv.zlib = 1;
    w_eof = 1;
    switch (START) {
    case 0: break;
    case 1: up(); vf_leak(w_connected == 1, "harness: connect"); break;
    case 2: up(); user_send(); go(2); user_send(); break;
    case 3: up(); user_send(); go(2); w_eof = 1; go(2); break;                    /* session to be resumed */
    case 4: xmpp_conn_set_flags(w_conn, XMPP_CONN_FLAG_ENABLE_COMPRESSION); up(); break;
    case 5: w_client(); w_run(3 + (int)vf_pick(8)); break;                        /* somewhere in negotiation */
    }
    for (int i = 0; i < NOPS; i++) op();
    if (held_sm) xmpp_free_sm_state(held_sm);
    for (int i = 0; i < nc; i++) while (refs[i]) { refs[i]--; int r = xmpp_conn_release(conns[i]); vf_leak(!r == !!refs[i], "release reports the wrong thing"); }
    if (START & 1) xmpp_global_timed_handler_delete(w_ctx, g1);
    xmpp_ctx_free(w_ctx);
    vf_leak(w_open_fds() == 0, "descriptor lost");
    vf_leak(w_live == 0 && w_tls_live == 0 && w_xp_live == 0 && w_z_live == 0, "memory was not returned to the context's allocator");
    vf_reached("end");
}
