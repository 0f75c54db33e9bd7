/* C06: the send queue under back-pressure.  Elements of the user and of the library are queued,
 * dropped and written to a transport that takes an arbitrary number of bytes per loop iteration.
 * TLS: the same over the TLS layer; SM: with stream management (checked element-wise). */
#include "world.h"
#ifndef NACT
#define NACT 4
#endif
#ifndef NPRE
#define NPRE 2
#endif
#ifndef TLS
#define TLS 0
#endif
#ifndef SM
#define SM 0
#endif
typedef struct { char t[40]; unsigned n; int user; unsigned sent; int tried, gone; } Q;
static Q q[24]; static int nq;
static unsigned w0;                         /* wire position where the experiment starts */
static int limit, quota; static int eint;
static int on_send(size_t n)
{
    if (!limit) return (int)n;
    if (quota == 0) return eint ? -EINTR : -EAGAIN;
    int r = (int)n < quota ? (int)n : quota;
    quota -= r;
    return r;
}
static void add(int user)
{
    vf_check(nq < 24, "harness: queue");
    Q *e = &q[nq];
    if (SM != 2) w_conn->sm_state->r_sent = 1;
    memset(e, 0, sizeof *e);
    e->user = user;
    char nm[3] = {user ? 'u' : 'l', (char)('0' + nq % 10), 0};
    if (!user) { snprintf(e->t, sizeof e->t, "<%s/>", nm); send_raw(w_conn, e->t, strlen(e->t), XMPP_QUEUE_STROPHE, NULL); }
    else if (nq & 1) {
        xmpp_stanza_t *s = xmpp_stanza_new(w_ctx);
        xmpp_stanza_set_name(s, nm); xmpp_stanza_set_attribute(s, "a", "1");
        snprintf(e->t, sizeof e->t, "<%s a=\"1\"/>", nm);
        xmpp_send(w_conn, s);
        xmpp_stanza_release(s);
    } else if (nq & 2) { snprintf(e->t, sizeof e->t, "<%s>%s</%s>", nm, "%s", nm); xmpp_send_raw(w_conn, e->t, strlen(e->t)); }
    else { snprintf(e->t, sizeof e->t, "<%s/>", nm); xmpp_send_raw_string(w_conn, "<%s/>", nm); }
    e->n = (unsigned)strlen(e->t);
    nq++;
}
/* the library's own requests for acknowledgement may come between elements */
static unsigned ack_req(unsigned p)
{
    static const char R[] = "<r xmlns='urn:xmpp:sm:3'/>";
    if (SM == 2 && p + 1 < w_wn && w_wire[p + 1] == 'r') for (unsigned k = 0; k < sizeof R - 1 && p < w_wn; k++, p++) vf_check(w_wire[p] == (unsigned char)R[k], "the bytes on the wire are not the queued elements in order");
    return p;
}
/* consumes what arrived: exactly the next bytes of the queue */
static void account(void)
{
    unsigned p = w0;
    for (int i = 0; i < nq; i++) {
        if (q[i].gone) { vf_check(q[i].sent == 0, "harness: dropped after being sent"); continue; }
        unsigned k = 0;
        p = ack_req(p);
        if (SM == 2 && p + 1 == w_wn && w_wire[p] == '<') { q[i].sent = 0; q[i].tried = 1; return; } /* the first byte of a request or of this element */
        while (p < w_wn && k < q[i].n) { vf_check(w_wire[p] == (unsigned char)q[i].t[k], "the bytes on the wire are not the queued elements in order"); p++; k++; }
        q[i].sent = k;
        if (k < q[i].n) break;
    }
    p = ack_req(p);
    if (SM == 2 && p + 1 == w_wn && w_wire[p] == '<') return;
    vf_check(p == w_wn, "more bytes on the wire than were queued");
}
static int first_unsent(void) { for (int i = 0; i < nq; i++) if (!q[i].gone && q[i].sent < q[i].n) return i; return nq; }
static int candidates(int *amb)
{
    int c = 0, f = first_unsent();
    *amb = -1;
    for (int i = f; i < nq; i++) if (q[i].user && !q[i].gone && q[i].sent == 0) { c++; if (i == f && q[i].tried) *amb = i; }
    return c;
}
static void qlen(void)
{
    int amb, c = candidates(&amb), l = xmpp_conn_send_queue_len(w_conn);
    vf_check(l == c || (amb >= 0 && l == c - 1), "the reported queue length is not the number of user elements not yet started");
}
static void drop(int oldest)
{
    char *t = xmpp_conn_send_queue_drop_element(w_conn, oldest ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
    int amb, c = candidates(&amb), f = first_unsent(), k = -1, alt = -1;
    for (int i = f; i < nq; i++) if (q[i].user && !q[i].gone && q[i].sent == 0) {
        if (oldest) { if (i == amb) { alt = i; continue; } k = i; break; }
        if (i == amb) alt = i; else k = i;
    }
    if (oldest && alt >= 0) { /* an element that was offered to the transport without success may count as started or not */
        if (t && !strcmp(t, q[alt].t)) k = alt;
    } else if (!oldest && k < 0 && alt >= 0 && t) k = alt;
    if (k < 0) vf_check(t == NULL, "an element was dropped although there is none that may be");
    else {
        vf_check(t != NULL, "nothing dropped although there is an element that may be");
        if (t) vf_check(!strcmp(t, q[k].t), "the text returned is not that of the element to be dropped");
        q[k].gone = 1;
    }
    (void)c;
    if (t) xmpp_free(w_ctx, t);
}
static void step(void)
{
    if (SM != 2) w_conn->sm_state->r_sent = 1; /* no <r/> in between */
    int f = first_unsent();
    xmpp_run_once(w_ctx, 1);
    account();
    int g = first_unsent();
    (void)f;
    if (g < nq) q[g].tried = 1;
    vf_check(!w_disconnected, "a transient condition of the transport ended the connection");
}
static int sink(XML_Parser p) { if (!w_connected) return sv_conform(p); return 0; }
static int quiet(void) { w_poll(); return w_eof || (!w_connected && w_qh < w_qt); }
void vf_main(void)
{
    w_init();
    w_turn = sink;
    sv.starttls = TLS; sv.mech = M_PLAIN; sv.sm = SM != 0;
    vf_assume(w_client() == XMPP_EOK);
    w_run(16);
    vf_check(w_connected == 1, "harness: not connected");
    w_step();
    w_readable = quiet; w_on_send = on_send;
    w0 = w_wn;
    int pre = (int)vf_pick(NPRE + 1);
    for (int i = 0; i < pre; i++) add(vf_pick(2) == 0);
    for (int a = 0; a < NACT; a++) {
        switch (vf_pick(5)) {
        case 0: add(1); break;
        case 1: add(0); break;
        case 2: drop(1); break;
        case 3: drop(0); break;
        case 4: {
            limit = vf_pick(2) == 0;
            if (limit) { unsigned n = ND_U8(); vf_assume(n <= QMAX); quota = (int)vf_concretize(n); eint = quota == 0 ? (int)vf_pick(2) : 0; }
            step();
            limit = 0;
        } break;
        }
        qlen();
    }
    if (vf_pick(2)) { /* the connection ends: what was not started can still be taken out, in order */
        w_eof = 1; limit = 1; quota = 0;
        xmpp_run_once(w_ctx, 1); xmpp_run_once(w_ctx, 1);
        vf_check(w_disconnected == 1, "harness: disconnect");
        int f = first_unsent(), i = f;
        char *t;
        while ((t = xmpp_conn_send_queue_drop_element(w_conn, XMPP_QUEUE_OLDEST))) {
            for (; i < nq; i++) if (!q[i].gone && q[i].user && (i > f || !strcmp(t, q[i].t))) break;
            vf_check(i < nq && !strcmp(t, q[i].t), "the text returned is not that of the element to be dropped");
            i++;
            xmpp_free(w_ctx, t);
        }
        vf_check(w_conn->send_queue_len >= 0 && xmpp_conn_send_queue_len(w_conn) == 0, "queue length after dropping everything");
    } else {
        step(); step();
        for (int i = 0; i < nq; i++) vf_check(q[i].gone || q[i].sent == q[i].n, "a queued element was not sent");
        vf_check(xmpp_conn_send_queue_len(w_conn) == 0, "queue length after everything was sent");
        w_eof = 1; xmpp_run_once(w_ctx, 1); xmpp_run_once(w_ctx, 1);
        vf_reached("drained");
    }
    w_on_send = NULL;
    w_end();
    vf_leak(w_live == 0, "memory of the queue lost");
    vf_reached("end");
}
