/* C16: the persisted stream-management state.
 * MODE 0: any byte string of length LEN (first 5+HEAD bytes may be fixed by TPL): accepted iff an
 *         independent reader of the format accepts it, with the same contents; afterwards the
 *         connection can be connected or released.
 * MODE 1: a live state (symbolic counters, id, texts) -> callback -> restore -> same state, same blob.
 * MODE 2: a well-formed blob with one byte changed, cut or extended anywhere. */
#include "world.h"
#ifndef LEN
#define LEN 30
#endif
#ifndef NU
#define NU 1
#endif
#ifndef NA
#define NA 1
#endif
#ifndef TL
#define TL 2
#endif
typedef struct { unsigned off, len; uint32_t h; } str;
static struct { uint32_t sent, handled; str id, u[8], a[8]; uint32_t nu, na; } rf;
static const unsigned char *rb; static unsigned rn, rp;
static int r_u32(unsigned t, uint32_t *v) { if (rn - rp < 5 || rb[rp] != t) return 0; *v = (uint32_t)rb[rp + 1] << 24 | (uint32_t)rb[rp + 2] << 16 | (uint32_t)rb[rp + 3] << 8 | rb[rp + 4]; rp += 5; return 1; }
static int r_str(str *s) { uint32_t l; if (!r_u32(0x7a, &l) || l > rn - rp) return 0; l = vf_concretize(l); s->off = rp; s->len = l; rp += l; return 1; }
static int reader(const unsigned char *b, unsigned n)
{
    uint32_t v;
    rb = b; rn = n; rp = 0;
    if (!r_u32(0x1a, &v) || v != 0) return 0;
    if (!r_u32(0x1a, &rf.sent) || !r_u32(0x1a, &rf.handled) || !r_str(&rf.id)) return 0;
    if (!r_u32(0x9a, &rf.nu)) return 0;
    for (uint32_t i = 0; i < rf.nu; i++) { if (i >= 8 || !r_str(&rf.u[i])) return 0; }
    if (!r_u32(0xba, &rf.na)) return 0;
    for (uint32_t i = 0; i < rf.na; i++) { if (i >= 8 || !r_u32(0x1a, &rf.a[i].h) || !r_str(&rf.a[i])) return 0; }
    return rp == rn;
}
static int eqs(const str *s, const char *d, size_t l) { if (!d || l != s->len) return 0; int e = 1; for (unsigned i = 0; i < s->len; i++) e &= (unsigned char)d[i] == rb[s->off + i]; return e & (d[l] == 0); }
static void same_as_ref(void)
{
    xmpp_sm_state_t *s = w_conn->sm_state;
    vf_check(s != NULL, "accepted but no state");
    vf_check(s->sm_sent_nr == rf.sent && s->sm_handled_nr == rf.handled, "restored counters differ");
    vf_check(s->id && strlen(s->id) <= rf.id.len && eqs(&rf.id, s->id, rf.id.len), "restored session id differs");
    uint32_t i = 0;
    for (xmpp_send_queue_t *q = w_conn->send_queue_head; q; q = q->next, i++) { vf_check(i < rf.nu && eqs(&rf.u[i], q->data, q->len), "restored unsent queue differs"); vf_check(q->next ? q->next->prev == q : q == w_conn->send_queue_tail, "restored queue badly linked"); }
    vf_check(i == rf.nu && xmpp_conn_send_queue_len(w_conn) == (int)rf.nu, "restored unsent queue incomplete");
    i = 0;
    for (xmpp_send_queue_t *q = s->sm_queue.head; q; q = q->next, i++) { vf_check(i < rf.na && q->sm_h == rf.a[i].h && eqs(&rf.a[i], q->data, q->len), "restored unacknowledged queue differs"); vf_check(q->next ? q->next->prev == q : q == s->sm_queue.tail, "restored queue badly linked"); }
    vf_check(i == rf.na, "restored unacknowledged queue incomplete");
}
static unsigned char out[512]; static size_t nout; static int calls;
static void cb(xmpp_conn_t *c, void *u, const unsigned char *b, size_t n) { (void)c; (void)u; vf_check(n < sizeof out, "harness: blob"); if (b) memcpy(out, b, n); nout = n; calls++; }
static void afterwards(int accepted)
{
    switch (vf_pick(accepted ? 3 : 2)) {
    case 0: break;
    case 1: {
        if (accepted && rf.na) break; /* arbitrary text on the wire: see w_sm.c */
        sv.starttls = 0; sv.mech = M_PLAIN; sv.sm = 0; sv.resume_fail = 0;
        vf_check(xmpp_conn_restore_sm_state(w_conn, (const unsigned char *)"x", 1) != XMPP_EOK, "one byte accepted");
        vf_check(w_client() == XMPP_EOK, "connection not usable afterwards");
        vf_check(xmpp_conn_restore_sm_state(w_conn, out, nout) != XMPP_EOK, "state accepted on a connection in use");
        w_run(14);
        vf_check(w_connected == 1, "connection not usable afterwards");
        w_eof = 1; w_run(2);
        vf_check(w_disconnected == 1, "connection not usable afterwards");
        break;
    }
    case 2: { /* the queues behave like native ones: drop the unsent elements through the API */
        uint32_t left = rf.nu;
        while (left) {
            int old = (int)vf_pick(2); char *t = xmpp_conn_send_queue_drop_element(w_conn, old ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
            static int lo, hi; if (left == rf.nu) { lo = 0; hi = (int)rf.nu - 1; }
            int k = old ? lo++ : hi--;
            vf_check(t && eqs(&rf.u[k], t, rf.u[k].len), "dropping a restored element returns the wrong text");
            xmpp_free(w_ctx, t); left--;
            vf_check(xmpp_conn_send_queue_len(w_conn) == (int)left, "queue length wrong after dropping a restored element");
        }
        vf_check(xmpp_conn_send_queue_drop_element(w_conn, XMPP_QUEUE_OLDEST) == NULL, "an element that is not there was dropped");
        break;
    }
    }
    w_end();
    vf_check(w_live == 0, "memory lost");
}
static unsigned char blob[512];
static unsigned put32(unsigned o, unsigned t, uint32_t v) { blob[o] = (unsigned char)t; blob[o + 1] = (unsigned char)(v >> 24); blob[o + 2] = (unsigned char)(v >> 16); blob[o + 3] = (unsigned char)(v >> 8); blob[o + 4] = (unsigned char)v; return o + 5; }
static unsigned putstr(unsigned o, unsigned l) { o = put32(o, 0x7a, l); for (unsigned i = 0; i < l; i++) { blob[o] = ND_U8(); vf_assume(blob[o] != 0); o++; } return o; }
static void restore(const unsigned char *b, unsigned n)
{
    unsigned char *x = malloc(n ? n : 1); /* exact size: reading beyond is an error */
    memcpy(x, b, n);
    int before = w_live;
    int rc = xmpp_conn_restore_sm_state(w_conn, x, n);
    int want = reader(x, n);
    vf_note("ok", want);
    if (want) vf_check(rc == XMPP_EOK, "well-formed state refused");
    else vf_check(rc != XMPP_EOK, "malformed state accepted");
    if (want) same_as_ref();
    else { vf_check(w_conn->sm_state == NULL && w_conn->send_queue_head == NULL && w_conn->send_queue_tail == NULL && xmpp_conn_send_queue_len(w_conn) == 0 && w_live == before, "a refused state left something behind"); }
    if (want) {
        calls = 0;
        xmpp_conn_set_sm_callback(w_conn, cb, NULL);
        trigger_sm_callback(w_conn);
        vf_check(calls == 1 && (strlen(w_conn->sm_state->id) < rf.id.len || (nout == n && !memcmp(out, x, n))), "the restored state does not serialise to the same bytes");
        xmpp_conn_set_sm_callback(w_conn, NULL, NULL);
        vf_reached("accepted");
    } else vf_reached("refused");
    afterwards(want);
    free(x);
}
void vf_main(void)
{
    w_init();
#if MODE == 0
    for (unsigned i = 0; i < LEN; i++) blob[i] = ND_U8();
    if (LEN >= 5 && vf_pick(2)) vf_assume(blob[0] == 0x1a && !blob[1] && !blob[2] && !blob[3] && !blob[4]);
    restore(blob, LEN);
#elif MODE == 1
    /* a live connection's state */
    static const unsigned idl[] = {1, 3};
    static const unsigned tl[] = {1, TL};
    unsigned L = idl[vf_pick(2)];
    xmpp_sm_state_t *s = strophe_alloc(w_ctx, sizeof *s);
    memset(s, 0, sizeof *s);
    s->ctx = w_ctx; s->sm_support = s->sm_enabled = s->can_resume = 1;
    s->sm_sent_nr = ND_U32(); s->sm_handled_nr = ND_U32();
    s->id = strophe_alloc(w_ctx, L + 1); for (unsigned i = 0; i < L; i++) { s->id[i] = (char)ND_U8(); vf_assume(s->id[i] != 0); } s->id[L] = 0;
    w_conn->sm_state = s;
    unsigned o = put32(0, 0x1a, 0);
    o = put32(o, 0x1a, s->sm_sent_nr); o = put32(o, 0x1a, s->sm_handled_nr);
    o = put32(o, 0x7a, L); for (unsigned i = 0; i < L; i++) blob[o++] = (unsigned char)s->id[i];
    unsigned nu = vf_pick(NU + 1), na = vf_pick(NA + 1);
    o = put32(o, 0x9a, nu);
    w_conn->state = XMPP_STATE_CONNECTED; s->r_sent = 1;
    for (unsigned i = 0; i < nu; i++) {
        unsigned n = tl[vf_pick(2)], b = o; o = putstr(o, n);
        char t[TL + 2]; memcpy(t, blob + b + 5, n); t[n] = 0;
        xmpp_send_raw(w_conn, t, n);
    }
    w_conn->state = XMPP_STATE_DISCONNECTED;
    o = put32(o, 0xba, na);
    for (unsigned i = 0; i < na; i++) {
        uint32_t h = ND_U32(); o = put32(o, 0x1a, h);
        unsigned n = tl[vf_pick(2)], b = o; o = putstr(o, n);
        xmpp_send_queue_t *q = strophe_alloc(w_ctx, sizeof *q); memset(q, 0, sizeof *q);
        q->data = strophe_alloc(w_ctx, n + 1); memcpy(q->data, blob + b + 5, n); q->data[n] = 0; q->len = n; q->sm_h = h; q->owner = XMPP_QUEUE_USER;
        add_queue_back(&s->sm_queue, q);
    }
    xmpp_conn_set_sm_callback(w_conn, cb, NULL);
    trigger_sm_callback(w_conn);
    vf_check(calls == 1 && nout == o && !memcmp(out, blob, o), "the serialised state is not the state");
    xmpp_conn_release(w_conn);
    w_conn = xmpp_conn_new(w_ctx);
    xmpp_conn_set_jid(w_conn, w_jid); xmpp_conn_set_pass(w_conn, w_pass);
    restore(out, o);
#else
    unsigned o = put32(0, 0x1a, 0);
    o = put32(o, 0x1a, ND_U32()); o = put32(o, 0x1a, ND_U32()); o = putstr(o, 3);
    o = put32(o, 0x9a, NU); for (int i = 0; i < NU; i++) o = putstr(o, TL);
    o = put32(o, 0xba, NA); for (int i = 0; i < NA; i++) { o = put32(o, 0x1a, ND_U32()); o = putstr(o, TL); }
    switch (vf_pick(3)) {
    case 0: { unsigned k = vf_pick(o); blob[k] = ND_U8(); restore(blob, o); break; }
    case 1: restore(blob, vf_pick(o)); break;
    case 2: { int n = 1 + (int)vf_pick(6); for (int i = 0; i < n; i++) blob[o++] = ND_U8(); restore(blob, o); break; }
    }
#endif
    vf_reached("end");
}
