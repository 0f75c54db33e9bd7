/* Stream management (XEP-0198) across several TCP connections of one logical session.
 * P=4 outbound: which stanzas are retained, released, re-sent.   P=5 inbound: the reported h.
 * P=16: as P=4, every drop is followed by a fresh connection restored from the blob the SM
 * callback delivered last (XFER=2).  The server's choices (what it counted before the drop, which h
 * it reports, whether and how a resumption fails) and the user's are symbolic. */
#include "world.h"
#define CHK(p, c, m) do { if (P == (p) || (P == 16 && (p) == 4)) vf_check((c), (m)); } while (0)
#ifndef ATT
#define ATT 2        /* connections */
#endif
#ifndef NSEND
#define NSEND 2      /* stanzas the user sends per phase, at most */
#endif
#ifndef NIN
#define NIN 2        /* server items per phase */
#endif
#ifndef XFER
#define XFER 0       /* 0 same object, 1 get/set_sm_state to a fresh connection, 2 blob, 3 any of them */
#endif
#ifndef BASES
#define BASES 0
#endif
#ifndef OUTCOMES
#define OUTCOMES 5
#endif
#ifndef ACKS
#define ACKS 2
#endif
#ifndef PARTIAL
#define PARTIAL 0
#endif
#define MAXS 64
static const uint32_t bases[] = {BASES};
static uint32_t base;
/* ---- outbound: the server's view */
static int lg[MAXS], nlg;            /* stanzas of the logical session in the order the server got them, from number `from` on */
static int from;                     /* how many of them are acknowledged (lg[from..] must be retained) */
static int exp_[MAXS], nexp, iexp;   /* to be re-sent */
static int smon, uid, seen[MAXS], partial_id;
static char hbuf[4][16]; static int hb;
static const char *hstr(uint32_t v) { char *b = hbuf[hb++ & 3]; int n = 0; char t[12]; do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v); for (int i = 0; i < n; i++) b[i] = t[n - 1 - i]; b[n] = 0; return b; }
/* ---- inbound */
static uint32_t in_cnt, in_at_r[MAXS], in_base; static int nr, na, counting;
/* ---- script */
static const char *symh; static int rep_k;
static int outcome, resume_asked, enable_seen;
static uint32_t rep_h;
static E *push[8]; static int npush, ipush;
static unsigned char blob[2048]; static size_t nblob; static int blobs;
static void sm_cb(xmpp_conn_t *c, void *ctx, const unsigned char *b, size_t n)
{
    (void)c; (void)ctx;
    vf_check(n <= sizeof blob, "harness: blob");
    if (b && n) memcpy(blob, b, n);
    nblob = b ? n : 0; blobs++;
}
static int uidof(const E *e) { const char *id = el_get(e, "id"); return id && id[0] == 'u' && id[1] >= '0' ? (id[1] - '0') * 10 + (id[2] - '0') : -1; }
static void on_item(E *e)
{
    if (e->kind != K_EL) return;
    if (el_ns(e, XN_SM)) {
        if (el_is(e, "enable", NULL)) { CHK(4, !smon, "enabled twice"); enable_seen = 1; smon = 1; nlg = from = 0; }
        if (el_is(e, "resume", NULL)) {
            const char *h = el_get(e, "h");
            resume_asked = 1;
            CHK(5, h && !strcmp(h, hstr(in_cnt)), "h of <resume/> is not the number of stanzas received");
        }
        if (el_is(e, "a", NULL)) {
            const char *h = el_get(e, "h");
            CHK(5, na < nr, "an <a/> that nobody asked for");
            CHK(5, h && !strcmp(h, hstr(in_at_r[na < MAXS ? na : 0])), "h of <a/> is not the number of stanzas received");
            na++;
        }
        return;
    }
    if (!el_is(e, "message", NULL) && !el_is(e, "iq", NULL) && !el_is(e, "presence", NULL)) return;
    int u = uidof(e);
    if (u < 0) { if (smon) { vf_check(nlg < MAXS, "harness: log"); lg[nlg++] = -1; } return; }
    if (iexp < nexp) { CHK(4, u == exp_[iexp], "re-sent stanzas missing, out of order, or overtaken by a new one"); iexp++; }
    else CHK(4, !seen[u], "stanza sent again although the server has it");
    seen[u] = 1;
    if (smon) { vf_check(nlg < MAXS, "harness: log"); lg[nlg++] = u; }
}
static int retained_ok(void)
{
    int i = from;
    for (xmpp_send_queue_t *q = w_conn->sm_state->sm_queue.head; q; q = q->next, i++) {
        if (i >= nlg) return 0;
        if (lg[i] >= 0) { char pat[4] = {'u', (char)('0' + lg[i] / 10), (char)('0' + lg[i] % 10), 0}; if (!q->data || !strstr(q->data, pat)) return 0; }
    }
    return i == nlg;
}
static void audit(void)
{
    if (smon && !w_disconnected) {
        CHK(4, retained_ok(), "the retained stanzas are not exactly those the server has not acknowledged");
        CHK(4, w_conn->sm_state->sm_sent_nr == base + (uint32_t)nlg, "the count of sent stanzas is out of step with the server");
        CHK(5, w_conn->sm_state->sm_handled_nr == in_cnt, "the count of received stanzas is wrong");
    }
}
/* h beyond from..nlg: what the server counted */
static void expect_from(int k) { nexp = iexp = 0; for (int i = k; i < nlg; i++) if (lg[i] >= 0) exp_[nexp++] = lg[i]; }
static int turn(XML_Parser p)
{
    if (w_qh < w_qt) {
        E *e = w_q[w_qh];
        if (el_is(e, "resume", XN_SM)) {
            w_qh++;
            if (outcome == 0) {
                int k = symh ? rep_k : (int)(rep_h - base);
                expect_from(k);
                nlg = from = k; smon = 1;
                x_el(p, el_at(el_at(el(XN_SM, "resumed"), "previd", el_get(e, "previd")), "h", symh ? symh : hstr(rep_h)));
                counting = 1;
                if (P == 5 && vf_pick(2)) { x_el(p, el_at(el(XN_CLIENT, "message"), "type", "chat")); }
            } else {
                E *f = el_ch(el(XN_SM, "failed"), el(XN_STANZAS, outcome == 4 ? "feature-not-implemented" : "item-not-found"));
                if (outcome == 1) { el_at(f, "h", symh ? symh : hstr(rep_h)); expect_from(symh ? rep_k : (int)(rep_h - base)); } else expect_from(from);
                base = 0; in_cnt = 0; counting = 0;
                x_el(p, f);
            }
            return 1;
        }
        if (el_is(e, "enable", XN_SM)) {
            w_qh++;
            if (P == 5 && vf_pick(2)) x_el(p, el_at(el(XN_CLIENT, "message"), "type", "chat")); /* before the server starts counting */
            if (outcome == 3) { smon = 0; x_el(p, el_ch(el(XN_SM, "failed"), el(XN_STANZAS, "unexpected-request"))); return 1; }
            in_cnt = 0; base = 0;
            x_el(p, el_at(el_at(el(XN_SM, "enabled"), "id", "sm1"), "resume", "true"));
            counting = 1;
            if (P == 5 && vf_pick(2)) { x_el(p, el_at(el(XN_CLIENT, "message"), "type", "chat")); }
            return 1;
        }
    } else if (ipush < npush) { while (ipush < npush) { E *e = push[ipush++]; x_el(p, e); } return 1; }
    return sv_conform(p);
}
static int more(void) { return ipush < npush; }
static void on_emit(E *e) {
    if (!counting || xmpp_conn_is_disconnected(w_conn)) return;
    if (el_ns(e, XN_CLIENT)) in_cnt++;
    else if (el_is(e, "r", XN_SM)) { vf_check(nr < MAXS, "harness: r"); in_at_r[nr++] = in_cnt; }
}
static int quota = -1;
static int on_send(size_t n) { if (quota < 0) return (int)n; if (quota == 0) return -EAGAIN; int r = (int)n < quota ? (int)n : quota; quota -= r; return r; }
static void user_send(void)
{
    char id[4] = {'u', (char)('0' + uid / 10), (char)('0' + uid % 10), 0};
    vf_check(uid < MAXS - 1, "harness: ids");
    uid++;
    if (uid & 1) xmpp_send_raw_string(w_conn, "<message id='%s'/>", id);
    else { xmpp_stanza_t *s = xmpp_message_new(w_ctx, "chat", "x@y", id); xmpp_send(w_conn, s); xmpp_stanza_release(s); }
}
static void on_event(xmpp_conn_event_t ev, int error, xmpp_stream_error_t *se)
{
    (void)error; (void)se;
    if (ev == XMPP_CONN_CONNECT && (P == 4 || P == 16)) { char id[4] = {'u', (char)('0' + uid / 10), (char)('0' + uid % 10), 0}; uid++; xmpp_send_raw_string(w_conn, "<iq id='%s' type='get'/>", id); }
}
static int reply(xmpp_conn_t *c, xmpp_stanza_t *s, void *u) { (void)c; (void)s; (void)u; return 1; }
static void setup(void)
{
    xmpp_conn_set_jid(w_conn, w_jid); xmpp_conn_set_pass(w_conn, w_pass);
    if (XFER >= 2) xmpp_conn_set_sm_callback(w_conn, sm_cb, NULL);
    xmpp_handler_add(w_conn, reply, NULL, "message", NULL, NULL);
}
static void drop(void)
{
    w_eof = 1;
    for (int i = 0; i < 3 && !w_disconnected; i++) w_step();
    vf_check(w_disconnected == 1, "harness: drop");
    w_eof = 0; quota = -1;
    smon = 0; counting = 0; npush = ipush = 0;
    int x = XFER == 3 ? (int)vf_pick(3) : XFER;
    if (x == 0) return;
    xmpp_sm_state_t *st = NULL;
    if (x == 1) { st = xmpp_conn_get_sm_state(w_conn); vf_check(st != NULL, "no stream-management state to take"); }
    xmpp_conn_release(w_conn);
    w_conn = xmpp_conn_new(w_ctx);
    setup();
    if (x == 1) vf_check(xmpp_conn_set_sm_state(w_conn, st) == XMPP_EOK, "stream-management state refused");
    else vf_check(xmpp_conn_restore_sm_state(w_conn, blob, nblob) == XMPP_EOK, "the blob of the SM callback is refused");
}
static void idle(int n) { for (int i = 0; i < n && !w_disconnected; i++) { w_step(); audit(); } }
#ifndef MID0
#define MID0 0
#endif
static void phase_mid(void)
{
    user_send(); idle(2);
    if (vf_pick(2)) { int k = from + (int)vf_pick((unsigned)(nlg - from + 1)); push[0] = el_at(el(XN_SM, "a"), "h", hstr(base + (uint32_t)k)); npush = 1; ipush = 0; from = k; idle(2); }
}
static void phase_out(int last)
{
    int n = last ? 1 : (int)vf_pick(NSEND + 1);
    for (int i = 0; i < n; i++) user_send();
    idle(2);
    if (PARTIAL && !last) {   /* a transport that takes few bytes: elements complete at different times */
        user_send();
        quota = (int)vf_pick(3) * 25; idle(1); quota = 30; idle(1); quota = -1; idle(2);
    }
    for (int r = 0; r < (last ? 1 : ACKS); r++) {
        int a = last ? 1 : (int)vf_pick(r ? 2 : 3);
        if (a == 1) {        /* a true acknowledgement */
            int k = last ? nlg - (nlg > from) : from + (int)vf_pick((unsigned)(nlg - from + 1));
            push[0] = el_at(el(XN_SM, "a"), "h", hstr(base + (uint32_t)k)); npush = 1; ipush = 0; from = k;
        } else if (a == 2) { /* not a number: acknowledges nothing */
            char *s = w_txt + w_tn; w_tn += 3; s[0] = (char)ND_U8(); s[1] = (char)ND_U8(); s[2] = 0;
            vf_assume(s[0] > 32 && s[0] < 127 && !(s[0] >= '0' && s[0] <= '9') && s[1] > 32 && s[1] < 127 && !(s[1] >= '0' && s[1] <= '9'));
            push[0] = el(XN_SM, "a"); if (vf_pick(2)) el_at(push[0], "h", s); npush = 1; ipush = 0;
        }
        if (a) { idle(2); if (!r) { user_send(); idle(2); } }
    }
}
#ifdef ACKSYM
/* the numbers themselves: any base, any decimal string */
static void ack_sym(void)
{
    for (int i = 0; i < ACKSYM; i++) user_send();
    idle(3);
    push[0] = el_at(el(XN_SM, "a"), "h", hstr((uint32_t)(nlg - ACKSYM))); npush = 1; ipush = 0; from = nlg - ACKSYM; idle(2);
    uint32_t b = ND_U32(), v = 0; uint64_t v64 = 0; int i = 0;
    for (xmpp_send_queue_t *q = w_conn->sm_state->sm_queue.head; q; q = q->next) q->sm_h = b + (uint32_t)i++;
    vf_check(i == ACKSYM, "harness: retained");
    w_conn->sm_state->sm_sent_nr = b + ACKSYM;
    static const char *const pre[] = {"", "", "", "42949672", "21474836", "65", "00"}; static const int nx[] = {1, 2, 3, 2, 2, 3, 1};
    int pk = (int)vf_pick(7), np = (int)strlen(pre[pk]), nd = np + nx[pk]; char *s = w_txt + w_tn; w_tn += 12;
    for (i = 0; i < nd; i++) { uint8_t c = i < np ? (uint8_t)(pre[pk][i] - '0') : ND_U8(); vf_assume(c < 10); s[i] = (char)('0' + c); v64 = v64 * 10 + c; }
    s[nd] = 0;
    v = (uint32_t)v64;
    vf_assume(v64 <= 0xffffffffu && (uint32_t)(v - b) <= ACKSYM);
    int via = (int)vf_pick(3);
    if (via == 0) {
        push[0] = el_at(el(XN_SM, "a"), "h", s); npush = 1; ipush = 0;
        w_step();
        int left = 0; uint32_t want = ACKSYM - (v - b);
        for (xmpp_send_queue_t *q = w_conn->sm_state->sm_queue.head; q; q = q->next) { CHK(4, (int32_t)(q->sm_h - v) >= 0, "a stanza the server counted is still retained"); left++; }
        CHK(4, (uint32_t)left == want, "an acknowledgement released a stanza the server did not count");
    } else { /* the same through <resumed h> / <failed h> */
        int n0 = nlg - ACKSYM, left0;
        drop();
        outcome = via - 1; symh = s; rep_h = n0 + 0; base = 0; from = n0;
        uint32_t k = vf_concretize(v - b);
        rep_k = n0 + (int)k;
        vf_check(w_client() == XMPP_EOK, "harness: connect");
        for (i = 0; i < 14 && !w_connected && !w_disconnected; i++) w_step();
        vf_check(w_connected == 1, "does not connect");
        w_run(4);
        CHK(4, iexp == nexp, "stanzas the server did not get were not re-sent");
        left0 = 0;
        for (xmpp_send_queue_t *q = w_conn->sm_state->sm_queue.head; q; q = q->next) {
            if (via == 1) CHK(4, q->sm_h == v + (uint32_t)left0, "the count of sent stanzas is out of step with the server");
            else CHK(4, q->sm_h == (uint32_t)left0, "the count of sent stanzas is out of step with the server");
            left0++;
        }
        CHK(4, (uint32_t)left0 == (uint32_t)(ACKSYM - (int)k) + 1, "the retained stanzas are not exactly those the server has not acknowledged"); /* + the one sent on connect */
    }
}
#endif
static void phase_in(int last)
{
    int n = 0, lim = last && NIN > 1 ? NIN - 1 : NIN;
    for (int i = 0; i < lim; i++) {
        E *e = NULL;
        switch (vf_pick(last ? 5 : 9)) {
        case 1: e = el_at(el(XN_CLIENT, "message"), "type", "chat"); break;
        case 2: e = el(XN_CLIENT, "presence"); break;
        case 3: e = el_at(el_at(el(XN_CLIENT, "iq"), "type", "get"), "id", "q1"); break;
        case 4: e = el(XN_SM, "r"); break;
        case 5: e = el_at(el(XN_SM, "a"), "h", hstr(base + (uint32_t)nlg)); from = nlg; break;
        case 6: e = el_ch(el_at(el_at(el(XN_CLIENT, "iq"), "type", "result"), "id", "_xmpp_bind1"), el(XN_BIND, "bind")); break;
        case 7: e = el_ch(el_at(el(XN_CLIENT, "message"), "type", "error"), el(XN_SM, "r")); break;
        case 8: e = el_ch(el(XN_CLIENT, "message"), el(XN_CLIENT, "r")); break;
        }
        if (e) push[n++] = e;
    }
    if (last) push[n++] = el(XN_SM, "r");
    npush = n; ipush = 0;
    if (!last && vf_pick(2)) { /* one read per item */ int t = npush; for (npush = 1; npush <= t; npush++) idle(1); npush = t; ipush = t; }
    idle(2);
    CHK(5, na == nr, "an <r/> was not answered by exactly one <a/>");
}
void vf_main(void)
{
    w_init();
    setup();
    w_on_item = on_item; w_on_event = on_event; w_turn = turn; w_more = more; w_on_emit = on_emit; w_on_send = on_send;
    sv.starttls = 0; sv.mech = M_PLAIN; sv.sm = 1; sv.h = NULL;
    base = 0;
    for (int a = 0; a < ATT; a++) {
        resume_asked = enable_seen = 0;
        if (a) { outcome = (int)vf_pick(OUTCOMES); rep_h = base + (uint32_t)from + vf_pick((unsigned)(nlg - from + 1)); sv.sm = outcome != 2; if (outcome == 2) { expect_from(from); base = 0; in_cnt = 0; } }
        vf_check(w_client() == XMPP_EOK, "harness: connect");
        for (int i = 0; i < 14 && !w_connected && !w_disconnected; i++) w_step();
        vf_check(w_connected == 1, "does not connect");
        idle(3);
        if (a) {
            vf_note("outcome", outcome);
            if (outcome != 2) vf_check(resume_asked, "the session that can be resumed is not resumed");
            CHK(4, iexp == nexp, "stanzas the server did not get were not re-sent");
        }
        if (!a || (outcome && outcome != 3 && outcome != 2)) { /* a new logical session */
            uint32_t b = bases[vf_pick(sizeof bases / sizeof bases[0])];
            if (b && (P != 5)) { base = b - (uint32_t)nlg; w_conn->sm_state->sm_sent_nr = b; int i = from; for (xmpp_send_queue_t *q = w_conn->sm_state->sm_queue.head; q; q = q->next) q->sm_h = base + (uint32_t)i++; }
            if (b && P != 5 && XFER >= 2) trigger_sm_callback(w_conn); /* the blob of the counters just set */
            if (b && P == 5) { w_conn->sm_state->sm_handled_nr += b; in_cnt += b; }
        }
        if (a == ATT - 1 && outcome >= 2 && outcome <= 3) break; /* no stream management in the last session: nothing more to judge */
        if (outcome == 2 || outcome == 3) { outcome = 0; vf_reached("end"); return; }
#ifdef ACKSYM
        ack_sym(); vf_reached("end"); return;
#endif
        if (P == 5) phase_in(ATT > 1 && a == ATT - 1); else if (a < ATT - 1 && (a || MID0)) phase_mid(); else phase_out(a == ATT - 1);
        vf_check(w_disconnected == 0, "harness: lost the connection");
        if (a < ATT - 1) drop();
    }
    w_eof = 1; w_run(2);
    w_end();
    vf_leak(w_live == 0, "memory of the queues lost");
    vf_reached("end");
}
