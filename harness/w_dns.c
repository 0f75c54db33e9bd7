/* C14: which endpoints are tried, in which order, and when failure is reported.
 * The real resolver decodes an answer built from symbolic priorities and weights; getaddrinfo and
 * connect are scripted: every target has 0..MAXA addresses (0: the lookup fails), every attempt is
 * refused at once, refused later, never answered, answered slowly, or accepted. */
#define W_OWN_DNS
#define W_MAXFD 40
#include "world.h"
#ifndef NT
#define NT 2
#endif
#ifndef MAXA
#define MAXA 2
#endif
#ifndef OUTS
#define OUTS 7
#endif
#ifndef MODE
#define MODE 0       /* 0 SRV; 1 explicit endpoint, legacy SSL, component, raw */
#endif
#ifndef CYCLES
#define CYCLES 1
#endif
static int nt, found, prio[8], weight[8], lookups;
static int na[8], tried[8], cur_t = -1;                  /* addresses per target; how many were tried */
static int resolved[8];
static struct addrinfo ai[8][4]; static struct sockaddr_in sin_[8][4]; static int ai_live;
static const char *want_host; static int want_port = 5222;
static const int ports[] = {5222, 80, 5269, 443, 65535};
static int outc[W_MAXFD], cur_fd = -1, accepted_fd = -1, sock_fail; static uint64_t since[W_MAXFD];
static int all_refused;
int vf_res_query(const char *n, int c, int t, unsigned char *b, int max)
{
    vf_check(MODE == 0, "SRV lookup although the endpoint was given");
    vf_check(!strcmp(n, "_xmpp-client._tcp.example.net") && c == 1 && t == 33, "wrong SRV query");
    lookups++;
    if (!found) { switch (vf_pick(2)) { case 0: return -1; default: memset(b, 0, 11); return 11; } }
    unsigned o = 0;
    vf_check(max >= 512, "harness: answer buffer");
    memset(b, 0, 12); b[2] = 0x81; b[3] = 0x80; b[7] = (unsigned char)nt; o = 12;
    for (int i = 0; i < nt; i++) {
        static const unsigned char h[] = {0, 0, 33, 0, 1, 0, 0, 0, 60, 0, 10};
        memcpy(b + o, h, sizeof h); o += sizeof h;
        b[o++] = (unsigned char)(prio[i] >> 8); b[o++] = (unsigned char)prio[i]; b[o++] = (unsigned char)(weight[i] >> 8); b[o++] = (unsigned char)weight[i];
        b[o++] = (unsigned char)(ports[i] >> 8); b[o++] = (unsigned char)ports[i];
        b[o++] = 2; b[o++] = 't'; b[o++] = (unsigned char)('0' + i); b[o++] = 0;
    }
    return (int)o;
}
int vf_getaddrinfo(const char *h, const char *s, const struct addrinfo *hint, struct addrinfo **res)
{
    int t = 0, port = 0;
    for (const char *p = s; *p; p++) port = port * 10 + (*p - '0');
    vf_check(hint && hint->ai_socktype == SOCK_STREAM && hint->ai_family == AF_UNSPEC, "hints");
    if (MODE == 0 && found && nt) {
        vf_check(h[0] == 't' && h[1] >= '0' && h[1] < '0' + nt && !h[2], "an address was looked up for a host that is no target");
        t = h[1] - '0';
        vf_check(port == ports[t], "wrong port");
    } else { vf_check(!strcmp(h, want_host), "wrong host"); vf_check(port == want_port, "wrong port"); }
    resolved[t] = 1;
    if (na[t] == 0) { *res = (struct addrinfo *)0; return EAI_NONAME; }
    for (int i = 0; i < na[t]; i++) {
        memset(&ai[t][i], 0, sizeof ai[t][i]); memset(&sin_[t][i], 0, sizeof sin_[t][i]);
        sin_[t][i].sin_family = AF_INET; sin_[t][i].sin_port = htons((uint16_t)port); sin_[t][i].sin_addr.s_addr = (uint32_t)(t * 16 + i);
        ai[t][i].ai_family = AF_INET; ai[t][i].ai_socktype = SOCK_STREAM; ai[t][i].ai_addr = (struct sockaddr *)&sin_[t][i]; ai[t][i].ai_addrlen = sizeof sin_[t][i];
        ai[t][i].ai_next = i + 1 < na[t] ? &ai[t][i + 1] : NULL;
    }
    *res = &ai[t][0]; ai_live++;
    return 0;
}
void vf_freeaddrinfo(struct addrinfo *a) { vf_check(a != NULL && ai_live > 0, "freeaddrinfo() of a list that is not live"); ai_live--; }
static int better(int a, int b) { return prio[a] < prio[b] || (prio[a] == prio[b] && weight[a] > weight[b]); }
static uint64_t now(void) { return w_sec * 1000 + w_ms; }
static int on_connect(int fd, const struct sockaddr *sa)
{
    const struct sockaddr_in *si = (const struct sockaddr_in *)sa;
    int t = (int)si->sin_addr.s_addr / 16, a = (int)si->sin_addr.s_addr % 16;
    vf_check(accepted_fd < 0, "another endpoint is tried although one accepted");
    vf_check(t < nt && a < na[t], "harness: address");
    vf_check(a == tried[t], "the addresses of a target are not tried in order");
    tried[t]++;
    if (t != cur_t) {
        if (cur_t >= 0) vf_check(tried[cur_t] == na[cur_t], "the next target is tried before all addresses of the current one");
        for (int i = 0; i < nt; i++) if (i != t && tried[i] < na[i]) vf_check(!better(i, t), "targets are not tried in ascending priority, heavier weight first");
        for (int i = 0; i < nt; i++) if (i != t && tried[i]) vf_check(!better(t, i), "targets are not tried in ascending priority, heavier weight first");
        cur_t = t;
    }
    cur_fd = fd;
    int o = all_refused ? 0 : (int)vf_pick(OUTS);
    outc[fd] = o; since[fd] = now();
    switch (o) {
    case 0: return ECONNREFUSED;
    case 3: accepted_fd = fd; return EINPROGRESS;
    case 4: accepted_fd = fd; return EINPROGRESS;            /* slowly */
    case 5: accepted_fd = fd; return 0;
    case 6: return ENETUNREACH;
    }
    return EINPROGRESS;
}
#ifndef SOCKF
#define SOCKF 0
#endif
/* the platform has no socket for this address (no SYMPRIO here: the order is known) */
static int on_socket(void)
{
    if (!SOCKF || vf_pick(2) == 0) return 0;
    int t = cur_t >= 0 && tried[cur_t] < na[cur_t] ? cur_t : -1;
    if (t < 0) for (int i = 0; i < nt; i++) if (tried[i] < na[i] && (t < 0 || better(i, t))) t = i;
    vf_check(t >= 0, "a socket is created although no candidate is left");
    if (t >= 0) { tried[t]++; cur_t = t; }
    return EAFNOSUPPORT;
}
static int on_async(int fd)
{
    switch (outc[fd]) {
    case 1: return EHOSTUNREACH;
    case 2: return -1;
    case 4: return now() - since[fd] >= 4000 ? 0 : -1;
    }
    return 0;
}
static int left(void) { for (int i = 0; i < nt; i++) if (tried[i] < na[i] || (!na[i] && !resolved[i])) return 1; return 0; }
static void on_event(xmpp_conn_event_t ev, int error, xmpp_stream_error_t *se)
{
    (void)se; (void)error;
    if (ev == XMPP_CONN_DISCONNECT && accepted_fd < 0) vf_check(!left(), "failure reported although candidates are left");
}
static int cpt;
static void attempt(int (*go)(void))
{
    memset(tried, 0, sizeof tried); memset(resolved, 0, sizeof resolved); cur_t = cur_fd = accepted_fd = -1;
    w_new_attempt();
    int rc = go();
    if (rc != XMPP_EOK) { vf_check(accepted_fd < 0 && !left(), "failure reported although candidates are left"); vf_check(!w_disconnected && w_open_fds() == 0, "descriptor left open"); vf_check(xmpp_conn_is_disconnected(w_conn), "state"); vf_reached("refused"); return; }
    vf_check(cur_fd >= 0, "success reported without any attempt");
    for (int i = 0; i < 40 && !w_disconnected; i++) {
        if (accepted_fd >= 0 && w_wn) break;
        if (cur_fd >= 0 && outc[cur_fd] == 2) w_sec += 3;
        if (cur_fd >= 0 && outc[cur_fd] == 4) w_sec += 2;
        xmpp_run_once(w_ctx, 1);
    }
    if (accepted_fd >= 0) {
        vf_check(!w_disconnected, "gave up although an endpoint accepts");
        vf_check(w_wn > 0 && w_conn->sock == accepted_fd && w_open_fds() == 1, "the endpoint that accepted is not used");
        for (int i = 0; i < 12 && !w_connected; i++) w_step();
        vf_check(w_connected == 1, "not connected through the endpoint that accepted");
        vf_reached("accepted");
        w_eof = 1; w_run(2);
        vf_check(w_disconnected == 1, "harness: disconnect");
        w_eof = 0;
    } else { vf_check(w_disconnected == 1 && !left(), "failure not reported after all candidates were tried"); vf_check(w_open_fds() == 0, "descriptor left open"); vf_reached("failed"); }
}
static int go_srv(void)                                     /* the port is for the case that there is no SRV record */
{
    int p = vf_pick(2) ? 0 : found ? 5222 : 6000;
    want_port = p ? p : 5222;
    return xmpp_connect_client(w_conn, NULL, (unsigned short)p, w_handler, NULL);
}
static const char *e_host; static int e_port, e_mode;
static int go_ex(void)
{
    if (e_mode == 2) return xmpp_connect_component(w_conn, e_host, (unsigned short)e_port, w_handler, NULL);
    if (e_mode == 3) { int r = xmpp_connect_raw(w_conn, e_host, (unsigned short)e_port, w_handler, NULL); return r; }
    return xmpp_connect_client(w_conn, e_host, (unsigned short)e_port, w_handler, NULL);
}
static int turn(XML_Parser p)
{
    if (e_mode == 2 && w_qh < w_qt && w_q[w_qh]->kind == K_OPEN) { w_qh++; sv_open(p); return 1; }
    return sv_conform(p);
}
static void script(int i) { na[i] = MAXA ? (int)vf_pick(MAXA + 1) : 1; }
void vf_main(void)
{
    w_init();
    w_on_connect = on_connect; w_on_socket = on_socket; w_on_async = on_async; w_on_event = on_event; w_turn = turn;
    sv.starttls = 0; sv.mech = M_PLAIN;
    want_host = "example.net";
    if (MODE == 0) {
        found = (int)vf_pick(3) != 0; nt = (int)vf_pick(NT + 1);
        if (!found || !nt) { nt = 1; found = 0; }
        for (int i = 0; i < nt; i++) {
            script(i);
#ifdef SYMPRIO
            prio[i] = ND_U16(); weight[i] = ND_U16();
#else
            prio[i] = nt - i; weight[i] = i; /* reverse order of the answer */
#endif
        }
        all_refused = OUTS == 1;
        for (int c = 0; c < CYCLES; c++) attempt(go_srv);
        vf_check(!found || lookups >= 1, "no SRV lookup");
    } else {
        nt = 1; script(0);
        e_mode = (int)vf_pick(4);                          /* host given, legacy SSL, component, raw */
        e_host = e_mode == 1 && vf_pick(2) ? NULL : "alt.example.org";
        e_port = vf_pick(2) ? 0 : 7777;
        want_host = e_host ? e_host : "example.net";
        want_port = e_port ? e_port : e_mode == 1 ? 5223 : e_mode == 2 ? 5347 : 5222;
        if (e_mode == 1) vf_check(xmpp_conn_set_flags(w_conn, XMPP_CONN_FLAG_LEGACY_SSL) == XMPP_EOK, "flags");
        if (e_mode == 2) xmpp_conn_set_jid(w_conn, "comp.example.net");
        if (e_mode == 3) {                                  /* only the endpoint matters */
            w_new_attempt(); cur_t = cur_fd = accepted_fd = -1;
            int rc = go_ex();
            if (rc != XMPP_EOK) vf_check(accepted_fd < 0 && !left(), "failure reported although candidates are left");
            for (int i = 0; i < 12 && !w_disconnected && !w_connected && rc == XMPP_EOK; i++) { w_sec += 2; xmpp_run_once(w_ctx, 1); }
            if (accepted_fd >= 0) vf_check(w_connected == 1 && w_conn->sock == accepted_fd, "not connected through the endpoint that accepted");
            else if (rc == XMPP_EOK) vf_check(w_disconnected == 1 && !left(), "failure not reported after all candidates were tried");
            w_eof = 1; w_run(2);
        } else attempt(go_ex);
    }
    vf_check(ai_live <= 1, "address lists lost");
    w_end();
    vf_check(ai_live == 0, "address lists lost");
    vf_leak(w_live == 0, "memory lost");
    vf_reached("end");
}
