/* C20: stream compression is transparent.  zlib is replaced by a small codec that keeps zlib's contract:
 * deflate may hold data back until a flush, stops when the output is full and continues later, and
 * reports Z_BUF_ERROR when nothing can be done; inflate may expand one input byte to many and keeps
 * output that does not fit.  The server decodes what it receives with the same codec.
 * MODE 0 negotiation, 1 outbound, 2 inbound. */
#define W_OWN_ZLIB
#define W_XFORM w_xform
#include "world.h"
#ifndef BUF
#define BUF STROPHE_COMPRESSION_BUFFER_SIZE
#endif
#ifndef MBUF
#define MBUF STROPHE_MESSAGE_BUFFER_SIZE
#endif
#ifndef NACT
#define NACT 3
#endif
#ifndef NTOK
#define NTOK 3
#endif
/* code: 78 01 header, 80..ff literal, 02 n b run of n times b, 00 00 7f 7f flush marker */
#define MARK "\0\0\x7f\x7f"
static int w_z_live, hold;
typedef struct { unsigned char win[64]; unsigned nwin; unsigned char out[512]; unsigned o, n; int hdr, last; } D;
typedef struct { int st; unsigned run; unsigned char b; } I;
static D *w_defl;
static void *zget(z_streamp s, unsigned n) { void *p = s->zalloc ? s->zalloc(s->opaque, 1, n) : malloc(n); if (p) memset(p, 0, n); s->state = p; w_z_live++; return p; }
static void zput(z_streamp s) { if (s->state) { if (s->zfree) s->zfree(s->opaque, s->state); else free(s->state); s->state = NULL; w_z_live--; } }
int deflateInit_(z_streamp s, int l, const char *v, int n) { (void)l; (void)v; (void)n; D *d = zget(s, sizeof *d); d->last = -1; w_defl = d; return Z_OK; }
int inflateInit_(z_streamp s, const char *v, int n) { (void)v; (void)n; zget(s, sizeof(I)); return Z_OK; }
int deflateEnd(z_streamp s) { vf_check(s->state != NULL, "deflateEnd() of a stream that is not open"); zput(s); return Z_OK; }
int inflateEnd(z_streamp s) { vf_check(s->state != NULL, "inflateEnd() of a stream that is not open"); zput(s); return Z_OK; }
static void drain(z_streamp s, D *d)
{
    while (d->o < d->n && s->avail_out) { *s->next_out++ = d->out[d->o++]; s->avail_out--; }
    if (d->o == d->n) d->o = d->n = 0;
}
static void put(D *d, unsigned c) { vf_check(d->n < sizeof d->out, "harness: codec"); d->out[d->n++] = (unsigned char)c; }
static void enc(D *d) { if (!d->hdr) { put(d, 0x78); put(d, 1); d->hdr = 1; } for (unsigned i = 0; i < d->nwin; i++) put(d, d->win[i] | 0x80u); d->nwin = 0; }
int deflate(z_streamp s, int f)
{
    D *d = (D *)s->state;
    vf_check(s->next_out != NULL && (s->avail_in == 0 || s->next_in != NULL), "deflate() arguments");
    if (s->avail_out == 0) return Z_BUF_ERROR;
    int old = d->last, had = d->n != d->o;
    d->last = f;
    if (had) { drain(s, d); if (s->avail_out == 0) { d->last = -1; return Z_OK; } }
    else if (s->avail_in == 0 && f <= old) return Z_BUF_ERROR;
    while (s->avail_in) {
        d->win[d->nwin++] = *s->next_in++; s->avail_in--;
        if (d->nwin >= (hold == 0 ? 1u : hold == 1 ? 64u : 5u)) { enc(d); drain(s, d); if (s->avail_out == 0) { d->last = -1; return Z_OK; } }
    }
    if (f != Z_NO_FLUSH) { enc(d); for (int i = 0; i < 4; i++) put(d, (unsigned char)MARK[i]); drain(s, d); if (s->avail_out == 0) { d->last = -1; return Z_OK; } }
    return Z_OK;
}
/* one input byte; 0 error */
static int dec(I *z, unsigned char c, unsigned char *lit)
{
    *lit = 0;
    switch (z->st) {
    case 0: if (c != 0x78) return 0; z->st = 1; return 1;
    case 1: if (c != 1) return 0; z->st = 2; return 1;
    case 2:
        if (c & 0x80) { *lit = c & 0x7f; z->run = 1; z->b = *lit; return 1; }
        if (c == 2) { z->st = 3; return 1; }
        if (c == 0) { z->st = 5; return 1; }
        return 0;
    case 3: z->run = 0; z->b = c; z->st = 4; return 1;              /* count, kept in b for a moment */
    case 4: z->run = z->b; z->b = c; z->st = 2; return 1;
    case 5: if (c != 0) return 0; z->st = 6; return 1;
    case 6: if (c != 0x7f) return 0; z->st = 7; return 1;
    case 7: if (c != 0x7f) return 0; z->st = 2; return 1;
    }
    return 0;
}
int inflate(z_streamp s, int f)
{
    I *z = (I *)s->state; int k = 0; unsigned char l;
    (void)f;
    vf_check(s->next_out != NULL && (s->avail_in == 0 || s->next_in != NULL), "inflate() arguments");
    for (;;) {
        while (z->run && s->avail_out) { *s->next_out++ = z->b; s->avail_out--; z->run--; k++; }
        if (z->run || !s->avail_in) break;
        if (!dec(z, *s->next_in, &l)) return Z_DATA_ERROR;
        s->next_in++; s->avail_in--; k++;
    }
    return k ? Z_OK : Z_BUF_ERROR;
}
/* ---- what the server receives */
static I srv_in; static unsigned char got[BUF > 1000 ? 32768 : 8192]; static unsigned ngot; static int experiment;
static void w_xform(const void *b, unsigned n)
{
    const unsigned char *p = b; unsigned char l;
    for (unsigned i = 0; i < n; i++) {
        if (!ss.zipped) { vf_check(p[i] >= 0x20 && p[i] < 0x7f, "compressed bytes before the server confirmed compression"); vf_check(w_wn < W_WIRE - 1, "harness: wire"); w_wire[w_wn++] = p[i]; continue; }
        vf_check(dec(&srv_in, p[i], &l), "the server cannot inflate what it received");
        while (srv_in.run) {
            if (experiment) { vf_check(ngot < sizeof got, "harness: got"); got[ngot++] = srv_in.b; }
            else { vf_check(w_wn < W_WIRE - 1, "harness: wire"); w_wire[w_wn++] = srv_in.b | 0x80; }
            srv_in.run--;
        }
    }
}
static int quota = -1;
static int on_send(size_t n) { if (quota < 0) return (int)n; if (quota == 0) return -EAGAIN; int r = (int)n < quota ? (int)n : quota; quota -= r; return r; }
/* ---- what the server sends */
static unsigned char so[1024]; static unsigned so_o, so_n; static int so_hdr;
static void so_put(unsigned c) { vf_check(so_n < sizeof so, "harness: server output"); so[so_n++] = (unsigned char)c; }
static int frag_sym, frag_n;
static int on_recv(void *b, size_t n)
{
    if (w_eof) return 0;
    if (!ss.zipped) { *(char *)b = 'x'; return 1; }
    if (so_o == so_n) {
        if (experiment) return -EAGAIN;
        so_o = so_n = 0;
        if (!so_hdr) { so_put(0x78); so_put(1); so_hdr = 1; }
        so_put('x' | 0x80); for (int i = 0; i < 4; i++) so_put((unsigned char)MARK[i]);
    }
    unsigned av = so_n - so_o, k = (unsigned)n < av ? (unsigned)n : av;
    if (frag_sym && k > 1 && (frag_n++ < 4 || MODE == 0)) { switch (vf_pick(3)) { case 0: k = 1; break; case 1: k = k > 3 ? 3 : 2; break; } }
    memcpy(b, so + so_o, k); so_o += k;
    return (int)k;
}
static int readable(void) { if (experiment) return w_eof || so_o < so_n; w_poll(); return w_eof || so_o < so_n || w_qh < w_qt; }
static unsigned char exp_[BUF > 1000 ? 32768 : 8192]; static unsigned nexp, nfed;
static void feed(XML_Parser p, const char *s, int n)
{
    if (!experiment) { w_feed_default(p, s, n); return; }
    vf_check(ss.zipped, "harness: experiment");
    for (int i = 0; i < n; i++) { vf_check(nfed < nexp && (unsigned char)s[i] == exp_[nfed], "the client parses something else than the server deflated"); nfed++; }
}
static int variant, restart;
static void on_item(E *e)
{
    if (e->kind == K_OPEN && ss.zipped) restart = 1;
    if (e->kind == K_EL && ss.zipped) vf_check(restart, "no stream restart after compression started");
}
static int turn(XML_Parser p)
{
    if (w_qh < w_qt && el_is(w_q[w_qh], "compress", XN_COMPRESS) && variant) {
        w_qh++;
        switch (variant) {
        case 1: x_el(p, el_ch(el(XN_COMPRESS, "failure"), el(XN_COMPRESS, "setup-failed"))); return 1;
        case 2: x_el(p, el(XN_CLIENT, "message")); w_qh--; variant = 0; return 1;
        case 3: x_el(p, el(XN_COMPRESS, "unsupported-method")); return 1;
        case 4: x_el(p, el("urn:other", "compressed")); return 1;
        }
    }
    return sv_conform(p);
}
static void establish(void)
{
    xmpp_conn_set_flags(w_conn, XMPP_CONN_FLAG_ENABLE_COMPRESSION | (vf_pick(2) ? XMPP_CONN_FLAG_COMPRESSION_DONT_RESET : 0));
    sv.starttls = 0; sv.mech = M_PLAIN; sv.zlib = 1;
    vf_check(w_client() == XMPP_EOK, "harness: connect");
    for (int i = 0; i < 60 && !w_connected && !w_disconnected; i++) w_step();
}
static void compare(void)
{
    vf_check(ngot <= nexp, "the server gets more than was sent");
    static unsigned done;
    for (; done < ngot; done++) vf_check(got[done] == exp_[done], "what the server inflates is not the stream the client sent");
}
static void out(void)
{
    static const unsigned sizes[] = {1, BUF - 7, BUF - 3, BUF - 2, BUF - 1, BUF, BUF + 1, 2 * BUF + 3};
    int idle = 0;
    for (int a = 0; a < NACT; a++) {
        if (vf_pick(2)) {
            unsigned n = sizes[vf_pick(sizeof sizes / sizeof sizes[0])];
            static char t[2 * BUF + 8];
            for (unsigned i = 0; i < n; i++) { t[i] = (char)(SYM && (i < 2 || i + 2 > n) ? ND_U8() : 'a' + (nexp + i) % 26); vf_assume((unsigned char)t[i] >= 0x20 && (unsigned char)t[i] < 0x7f); }
            memcpy(exp_ + nexp, t, n); nexp += n;
            xmpp_send_raw(w_conn, t, n);
            idle = 0;
        } else {
            static const int q[] = {-1, 0, 1, 2, 5, BUF - 1, BUF, BUF + 1};
            quota = q[vf_pick(8)];
            int lim = quota >= 0;
            xmpp_run_once(w_ctx, 1);
            compare();
            vf_check(!w_disconnected, "a transient condition of the transport ended the connection");
            if (!lim) { vf_check(ngot == nexp, "not flushed by the end of the loop iteration"); idle = 1; }
            quota = -1;
        }
    }
    (void)idle;
    xmpp_run_once(w_ctx, 1); compare();
    vf_check(ngot == nexp, "not flushed by the end of the loop iteration");
    xmpp_run_once(w_ctx, 1); compare();
    vf_reached("out");
}
static void in(void)
{
    static const unsigned runs[] = {2, MBUF - 1, MBUF, MBUF + 1, 2 * MBUF, 3 * MBUF + 1};
    so_o = so_n = 0;
    for (int i = 0; i < NTOK; i++) {
        int k = (int)vf_pick(4);
        if (k == 0) { unsigned char c = SYM ? ND_U8() : 'k'; vf_assume(c < 0x80); so_put(c | 0x80u); exp_[nexp++] = c; }
        else if (k == 1) { unsigned n = runs[vf_pick(6)]; unsigned char c = SYM ? ND_U8() : 'q'; so_put(2); so_put(n); so_put(c); for (unsigned j = 0; j < n; j++) exp_[nexp++] = c; }
        else if (k == 2) { for (unsigned j = 0; j < BUF + 1; j++) { unsigned char c = (unsigned char)('a' + j % 26); so_put(c | 0x80u); exp_[nexp++] = c; } }
        else for (int j = 0; j < 4; j++) so_put((unsigned char)MARK[j]);
        if (vf_pick(2)) { frag_sym = 1; xmpp_run_once(w_ctx, 1); frag_sym = 0; }
    }
    frag_sym = FRAG;
    for (unsigned i = 0; i < 4 + so_n + nexp / MBUF && (so_o < so_n || nfed < nexp); i++) xmpp_run_once(w_ctx, 1);
    vf_check(so_o == so_n && nfed == nexp, "the client did not parse all the server sent");
    vf_check(!w_disconnected, "the connection ended");
    xmpp_run_once(w_ctx, 1); xmpp_run_once(w_ctx, 1);
    vf_check(!w_disconnected && nfed == nexp, "the connection ended");
    vf_reached("in");
}
void vf_main(void)
{
    w_init();
    w_feed = feed; w_on_recv = on_recv; w_readable = readable; w_on_send = on_send; w_turn = turn; w_on_item = on_item;
    hold = (int)vf_pick(3);
    if (MODE == 0) { variant = (int)vf_pick(5); frag_sym = FRAG; }
    establish();
    if (MODE == 0) { vf_note("connected", w_connected); if (ss.zipped) vf_check(restart, "no stream restart after compression started"); vf_check(ss.zipped ? w_connected == 1 : 1, "negotiation with compression does not complete"); }
    else {
        vf_check(w_connected == 1 && ss.zipped, "harness: not connected");
        w_step();
        frag_sym = 0; experiment = 1;
        if (MODE == 1) out(); else in();
        experiment = 0;
    }
    w_eof = 1; xmpp_run_once(w_ctx, 1); xmpp_run_once(w_ctx, 1);
    vf_check(w_disconnected == 1 || MODE == 0, "harness: disconnect");
    w_end();
    vf_check(w_z_live == 0, "zlib stream not closed");
    vf_leak(w_live == 0, "memory lost");
    vf_reached("end");
}
