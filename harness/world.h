/* A closed world around the real libstrophe sources (conn, auth, event, handler,
 * stanza, parser_expat, sock, compression, ctx, hash, sasl, scram, digests, jid,
 * util, tls.c): models of the socket calls, the clock, the TLS back end, zlib, expat and a
 * server that answers what the client writes.  Everything the client puts on the
 * wire is captured and parsed here.  Included by the property harnesses. */
#ifndef WORLD_H
#define WORLD_H
#include "vf.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <unistd.h>
#include <zlib.h>
#include <expat.h>
#include "strophe.h"
#include "common.h"
#include "parser.h"
#include "resolver.h"

/* ---------------------------------------------------------------- allocator */
static int w_live;          /* blocks obtained from the context allocator and not returned */
#ifdef W_TRACK
static void *w_blk[4096]; static int w_nblk;
static void w_track(void *p) { vf_check(w_nblk < 4096, "harness: block table"); w_blk[w_nblk++] = p; }
static void w_untrack(void *p) { for (int i = w_nblk - 1; i >= 0; i--) if (w_blk[i] == p) { w_blk[i] = w_blk[--w_nblk]; return; } vf_check(0, "block returned to the allocator that did not come from it"); }
#else
#define w_track(p) ((void)0)
#define w_untrack(p) ((void)0)
#endif
static void *w_alloc(size_t n, void *ud) { void *p = malloc(n ? n : 1); (void)ud; w_live++; w_track(p); return p; }
static void w_free(void *p, void *ud) { (void)ud; if (!p) return; w_live--; w_untrack(p); free(p); }
static void *w_realloc(void *p, size_t n, void *ud) { (void)ud; if (!p) return w_alloc(n, ud); w_untrack(p); p = realloc(p, n); w_track(p); return p; }
static const xmpp_mem_t w_mem = {w_alloc, w_free, w_realloc, NULL};
static void w_log(void *ud, xmpp_log_level_t l, const char *area, const char *msg) { (void)ud; (void)l; (void)area; (void)msg;
#ifdef VF_NATIVE
    if (getenv("VF_LOG")) fprintf(stderr, "[%s] %s\n", area, msg);
#endif
}
static const xmpp_log_t w_logger = {w_log, NULL};

/* ---------------------------------------------------------------- clock */
static uint64_t w_sec = 100000; static uint32_t w_ms;     /* may be symbolic */
int vf_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec = (long)w_sec; tv->tv_usec = (long)w_ms * 1000; return 0; }
int vf_usleep(unsigned us) { (void)us; return 0; }

/* ---------------------------------------------------------------- sockets */
#ifndef W_MAXFD
#define W_MAXFD 16
#endif
enum { S_FREE, S_OPEN, S_PENDING, S_CONN, S_FAILED, S_CLOSED };
static int w_fd[W_MAXFD]; static int w_nfd = 3;       /* next descriptor; descriptors are never reused */
static int w_nonblock[W_MAXFD];
static int w_sockerr;                                  /* error of a failed asynchronous connect */
static int (*w_on_connect)(int fd, const struct sockaddr *sa); /* returns 0, or errno */
static int (*w_on_async)(int fd);                     /* outcome of a pending connect: -1 still pending, 0 ok, errno */
static int (*w_on_send)(size_t n);                     /* how many bytes the transport takes; <0: -errno */
static int (*w_on_recv)(void *buf, size_t len);        /* >0 bytes, 0 closed, <0: -errno */
static int (*w_readable)(void);
static int w_connects;
static int w_open_fds(void) { int n = 0; for (int i = 3; i < W_MAXFD; i++) n += w_fd[i] != S_FREE && w_fd[i] != S_CLOSED; return n; }
static int w_isopen(int fd) { return fd >= 3 && fd < W_MAXFD && w_fd[fd] != S_FREE && w_fd[fd] != S_CLOSED; }
static int (*w_on_socket)(void);                       /* nonzero: errno of a failing socket() */
int vf_socket(int d, int t, int p) { if (w_on_socket && (errno = w_on_socket())) return -1; (void)d; (void)t; (void)p; vf_check(w_nfd < W_MAXFD, "harness: too many sockets"); w_fd[w_nfd] = S_OPEN; return w_nfd++; }
int vf_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (!w_isopen(fd)) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return w_nonblock[fd] ? O_NONBLOCK : 0;
    if (cmd == F_SETFL) w_nonblock[fd] = ((int)a & O_NONBLOCK) != 0;
    return 0; }
int vf_setsockopt(int fd, int l, int n, const void *v, socklen_t s) { (void)fd; (void)l; (void)n; (void)v; (void)s; return 0; }
int vf_getsockopt(int fd, int l, int n, void *v, socklen_t *s) { (void)l; (void)s;
    if (n == SO_ERROR) *(int *)v = w_isopen(fd) && w_fd[fd] == S_FAILED ? w_sockerr : 0; return 0; }
int vf_connect(int fd, const struct sockaddr *sa, socklen_t l)
{
    (void)l;
    vf_check(w_isopen(fd), "connect() on a descriptor that is not open");
    int r = w_on_connect ? w_on_connect(fd, sa) : EINPROGRESS;
    w_connects++;
    if (r == 0) { w_fd[fd] = S_CONN; return 0; }
    w_fd[fd] = r == EINPROGRESS ? S_PENDING : S_FAILED;
    errno = r;
    return -1;
}
int vf_getpeername(int fd, struct sockaddr *sa, socklen_t *l) { (void)sa; (void)l;
    if (w_isopen(fd) && w_fd[fd] == S_CONN) return 0;
    errno = ENOTCONN; return -1; }
int vf_close(int fd)
{
    vf_check(w_isopen(fd), "close() of a descriptor that is not open");
    if (w_isopen(fd)) w_fd[fd] = S_CLOSED;
    return 0;
}

/* wire captured from the client; the top bit marks bytes that went through the compressor */
#ifndef W_WIRE
#define W_WIRE 8192
#endif
static unsigned char w_wire[W_WIRE]; static unsigned w_wn, w_wr;   /* written, consumed */
static unsigned w_sec_from = W_WIRE, w_sec_to = W_WIRE;            /* bytes [from,to) went through TLS */
static int w_in_tls, w_tls_up;
#ifdef W_XFORM
static void W_XFORM(const void *b, unsigned n);
#endif
ssize_t vf_send(int fd, const void *b, size_t n, int flags)
{
    (void)flags;
    if (!w_isopen(fd) || w_fd[fd] != S_CONN) { vf_check(0, "send() on a descriptor that is not connected"); errno = EBADF; return -1; }
    int r = w_on_send ? w_on_send(n) : (int)n;
    if (r < 0) { errno = -r; return -1; }
    if ((size_t)r > n) r = (int)n;
#ifdef W_XFORM
    W_XFORM(b, (unsigned)r);
    return r;
#endif
    vf_check(w_wn + r < W_WIRE, "harness: wire buffer");
    memcpy(w_wire + w_wn, b, r);
    if (w_in_tls) { if (w_sec_from == W_WIRE) w_sec_from = w_wn; }
    w_wn += r;
    return r;
}
ssize_t vf_recv(int fd, void *b, size_t n, int flags)
{
    (void)flags;
    if (w_isopen(fd) && w_fd[fd] == S_FAILED) { errno = w_sockerr ? w_sockerr : ECONNREFUSED; return -1; }
    if (!w_isopen(fd) || w_fd[fd] != S_CONN) { vf_check(0, "recv() on a descriptor that is not connected"); errno = EBADF; return -1; }
    int r = w_on_recv(b, n);
    if (r < 0) { errno = -r; return -1; }
    return r;
}
static int w_selects; static int w_on_select_err;
int vf_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int cnt = 0;
    (void)e; (void)tv;
    w_selects++;
    for (int fd = 3; fd < n && fd < W_MAXFD; fd++) {
        int rs = r && FD_ISSET(fd, r), ws = w && FD_ISSET(fd, w);
        if (!rs && !ws) continue;
        vf_check(w_isopen(fd), "select() on a descriptor that is not open");
        if (w_fd[fd] == S_PENDING) {
            int o = w_on_async ? w_on_async(fd) : 0;
            if (o == 0) w_fd[fd] = S_CONN;
            else if (o > 0) { w_fd[fd] = S_FAILED; w_sockerr = o; }
        }
        int ready = w_fd[fd] != S_PENDING;
        if (rs) { if (ready && w_fd[fd] == S_CONN && w_readable && w_readable()) cnt++; else FD_CLR(fd, r); }
        if (ws) { if (ready) cnt++; else FD_CLR(fd, w); }
    }
    return cnt;
}
/* name service: one address per host unless the harness provides its own */
#ifndef W_OWN_DNS
static struct sockaddr_in w_sin; static struct addrinfo w_ai; static int w_ai_live;
int vf_getaddrinfo(const char *h, const char *s, const struct addrinfo *hint, struct addrinfo **res)
{
    (void)h; (void)s; (void)hint;
    memset(&w_sin, 0, sizeof w_sin); memset(&w_ai, 0, sizeof w_ai);
    w_sin.sin_family = AF_INET; w_ai.ai_family = AF_INET; w_ai.ai_socktype = SOCK_STREAM;
    w_ai.ai_addr = (struct sockaddr *)&w_sin; w_ai.ai_addrlen = sizeof w_sin;
    *res = &w_ai; w_ai_live++;
    return 0;
}
void vf_freeaddrinfo(struct addrinfo *a) { vf_check(a == &w_ai && w_ai_live > 0, "freeaddrinfo() of a list that is not live"); w_ai_live--; }
int resolver_srv_lookup(xmpp_ctx_t *ctx, const char *service, const char *proto, const char *domain, resolver_srv_rr_t **srv)
{ (void)ctx; (void)service; (void)proto; (void)domain; *srv = NULL; return XMPP_DOMAIN_NOT_FOUND; }
resolver_srv_rr_t *resolver_srv_rr_new(xmpp_ctx_t *ctx, const char *host, unsigned short port, unsigned short prio, unsigned short weight)
{
    resolver_srv_rr_t *rr = strophe_alloc(ctx, sizeof *rr);
    memset(rr, 0, sizeof *rr);
    rr->port = port; rr->priority = prio; rr->weight = weight;
    if (host) { size_t l = strlen(host); if (l >= sizeof rr->target) l = sizeof rr->target - 1; memcpy(rr->target, host, l); rr->target[l] = 0; }
    return rr;
}
void resolver_srv_free(xmpp_ctx_t *ctx, resolver_srv_rr_t *l) { while (l) { resolver_srv_rr_t *n = l->next; strophe_free(ctx, l); l = n; } }
void resolver_initialize(void) {} void resolver_shutdown(void) {}
#endif
const char *vf_gai_strerror(int e) { (void)e; return "gai"; }
const char *vf_inet_ntop(int af, const void *a, char *d, socklen_t n) { (void)af; (void)a; if (n) d[0] = 0; return d; }

/* ---------------------------------------------------------------- TLS back end */
static int w_tls_live, w_tls_started, w_tls_err, w_tls_pend, w_tls_cb_ok = 1;
#ifdef W_OWN_TLS                       /* the real tls_openssl.c over ossl.h */
#include "ossl.h"
#else
struct _tls { xmpp_conn_t *conn; int up; };
static int (*w_on_tls_new)(void);      /* 0: unavailable */
static int (*w_on_tls_start)(void);    /* 1: handshake succeeded */
void tls_initialize(void) {}
void tls_shutdown(void) {}
tls_t *tls_new(xmpp_conn_t *conn)
{
    if (w_on_tls_new && !w_on_tls_new()) return NULL;
    tls_t *t = strophe_alloc(conn->ctx, sizeof *t);
    t->conn = conn; t->up = 0; w_tls_live++;
    return t;
}
void tls_free(tls_t *t) { vf_check(w_tls_live > 0, "tls_free() without a session"); w_tls_live--; if (t->up) w_tls_up = 0; strophe_free(t->conn->ctx, t); }
int tls_start(tls_t *t) { w_tls_started++; int r = w_on_tls_start ? w_on_tls_start() : 1; t->up = r; w_tls_up = r; w_tls_err = r ? 0 : 1; return r; }
int tls_stop(tls_t *t) { t->up = 0; w_tls_up = 0; return 1; }
int tls_pending(struct conn_interface *i) { (void)i; return w_tls_pend; }
int tls_clear_pending_write(struct conn_interface *i) { (void)i; return 0; }
int tls_error(struct conn_interface *i) { (void)i; return w_tls_err; }
int tls_is_recoverable(struct conn_interface *i, int e) { (void)i; return e == 2 || e == 3; }
int tls_write(struct conn_interface *i, const void *b, size_t n)
{
    vf_check(i->conn->tls != NULL && i->conn->tls->up, "data handed to TLS without an established session");
    w_in_tls = 1;
    int r = (int)vf_send(i->conn->sock, b, n, 0);
    w_in_tls = 0;
    w_tls_err = r < 0 ? (errno == EAGAIN || errno == EINTR ? 3 : 5) : 0;
    return r;
}
int tls_read(struct conn_interface *i, void *b, size_t n)
{
    vf_check(i->conn->tls != NULL && i->conn->tls->up, "TLS read without an established session");
    int r = (int)vf_recv(i->conn->sock, b, n, 0);
    w_tls_err = r > 0 ? 0 : r < 0 && (errno == EAGAIN || errno == EINTR) ? 2 : 6;
    return r;
}
xmpp_tlscert_t *tls_peer_cert(xmpp_conn_t *c) { (void)c; return NULL; }
int tls_set_credentials(tls_t *t, const char *f) { (void)t; (void)f; return -1; }
#ifndef W_OWN_CB
char *tls_id_on_xmppaddr(xmpp_conn_t *c, unsigned n) { (void)c; (void)n; return NULL; }
unsigned tls_id_on_xmppaddr_num(xmpp_conn_t *c) { (void)c; return 0; }
int tls_init_channel_binding(tls_t *t, const char **pre, size_t *n) { (void)t; if (!w_tls_cb_ok) return -1; *pre = "tls-exporter"; *n = 12; return 0; }
const void *tls_get_channel_binding_data(tls_t *t, size_t *n) { (void)t; *n = 32; return "0123456789abcdef0123456789ABCDEF"; }
#endif
#endif

/* ---------------------------------------------------------------- random numbers */
static int w_nonces;
#ifndef W_OWN_RAND
struct _xmpp_rand_t { int n; };
xmpp_rand_t *xmpp_rand_new(xmpp_ctx_t *ctx) { xmpp_rand_t *r = strophe_alloc(ctx, sizeof *r); r->n = 0; return r; }
void xmpp_rand_free(xmpp_ctx_t *ctx, xmpp_rand_t *r) { strophe_free(ctx, r); }
void xmpp_rand_bytes(xmpp_rand_t *r, unsigned char *o, size_t n) { while (n--) *o++ = (unsigned char)(++r->n); }
int xmpp_rand(xmpp_rand_t *r) { return ++r->n; }
void xmpp_rand_nonce(xmpp_rand_t *r, char *o, size_t n) { (void)r; w_nonces++; for (size_t i = 0; i + 1 < n; i++) o[i] = (char)('a' + (i + w_nonces) % 26); if (n) o[n - 1] = 0; }
#endif

/* ---------------------------------------------------------------- zlib: every byte gets its top bit set */
#ifndef W_OWN_ZLIB
static int w_z_live;
static void z_open(z_streamp s) {
#ifdef LEAK
    vf_check(s->zalloc && s->zfree, "a zlib stream does not use the context's allocator");
#endif
    s->state = s->zalloc ? s->zalloc(s->opaque, 1, 16) : malloc(16); w_z_live++; }
static void z_close(z_streamp s) { if (s->state) { if (s->zfree) s->zfree(s->opaque, s->state); else free(s->state); s->state = NULL; w_z_live--; } }
int deflateInit_(z_streamp s, int l, const char *v, int n) { (void)l; (void)v; (void)n; z_open(s); return Z_OK; }
int inflateInit_(z_streamp s, const char *v, int n) { (void)v; (void)n; z_open(s); return Z_OK; }
int deflateEnd(z_streamp s) { z_close(s); return Z_OK; }
int inflateEnd(z_streamp s) { z_close(s); return Z_OK; }
int deflate(z_streamp s, int f) { (void)f; unsigned k = 0;
    while (s->avail_in && s->avail_out) { *s->next_out++ = *s->next_in++ | 0x80; s->avail_in--; s->avail_out--; k++; }
    return k || s->avail_in ? Z_OK : Z_BUF_ERROR; }
int inflate(z_streamp s, int f) { (void)f; unsigned k = 0;
    while (s->avail_in && s->avail_out) { if (!(*s->next_in & 0x80)) return Z_DATA_ERROR; *s->next_out++ = *s->next_in++ & 0x7f; s->avail_in--; s->avail_out--; k++; }
    return k ? Z_OK : Z_BUF_ERROR; }
#endif

/* ---------------------------------------------------------------- expat: an event source fed by the server below */
struct XML_ParserStruct {
    void *ud; XML_StartElementHandler start; XML_EndElementHandler end; XML_CharacterDataHandler chr;
    XML_Memory_Handling_Suite mem; int hasmem; char sep; int inparse, dead, stopped, depth, rooted;
};
static int w_xp_live;
static void (*w_feed)(XML_Parser p, const char *s, int n);  /* emits the events of one chunk */
XML_Parser XML_ParserCreate_MM(const XML_Char *enc, const XML_Memory_Handling_Suite *m, const XML_Char *sep)
{
    (void)enc;
    #ifdef LEAK
    vf_check(m != NULL, "an expat parser does not use the context's allocator");
#endif
    XML_Parser p = m ? m->malloc_fcn(sizeof *p) : malloc(sizeof *p);
    if (!p) return NULL;
    memset(p, 0, sizeof *p);
    if (m) { p->mem = *m; p->hasmem = 1; }
    p->sep = sep ? *sep : 0;
    w_xp_live++;
    return p;
}
XML_Parser XML_ParserCreateNS(const XML_Char *e, XML_Char s) { return XML_ParserCreate_MM(e, NULL, &s); }
void XML_ParserFree(XML_Parser p) { if (!p) return; vf_check(!p->inparse, "expat parser freed from inside its own callback"); w_xp_live--; if (p->hasmem) p->mem.free_fcn(p); else free(p); }
XML_Bool XML_ParserReset(XML_Parser p, const XML_Char *e)
{
    (void)e;
    vf_check(!p->inparse, "expat parser reset from inside its own callback");
    p->ud = NULL; p->start = NULL; p->end = NULL; p->chr = NULL; p->dead = p->stopped = p->depth = p->rooted = 0;
    return XML_TRUE;
}
void XML_SetUserData(XML_Parser p, void *u) { p->ud = u; }
void XML_SetElementHandler(XML_Parser p, XML_StartElementHandler s, XML_EndElementHandler e) { p->start = s; p->end = e; }
void XML_SetStartElementHandler(XML_Parser p, XML_StartElementHandler s) { p->start = s; }
void XML_SetEndElementHandler(XML_Parser p, XML_EndElementHandler e) { p->end = e; }
void XML_SetCharacterDataHandler(XML_Parser p, XML_CharacterDataHandler c) { p->chr = c; }
enum XML_Error XML_GetErrorCode(XML_Parser p) { return p->dead ? XML_ERROR_INVALID_TOKEN : XML_ERROR_NONE; }
const XML_LChar *XML_ErrorString(enum XML_Error e) { (void)e; return "error"; }
enum XML_Status XML_StopParser(XML_Parser p, XML_Bool r) { (void)r; if (p->stopped) return XML_STATUS_ERROR; p->stopped = 1; return XML_STATUS_OK; }
enum XML_Status XML_Parse(XML_Parser p, const char *s, int n, int fin)
{
    (void)fin;
    if (!p) return XML_STATUS_ERROR;
    vf_check(!p->inparse, "expat parser re-entered");
    if (p->dead || p->stopped) return XML_STATUS_ERROR;
    p->inparse = 1;
    w_feed(p, s, n);
    p->inparse = 0;
    return p->dead || p->stopped ? XML_STATUS_ERROR : XML_STATUS_OK;
}
static void x_start(XML_Parser p, const char *ns, const char *name, const char **attrs)
{
    char b[256]; size_t n = 0, i;
    if (p->dead || p->stopped) return;
    if (p->depth == 0 && p->rooted) { p->dead = 1; return; }   /* a second root element */
    if (ns && ns[0]) { for (i = 0; ns[i]; i++) b[n++] = ns[i]; b[n++] = p->sep; }
    for (i = 0; name[i]; i++) b[n++] = name[i];
    b[n] = 0;
    p->depth++; p->rooted = 1;
    if (p->start) p->start(p->ud, b, attrs);
}
static void x_end(XML_Parser p, const char *ns, const char *name)
{
    char b[256]; size_t n = 0, i;
    if (p->dead || p->stopped) return;
    if (p->depth == 0) { p->dead = 1; return; }                /* an end tag without a start tag */
    if (ns && ns[0]) { for (i = 0; ns[i]; i++) b[n++] = ns[i]; b[n++] = p->sep; }
    for (i = 0; name[i]; i++) b[n++] = name[i];
    b[n] = 0;
    p->depth--;
    if (p->end) p->end(p->ud, b);
}
static void x_text(XML_Parser p, const char *t, int n) { if (p->dead || p->stopped) return; if (p->depth == 0) { p->dead = 1; return; } if (p->chr) p->chr(p->ud, t, n); }

/* ---------------------------------------------------------------- elements */
#define XN_STREAM "http://etherx.jabber.org/streams"
#define XN_CLIENT "jabber:client"
#define XN_COMP "jabber:component:accept"
#define XN_TLS "urn:ietf:params:xml:ns:xmpp-tls"
#define XN_SASL "urn:ietf:params:xml:ns:xmpp-sasl"
#define XN_BIND "urn:ietf:params:xml:ns:xmpp-bind"
#define XN_SESS "urn:ietf:params:xml:ns:xmpp-session"
#define XN_SM "urn:xmpp:sm:3"
#define XN_AUTH "jabber:iq:auth"
#define XN_COMPRESS "http://jabber.org/protocol/compress"
#define XN_FCOMPRESS "http://jabber.org/features/compress"
#define XN_STANZAS "urn:ietf:params:xml:ns:xmpp-stanzas"
#define XN_STREAMS_IETF "urn:ietf:params:xml:ns:xmpp-streams"
#define E_ATTR 6
typedef struct el { const char *ns, *name, *text; const char *at[2 * E_ATTR + 1]; int nat; struct el *child, *last, *next, *parent; int secure, compressed, kind; } E;
enum { K_EL, K_OPEN, K_CLOSE };
#ifndef W_NEL
#define W_NEL 220
#endif
static E w_el[W_NEL]; static int w_nel;
static E *el(const char *ns, const char *name)
{
    vf_check(w_nel < W_NEL, "harness: element arena");
    E *e = &w_el[w_nel++];
    memset(e, 0, sizeof *e);
    e->ns = ns; e->name = name;
    return e;
}
static E *el_at(E *e, const char *k, const char *v) { vf_check(e->nat < E_ATTR, "harness: attributes"); e->at[2 * e->nat] = k; e->at[2 * e->nat + 1] = v; e->nat++; e->at[2 * e->nat] = NULL; return e; }
static E *el_tx(E *e, const char *t) { e->text = t; return e; }
static E *el_ch(E *p, E *c) { c->parent = p; if (p->last) p->last->next = c; else p->child = c; p->last = c; return p; }
static const char *el_get(const E *e, const char *k) { for (int i = 0; i < e->nat; i++) if (!strcmp(e->at[2 * i], k)) return e->at[2 * i + 1]; return NULL; }
static E *el_find(E *e, const char *name) { for (E *c = e->child; c; c = c->next) if (!strcmp(c->name, name)) return c; return NULL; }
static int el_is(const E *e, const char *name, const char *ns) { return e->kind == K_EL && !strcmp(e->name, name) && (!ns || (e->ns && !strcmp(e->ns, ns))); }
static int el_ns(const E *e, const char *ns) { return e->kind == K_EL && e->ns && !strcmp(e->ns, ns); }
static void (*w_on_emit)(E *e);
static void x_el_(XML_Parser p, E *e)
{
    x_start(p, e->ns, e->name, e->at);
    if (e->text) x_text(p, e->text, (int)strlen(e->text));
    for (E *c = e->child; c; c = c->next) x_el_(p, c);
    x_end(p, e->ns, e->name);
}
static void x_el(XML_Parser p, E *e) { if (w_on_emit && !p->dead && !p->stopped && p->depth == 1) w_on_emit(e); x_el_(p, e); }

/* ---------------------------------------------------------------- parsing what the client wrote */
static char w_txt[W_WIRE]; static unsigned w_tn;
#ifndef W_MASK
#define W_MASK 0x7f                                         /* compressed bytes carry the top bit */
#endif
static char *t_dup(const unsigned char *s, unsigned n)
{   /* unescapes the five predefined entities */
    char *r = w_txt + w_tn; unsigned o = 0;
    vf_check(w_tn + n + 1 < W_WIRE, "harness: text arena");
    for (unsigned i = 0; i < n; i++) {
        unsigned char c = s[i] & W_MASK;
        if (c == '&') {
            unsigned char d = s[i + 1] & W_MASK;
            if (d == 'l') { c = '<'; i += 3; }
            else if (d == 'g') { c = '>'; i += 3; }
            else if (d == 'q') { c = '"'; i += 5; }
            else if (d == 'a' && (s[i + 2] & W_MASK) == 'm') { i += 4; }
            else if (d == 'a') { c = '\''; i += 5; }
            else if (d == '#') { c = 0; for (i += 2; s[i] != ';'; i++) c = (unsigned char)(c * 10 + (s[i] - '0')); }
        }
        r[o++] = (char)c;
    }
    r[o] = 0;
    w_tn += o + 1;
    return r;
}
#define WC(i) (w_wire[i] & W_MASK)
static const char *w_defns = XN_CLIENT;
/* parses one tag at position p; returns position after it, 0 if incomplete.  *end 1: closing, 2: self-closing */
static unsigned t_tag(unsigned p, E **out, int *end)
{
    unsigned i = p + 1, q;
    *end = 0;
    for (q = i; q < w_wn; q++) { if (WC(q) == '>') break; if (WC(q) == '"' || WC(q) == '\'') { unsigned char d = WC(q); do { q++; if (q >= w_wn) return 0; } while (WC(q) != d); } }
    if (q >= w_wn) return 0;
    if (WC(i) == '/') { *end = 1; i++; }
    unsigned b = i;
    while (WC(i) != ' ' && WC(i) != '>' && WC(i) != '/') i++;
    if (*end) { *out = NULL; return q + 1; }
    E *e = el(NULL, t_dup(w_wire + b, i - b));
    e->secure = b >= w_sec_from && b < w_sec_to; e->compressed = (w_wire[b] & 0x80) != 0;
    for (;;) {
        while (WC(i) == ' ') i++;
        if (WC(i) == '/') { *end = 2; break; }
        if (WC(i) == '>') break;
        b = i;
        while (WC(i) != '=') i++;
        char *k = t_dup(w_wire + b, i - b);
        unsigned char d = WC(++i);
        b = ++i;
        while (WC(i) != d) i++;
        char *v = t_dup(w_wire + b, i - b);
        i++;
        if (!strcmp(k, "xmlns")) e->ns = v; else el_at(e, k, v);
    }
    *out = e;
    return q + 1;
}
/* next complete top-level item the client wrote, or NULL */
static E *w_next(void)
{
    unsigned p = w_wr; int end;
    while (p < w_wn && (WC(p) == ' ' || WC(p) == '\n')) p++;
    if (p >= w_wn) return NULL;
    if (WC(p) != '<') { vf_check(0, "client wrote character data outside an element"); return NULL; }
    int se = w_nel; unsigned st = w_tn; E *e;
    if (p + 1 < w_wn && WC(p + 1) == '?') {
        while (p < w_wn && WC(p) != '>') p++;
        if (p >= w_wn) return NULL;
        w_wr = p + 1;
        return w_next();
    }
    unsigned q = t_tag(p, &e, &end);
    if (!q) return NULL;
    if (end == 1) { E *c = el(NULL, "stream:stream"); c->kind = K_CLOSE; c->secure = p >= w_sec_from && p < w_sec_to; c->compressed = (w_wire[p] & 0x80) != 0; w_wr = q; return c; }
    if (!strcmp(e->name, "stream:stream")) { e->kind = K_OPEN; w_wr = q; return e; }
    if (!e->ns) e->ns = w_defns;
    E *cur = e;
    while (cur && end != 2) {
        unsigned b = q;
        while (q < w_wn && WC(q) != '<') q++;
        if (q >= w_wn) { w_nel = se; w_tn = st; return NULL; }
        if (q > b) cur->text = t_dup(w_wire + b, q - b);
        E *c;
        q = t_tag(q, &c, &end);
        if (!q) { w_nel = se; w_tn = st; return NULL; }
        if (end == 1) { cur = cur->parent; end = 0; if (!cur) break; continue; }
        if (!c->ns) c->ns = cur->ns;
        el_ch(cur, c);
        if (end == 0) cur = c; else end = 0;
    }
    w_wr = q;
    return e;
}

/* ---------------------------------------------------------------- the user */
enum { EV_CONNECT = 1, EV_DISCONNECT, EV_RAW };
static xmpp_ctx_t *w_ctx; static xmpp_conn_t *w_conn;
static int w_ev[16], w_everr[16], w_nev;
static int w_connected, w_disconnected;          /* notifications for the current attempt */
static int w_se_type = -1; static const char *w_se_text; static int w_se_null = 1;
static void (*w_on_event)(xmpp_conn_event_t e, int error, xmpp_stream_error_t *se);
static void w_handler(xmpp_conn_t *c, xmpp_conn_event_t e, int error, xmpp_stream_error_t *se, void *ud)
{
    (void)c; (void)ud;
    if (w_nev < 16) { w_ev[w_nev] = e == XMPP_CONN_CONNECT ? EV_CONNECT : e == XMPP_CONN_RAW_CONNECT ? EV_RAW : EV_DISCONNECT; w_everr[w_nev] = error; w_nev++; }
    if (e == XMPP_CONN_CONNECT || e == XMPP_CONN_RAW_CONNECT) w_connected++;
    if (e == XMPP_CONN_DISCONNECT) w_disconnected++;
    if (w_on_event) w_on_event(e, error, se);
}

/* ---------------------------------------------------------------- the server */
static struct {
    int starttls, mech, zlib, bind, session, sm;             /* what it offers */
    int plain_after_tls;
    int resume_fail; const char *h;                          /* answers to <resume/> */
} sv = {1, 0, 0, 1, 0, 0, 0, 0, "0"};
enum { M_PLAIN = 1, M_DIGEST = 2, M_SCRAM1 = 4, M_ANON = 8, M_EXT = 16, M_SCRAM256 = 32, M_SCRAM512 = 64, M_SCRAM1P = 128, M_SCRAM256P = 256, M_SCRAM512P = 512 };
static const char *const w_mech[] = {"PLAIN", "DIGEST-MD5", "SCRAM-SHA-1", "ANONYMOUS", "EXTERNAL", "SCRAM-SHA-256", "SCRAM-SHA-512", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"};
static struct { int authed, zipped, bound, smon, feats; int depth; } ss;  /* what happened so far on this connection */
#ifndef W_Q
#define W_Q 96
#endif
static E *w_q[W_Q]; static int w_qh, w_qt;                    /* client items not yet answered */
static void (*w_on_item)(E *e);                              /* monitor: every item the client wrote */
static void (*w_on_feat)(void);
static void w_poll(void)
{
    E *e;
    while ((e = w_next())) {
        if (w_on_item) w_on_item(e);
        vf_check(w_qt < W_Q, "harness: item queue");
        w_q[w_qt++] = e;
    }
}
/* base64 of what SCRAM needs: nonce of the first attempt extended by "XYZ" */
static char w_b64buf[256];
static char *w_b64(const char *s)
{
    static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    unsigned n = (unsigned)strlen(s), o = 0;
    for (unsigned i = 0; i < n; i += 3) {
        unsigned a = (unsigned char)s[i], b = i + 1 < n ? (unsigned char)s[i + 1] : 0, c = i + 2 < n ? (unsigned char)s[i + 2] : 0;
        w_b64buf[o++] = T[a >> 2]; w_b64buf[o++] = T[(a & 3) << 4 | b >> 4];
        w_b64buf[o++] = i + 1 < n ? T[(b & 15) << 2 | c >> 6] : '='; w_b64buf[o++] = i + 2 < n ? T[c & 63] : '=';
    }
    w_b64buf[o] = 0;
    return w_b64buf;
}
static const char *w_scram_challenge(void)
{
    char b[128]; unsigned o = 0;
    const char *suf = "XYZ,s=QSXCR+Q6sek8bf92,i=1";
    b[o++] = 'r'; b[o++] = '=';
    for (int i = 0; i < 32; i++) b[o++] = (char)('a' + (i + w_nonces) % 26);
    for (unsigned i = 0; suf[i]; i++) b[o++] = suf[i];
    b[o] = 0;
    return w_b64(b);
}
static E *sv_features(void)
{
    E *f = el(XN_STREAM, "features");
    if (!ss.authed) {
        if (sv.starttls && !w_tls_up) el_ch(f, el(XN_TLS, "starttls"));
        if (sv.mech) {
            E *m = el(XN_SASL, "mechanisms");
            for (int i = 0; i < 10; i++) if (sv.mech >> i & 1) el_ch(m, el_tx(el(XN_SASL, "mechanism"), w_mech[i]));
            el_ch(f, m);
        }
    } else {
        if (sv.zlib && !ss.zipped) el_ch(f, el_ch(el(XN_FCOMPRESS, "compression"), el_tx(el(XN_FCOMPRESS, "method"), "zlib")));
        if (sv.bind) el_ch(f, el(XN_BIND, "bind"));
        if (sv.session) { E *s = el(XN_SESS, "session"); if (sv.session == 2) el_ch(s, el(XN_SESS, "optional")); el_ch(f, s); }
        if (sv.sm) el_ch(f, el(XN_SM, "sm"));
    }
    ss.feats++;
    return f;
}
static const char *sv_open_at[] = {"id", "s1", "from", "example.net", "version", "1.0", NULL};
static void sv_open(XML_Parser p) { x_start(p, XN_STREAM, "stream", sv_open_at); }
static void sv_iq_result(XML_Parser p, const char *id, E *child)
{
    E *iq = el_at(el_at(el(XN_CLIENT, "iq"), "type", "result"), "id", id);
    if (child) el_ch(iq, child);
    x_el(p, iq);
}
static const char *w_bound = "user@example.net/r";
/* the answer of a conforming server to the oldest unanswered client item; 0 if there is none */
static int sv_conform(XML_Parser p)
{
    while (w_qh < w_qt) {
        E *e = w_q[w_qh++];
        if (e->kind == K_OPEN) {
            sv_open(p);
            if (el_get(e, "version") && strcmp(e->ns ? e->ns : "", XN_COMP)) x_el(p, sv_features());
            return 1;
        }
        if (e->kind == K_CLOSE) { x_end(p, XN_STREAM, "stream"); return 1; }
        if (el_is(e, "starttls", XN_TLS)) { x_el(p, el(XN_TLS, "proceed")); return 1; }
        if (el_is(e, "auth", XN_SASL)) {
            const char *m = el_get(e, "mechanism");
            if (m && !strncmp(m, "SCRAM", 5)) { x_el(p, el_tx(el(XN_SASL, "challenge"), w_scram_challenge())); return 1; }
            if (m && !strcmp(m, "DIGEST-MD5")) { ss.feats |= 0x100; x_el(p, el_tx(el(XN_SASL, "challenge"), w_b64("realm=\"r\",nonce=\"n\",qop=\"auth\",charset=utf-8,algorithm=md5-sess"))); return 1; }
            ss.authed = 1;
            x_el(p, el(XN_SASL, "success"));
            return 1;
        }
        if (el_is(e, "response", XN_SASL)) {
            if (ss.feats & 0x100) { ss.feats &= ~0x100; x_el(p, el_tx(el(XN_SASL, "challenge"), w_b64("rspauth=ea40f60335c427b5527b84dbabcdfffd"))); return 1; }
            ss.authed = 1;
            x_el(p, el(XN_SASL, "success"));
            return 1;
        }
        if (el_is(e, "compress", XN_COMPRESS)) { ss.zipped = 1; x_el(p, el(XN_COMPRESS, "compressed")); return 1; }
        if (el_is(e, "iq", NULL) && el_find(e, "bind")) {
            ss.bound = 1;
            sv_iq_result(p, el_get(e, "id"), el_ch(el(XN_BIND, "bind"), el_tx(el(XN_BIND, "jid"), w_bound)));
            return 1;
        }
        if (el_is(e, "iq", NULL) && el_find(e, "session")) { sv_iq_result(p, el_get(e, "id"), NULL); return 1; }
        if (el_is(e, "iq", NULL) && el_find(e, "query")) { ss.authed = 1; sv_iq_result(p, el_get(e, "id"), NULL); return 1; }
        if (el_is(e, "enable", XN_SM)) { ss.smon = 1; x_el(p, el_at(el_at(el(XN_SM, "enabled"), "id", "sm1"), "resume", "true")); return 1; }
        if (el_is(e, "resume", XN_SM)) {
            if (sv.resume_fail) { E *f = el_ch(el(XN_SM, "failed"), el(XN_STANZAS, "item-not-found")); if (sv.h) el_at(f, "h", sv.h); x_el(p, f); return 1; }
            ss.smon = 1;
            x_el(p, el_at(el_at(el(XN_SM, "resumed"), "previd", el_get(e, "previd")), "h", sv.h)); return 1;
        }
        if (el_is(e, "handshake", NULL)) { ss.authed = 1; x_el(p, el(XN_COMP, "handshake")); return 1; }
    }
    return 0;
}
static int w_eof;                                     /* the server closes the TCP connection now */
static int (*w_turn)(XML_Parser p);                   /* one server turn; default: conforming answer */
static int (*w_more)(void);                           /* server has something to say although nothing is pending */
static void w_feed_default(XML_Parser p, const char *s, int n)
{
    for (int i = 0; i < n; i++) if (s[i] != 'x') { p->dead = 1; return; } /* compressed bytes reached the XML parser */
    if (w_turn) w_turn(p); else sv_conform(p);
}
static int w_zip_active(void) { return ss.zipped && w_wn && (w_wire[w_wn - 1] & 0x80); }
static int w_recv_default(void *b, size_t n) { if (w_eof) return 0; if (!n) return 0; *(char *)b = w_zip_active() ? 'x' | 0x80 : 'x'; return 1; }
static int w_readable_default(void) { w_poll(); return w_eof || w_qh < w_qt || (w_more && w_more()); }
static const char *w_jid = "user@example.net/r", *w_pass = "pencil";
static void w_init(void)
{
    w_feed = w_feed_default; w_on_recv = w_recv_default; w_readable = w_readable_default;
#if defined(W_LOG) || defined(VF_NATIVE)
    w_ctx = xmpp_ctx_new(&w_mem, &w_logger);
#else
    w_ctx = xmpp_ctx_new(&w_mem, NULL);
#endif
    w_conn = xmpp_conn_new(w_ctx);
    if (w_jid) xmpp_conn_set_jid(w_conn, w_jid);
    if (w_pass) xmpp_conn_set_pass(w_conn, w_pass);
}
static void w_new_attempt(void) { memset(&ss, 0, sizeof ss); w_qh = w_qt = 0; w_nel = 0; w_tn = 0; w_wn = w_wr = 0; w_sec_from = w_sec_to = W_WIRE; w_eof = 0; w_connected = w_disconnected = 0; w_tls_started = 0; }
static int w_client(void) { w_new_attempt(); return xmpp_connect_client(w_conn, "h", 5222, w_handler, NULL); }
static void w_step(void) { xmpp_run_once(w_ctx, 1); w_poll(); }
static void w_run(int n) { for (int i = 0; i < n; i++) w_step(); }
static void w_end(void)
{
    xmpp_conn_release(w_conn);
    xmpp_ctx_free(w_ctx);
}
#ifdef LEAK /* C12: only what concerns ownership is judged; the rest belongs to the harness' own property */
/* what the library would get if it went round the context's allocator */
void *lib_malloc(size_t n) { (void)n; vf_check(0, "the library allocates behind the context's allocator"); return NULL; }
void *lib_calloc(size_t k, size_t n) { (void)k; (void)n; vf_check(0, "the library allocates behind the context's allocator"); return NULL; }
void *lib_realloc(void *p, size_t n) { (void)p; (void)n; vf_check(0, "the library allocates behind the context's allocator"); return NULL; }
char *lib_strdup(const char *s) { (void)s; vf_check(0, "the library allocates behind the context's allocator"); return NULL; }
char *lib_strndup(const char *s, size_t n) { (void)s; (void)n; vf_check(0, "the library allocates behind the context's allocator"); return NULL; }
void lib_free(void *p) { (void)p; vf_check(0, "the library frees behind the context's allocator"); }
#define vf_leak(c, m) (vf_check)((c), (m))
#undef vf_check
#define vf_check(c, m) ((void)(c))
#else
#define vf_leak(c, m) ((void)(c))
#endif
#endif
