/* The OpenSSL calls of tls_openssl.c as contracts (OpenSSL 3 manual pages): certificates are
 * records, verification walks a chain in the order X509_verify_cert() does and consults the
 * verify callback, host names are matched as X509_check_host() does under the flags set. */
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509v3.h>
#include <openssl/pkcs12.h>
enum { A_STORE, A_USER, A_NONE, A_SELF };          /* who vouches for the chain */
struct x509_st { int id, refs, time; const char *name; };   /* time: 0 valid, 1 expired, 2 not yet valid */
struct o_param { unsigned hostflags; unsigned long flags; char host[64]; int has_host; };
struct ssl_ctx_st { int mode; SSL_verify_cb cb; int def, user; struct o_param p; int depth, live; };
struct ssl_st { SSL_CTX *ctx; int mode; SSL_verify_cb cb; struct o_param p; void *app; int fd; long result; int up, want, tries; };
struct x509_store_ctx_st { SSL *ssl; X509 *cur; int err, depth; };
struct X509_VERIFY_PARAM_st { int dummy; };
/* the server's identity; chain[0] is the leaf */
static X509 o_chain[2]; static int o_n = 1, o_anchor = A_STORE;
static int o_capath_ok;                            /* the user's CA really is in the configured location */
static int (*o_pick)(int what);                    /* other outcomes: 0 default paths fail, 1 loading fails, 2 transport trouble in the handshake, 3 SSL_set_fd fails */
enum { O_DEFPATH, O_LOAD, O_IO, O_FD, O_NEW };
static void (*o_on_write)(SSL *s); static void (*o_on_result)(int ok);
static int o_ver = TLS1_3_VERSION, o_reused, o_finlen; static unsigned char o_fin[2][64];
static int o_err;                                  /* what SSL_get_error() says about the last call */
static int o_live;
char *vf_getenv(const char *n) { (void)n; return NULL; }
static int o_do(int w) { return o_pick ? o_pick(w) : 0; }
static int o_lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int o_eq(const char *a, const char *b) { while (*a && *b) { if (o_lower(*a) != o_lower(*b)) return 0; a++; b++; } return *a == *b; }
static int o_match(const char *pat, const char *host, unsigned fl)
{
    const char *star = strchr(pat, '*'), *dot = strchr(pat, '.'), *hd = strchr(host, '.');
    unsigned pl, sl, hl;
    if (host[0] == '.') { unsigned a = (unsigned)strlen(pat), b = (unsigned)strlen(host); return a > b && o_eq(pat + a - b, host); }
    if (!star || (fl & X509_CHECK_FLAG_NO_WILDCARDS)) return o_eq(pat, host);
    if (!dot || star > dot || !strchr(dot + 1, '.') || !hd) return 0;
    pl = (unsigned)(star - pat); sl = (unsigned)(dot - star - 1); hl = (unsigned)(hd - host);
    if (pl + sl && (fl & X509_CHECK_FLAG_NO_PARTIAL_WILDCARDS)) return 0;
    if (!o_eq(dot, hd)) { if (!(fl & X509_CHECK_FLAG_MULTI_LABEL_WILDCARDS) || pl + sl) return 0; unsigned a = (unsigned)strlen(dot), b = (unsigned)strlen(host); return b > a && o_eq(host + b - a, dot); }
    if (hl < pl + sl + (pl + sl ? 0 : 1)) return 0;
    for (unsigned i = 0; i < pl; i++) if (o_lower(pat[i]) != o_lower(host[i])) return 0;
    for (unsigned i = 0; i < sl; i++) if (o_lower(star[1 + i]) != o_lower(host[hl - sl + i])) return 0;
    return 1;
}
static int o_ask(struct x509_store_ctx_st *x, int depth, int err)
{
    x->cur = &o_chain[depth]; x->depth = depth;
    if (err) x->err = err;
    return x->ssl->cb ? x->ssl->cb(err == 0, x) : err == 0;
}
static int o_verify(SSL *s)
{
    struct x509_store_ctx_st x = {s, NULL, X509_V_OK, 0};
    int anch = (o_anchor == A_STORE && s->ctx->def) || (o_anchor == A_USER && s->ctx->user), ok = 1;
    if (!anch) ok = o_ask(&x, o_n - 1, o_anchor == A_SELF ? (o_n > 1 ? X509_V_ERR_SELF_SIGNED_CERT_IN_CHAIN : X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT) : X509_V_ERR_UNABLE_TO_GET_ISSUER_CERT_LOCALLY);
    if (ok && s->p.has_host && !o_match(o_chain[0].name, s->p.host, s->p.hostflags)) ok = o_ask(&x, 0, X509_V_ERR_HOSTNAME_MISMATCH);
    if (ok && !anch && o_anchor == A_NONE && o_n == 1) ok = o_ask(&x, 0, X509_V_ERR_UNABLE_TO_VERIFY_LEAF_SIGNATURE);
    for (int d = o_n - 1; ok && d >= 0; d--) {
        if (o_chain[d].time && !(s->p.flags & X509_V_FLAG_NO_CHECK_TIME)) ok = o_ask(&x, d, o_chain[d].time == 1 ? X509_V_ERR_CERT_HAS_EXPIRED : X509_V_ERR_CERT_NOT_YET_VALID);
        if (ok) ok = o_ask(&x, d, 0);
    }
    s->result = x.err;
    return ok;
}
int SSL_connect(SSL *s)
{
    int t;
    vf_check(s->fd >= 0, "handshake without a descriptor");
    if (s->want > 0) { s->want--; o_err = s->want & 1 ? SSL_ERROR_WANT_WRITE : SSL_ERROR_WANT_READ; return -1; }
    w_tls_started++;
    t = o_do(O_IO);
    if (t == 1) { o_err = SSL_ERROR_SYSCALL; s->result = X509_V_OK; if (o_on_result) o_on_result(0); return -1; }
    if (t == 2) { o_err = SSL_ERROR_SSL; s->result = X509_V_OK; if (o_on_result) o_on_result(0); return 0; }
    if (t == 3) { o_err = SSL_ERROR_ZERO_RETURN; s->result = X509_V_OK; if (o_on_result) o_on_result(0); return 0; }
    int ok = o_verify(s);
    if (!ok && s->mode != SSL_VERIFY_NONE) { o_err = SSL_ERROR_SSL; if (o_on_result) o_on_result(0); return -1; }
    if (t == 4) { o_err = SSL_ERROR_SYSCALL; if (o_on_result) o_on_result(0); return -1; } /* the peer goes away after its certificate was checked */
    s->up = 1; w_tls_up = 1; o_err = SSL_ERROR_NONE;
    if (o_on_result) o_on_result(1);
    return 1;
}
int SSL_do_handshake(SSL *s) { return SSL_connect(s); }
void SSL_set_connect_state(SSL *s) { (void)s; }
int SSL_get_error(const SSL *s, int r) { (void)s; return r > 0 ? SSL_ERROR_NONE : o_err; }
int SSL_write(SSL *s, const void *b, int n)
{
    vf_check(s->up, "data handed to TLS without an established session");
    if (o_on_write) o_on_write(s);
    w_in_tls = 1;
    int r = (int)vf_send(s->fd, b, (size_t)n, 0);
    w_in_tls = 0;
    o_err = r < 0 ? (errno == EAGAIN || errno == EINTR ? SSL_ERROR_WANT_WRITE : SSL_ERROR_SYSCALL) : SSL_ERROR_NONE;
    return r < 0 ? -1 : r;
}
int SSL_read(SSL *s, void *b, int n)
{
    vf_check(s->up, "TLS read without an established session");
    int r = (int)vf_recv(s->fd, b, (size_t)n, 0);
    o_err = r > 0 ? SSL_ERROR_NONE : r < 0 && (errno == EAGAIN || errno == EINTR) ? SSL_ERROR_WANT_READ : SSL_ERROR_ZERO_RETURN;
    return r < 0 ? -1 : r;
}
int SSL_shutdown(SSL *s) { s->up = 0; w_tls_up = 0; return 1; }
int SSL_pending(const SSL *s) { (void)s; return w_tls_pend; }
const SSL_METHOD *TLS_client_method(void) { return (const SSL_METHOD *)&o_live; }
const SSL_METHOD *TLS_method(void) { return (const SSL_METHOD *)&o_live; }
SSL_CTX *SSL_CTX_new(const SSL_METHOD *m) { (void)m; if (o_do(O_NEW)) return NULL; SSL_CTX *c = vf_malloc(sizeof *c); memset(c, 0, sizeof *c); c->mode = SSL_VERIFY_NONE; o_live++; return c; }
void SSL_CTX_free(SSL_CTX *c) { if (c) { o_live--; vf_free(c); } }
SSL *SSL_new(SSL_CTX *c) { SSL *s = vf_malloc(sizeof *s); memset(s, 0, sizeof *s); s->ctx = c; s->mode = c->mode; s->cb = c->cb; s->p = c->p; s->fd = -1; s->result = X509_V_OK; s->want = o_do(O_FD + 100); o_live++; return s; }
void SSL_free(SSL *s) { if (s) { if (s->up) w_tls_up = 0; o_live--; vf_free(s); } }
uint64_t SSL_CTX_set_options(SSL_CTX *c, uint64_t o) { (void)c; return o; }
uint64_t SSL_CTX_clear_options(SSL_CTX *c, uint64_t o) { (void)c; return o; }
uint64_t SSL_set_options(SSL *c, uint64_t o) { (void)c; return o; }
long SSL_CTX_ctrl(SSL_CTX *c, int k, long l, void *p) { (void)c; (void)k; (void)p; return l; }
long SSL_ctrl(SSL *c, int k, long l, void *p) { (void)c; (void)k; (void)p; return l ? l : 1; }
void SSL_CTX_set_default_passwd_cb(SSL_CTX *c, pem_password_cb *cb) { (void)c; (void)cb; }
void SSL_CTX_set_default_passwd_cb_userdata(SSL_CTX *c, void *u) { (void)c; (void)u; }
void SSL_CTX_set_client_cert_cb(SSL_CTX *c, int (*cb)(SSL *, X509 **, EVP_PKEY **)) { (void)c; (void)cb; }
void SSL_CTX_set_keylog_callback(SSL_CTX *c, SSL_CTX_keylog_cb_func cb) { (void)c; (void)cb; }
int SSL_CTX_use_certificate_file(SSL_CTX *c, const char *f, int t) { (void)c; (void)f; (void)t; return 1; }
int SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *f, int t) { (void)c; (void)f; (void)t; return 1; }
int SSL_CTX_use_cert_and_key(SSL_CTX *c, X509 *x, EVP_PKEY *k, STACK_OF(X509) *ca, int o) { (void)c; (void)x; (void)k; (void)ca; (void)o; return 1; }
int SSL_CTX_set_default_verify_paths(SSL_CTX *c) { if (o_do(O_DEFPATH)) return 0; c->def = 1; return 1; }
int SSL_CTX_load_verify_locations(SSL_CTX *c, const char *f, const char *p) { if ((!f && !p) || o_do(O_LOAD)) return 0; if ((f && !strcmp(f, "/ca.pem")) || (p && !strcmp(p, "/ca"))) c->user = o_capath_ok; return 1; }
int SSL_CTX_load_verify_file(SSL_CTX *c, const char *f) { return SSL_CTX_load_verify_locations(c, f, NULL); }
int SSL_CTX_load_verify_dir(SSL_CTX *c, const char *p) { return SSL_CTX_load_verify_locations(c, NULL, p); }
void SSL_CTX_set_verify(SSL_CTX *c, int m, SSL_verify_cb cb) { c->mode = m; c->cb = cb; }
void SSL_set_verify(SSL *s, int m, SSL_verify_cb cb) { s->mode = m; if (cb) s->cb = cb; }
int SSL_get_verify_mode(const SSL *s) { return s->mode; }
void SSL_set_verify_depth(SSL *s, int d) { (void)s; (void)d; }
void SSL_CTX_set_verify_depth(SSL_CTX *s, int d) { (void)s; (void)d; }
long SSL_get_verify_result(const SSL *s) { return s->result; }
void SSL_set_verify_result(SSL *s, long r) { s->result = r; }
X509_VERIFY_PARAM *SSL_get0_param(SSL *s) { return (X509_VERIFY_PARAM *)&s->p; }
X509_VERIFY_PARAM *SSL_CTX_get0_param(SSL_CTX *s) { return (X509_VERIFY_PARAM *)&s->p; }
void X509_VERIFY_PARAM_set_hostflags(X509_VERIFY_PARAM *p, unsigned f) { ((struct o_param *)p)->hostflags = f; }
unsigned X509_VERIFY_PARAM_get_hostflags(const X509_VERIFY_PARAM *p) { return ((const struct o_param *)p)->hostflags; }
int X509_VERIFY_PARAM_set_flags(X509_VERIFY_PARAM *p, unsigned long f) { ((struct o_param *)p)->flags |= f; return 1; }
int X509_VERIFY_PARAM_clear_flags(X509_VERIFY_PARAM *p, unsigned long f) { ((struct o_param *)p)->flags &= ~f; return 1; }
void X509_VERIFY_PARAM_set_depth(X509_VERIFY_PARAM *p, int d) { (void)p; (void)d; }
int X509_VERIFY_PARAM_set1_host(X509_VERIFY_PARAM *q, const char *n, size_t l)
{
    struct o_param *p = (struct o_param *)q;
    p->has_host = 0;
    if (!n) return 1;
    if (!l) l = strlen(n);
    if (!l) return 1;
    if (l >= sizeof p->host) return 0;
    memcpy(p->host, n, l); p->host[l] = 0; p->has_host = 1; return 1;
}
int SSL_set1_host(SSL *s, const char *n) { return X509_VERIFY_PARAM_set1_host((X509_VERIFY_PARAM *)&s->p, n, 0); }
void SSL_set_hostflags(SSL *s, unsigned f) { s->p.hostflags = f; }
int SSL_set_fd(SSL *s, int fd) { if (o_do(O_FD)) return 0; s->fd = fd; return 1; }
int SSL_get_ex_data_X509_STORE_CTX_idx(void) { return 0; }
int SSL_set_ex_data(SSL *s, int i, void *d) { (void)i; s->app = d; return 1; }
void *SSL_get_ex_data(const SSL *s, int i) { (void)i; return s->app; }
void *X509_STORE_CTX_get_ex_data(const X509_STORE_CTX *x, int i) { (void)i; return x->ssl; }
X509 *X509_STORE_CTX_get_current_cert(const X509_STORE_CTX *x) { return x->cur; }
X509 *X509_STORE_CTX_get0_cert(const X509_STORE_CTX *x) { (void)x; return &o_chain[0]; }
int X509_STORE_CTX_get_error(const X509_STORE_CTX *x) { return x->err; }
void X509_STORE_CTX_set_error(X509_STORE_CTX *x, int e) { x->err = e; }
int X509_STORE_CTX_get_error_depth(const X509_STORE_CTX *x) { return x->depth; }
const char *X509_verify_cert_error_string(long e) { (void)e; return "certificate error"; }
X509 *SSL_get1_peer_certificate(const SSL *s) { (void)s; o_chain[0].refs++; return &o_chain[0]; }
X509 *SSL_get0_peer_certificate(const SSL *s) { (void)s; return &o_chain[0]; }
void X509_free(X509 *x) { if (x) { vf_check(x->refs > 0, "X509_free() of a certificate that is not owned"); x->refs--; } }
int X509_up_ref(X509 *x) { x->refs++; return 1; }
const char *SSL_get_version(const SSL *s) { (void)s; return "?"; }
int SSL_version(const SSL *s) { (void)s; return o_ver; }
int SSL_session_reused(const SSL *s) { (void)s; return o_reused; }
static size_t o_copy(int k, void *b, size_t n) { memcpy(b, o_fin[k], n < (size_t)o_finlen ? n : (size_t)o_finlen); return (size_t)o_finlen; }
size_t SSL_get_finished(const SSL *s, void *b, size_t n) { (void)s; return o_copy(0, b, n); }
size_t SSL_get_peer_finished(const SSL *s, void *b, size_t n) { (void)s; return o_copy(1, b, n); }
static int (*o_on_export)(unsigned char *o, size_t n, const char *l, size_t ln, const unsigned char *c, size_t cl, int use);
int SSL_export_keying_material(SSL *s, unsigned char *o, size_t n, const char *l, size_t ln, const unsigned char *c, size_t cl, int use) { (void)s; return o_on_export ? o_on_export(o, n, l, ln, c, cl, use) : 0; }
/* certificates as text */
static BUF_MEM o_mem; static char o_txt[8]; static int o_bio;
const BIO_METHOD *BIO_s_mem(void) { return (const BIO_METHOD *)&o_bio; }
BIO *BIO_new(const BIO_METHOD *m) { (void)m; return (BIO *)vf_malloc(1); }
int BIO_free(BIO *b) { if (b) vf_free(b); return 1; }
BIO *BIO_new_file(const char *f, const char *m) { (void)f; (void)m; return NULL; }
long BIO_ctrl(BIO *b, int k, long l, void *p) { (void)b; (void)l; if (k == BIO_C_GET_BUF_MEM_PTR) { o_mem.data = o_txt; o_mem.length = strlen(o_txt); *(BUF_MEM **)p = &o_mem; } return 1; }
int BIO_gets(BIO *b, char *o, int n) { (void)b; if (n < 2) return 0; o[0] = 't'; o[1] = 0; return 1; }
int PEM_write_bio_X509(BIO *b, const X509 *x) { (void)b; o_txt[0] = 'C'; o_txt[1] = (char)('0' + x->id); o_txt[2] = 0; return 1; }
X509 *PEM_read_bio_X509(BIO *b, X509 **x, pem_password_cb *cb, void *u) { (void)b; (void)x; (void)cb; (void)u; return NULL; }
X509_NAME *X509_get_subject_name(const X509 *x) { return (X509_NAME *)(x->id & 1 ? "CN=1" : "CN=0"); }
X509_NAME *X509_get_issuer_name(const X509 *x) { (void)x; return (X509_NAME *)"CN=ca"; }
char *X509_NAME_oneline(const X509_NAME *n, char *b, int l) { (void)b; (void)l; char *r = vf_malloc(16); strcpy(r, (const char *)n); return r; }
void CRYPTO_free(void *p, const char *f, int l) { (void)f; (void)l; vf_free(p); }
int ASN1_TIME_print(BIO *b, const ASN1_TIME *t) { (void)b; (void)t; return 1; }
ASN1_TIME *X509_getm_notBefore(const X509 *x) { (void)x; return (ASN1_TIME *)&o_bio; }
ASN1_TIME *X509_getm_notAfter(const X509 *x) { (void)x; return (ASN1_TIME *)&o_bio; }
const EVP_MD *EVP_sha1(void) { return (const EVP_MD *)&o_bio; }
const EVP_MD *EVP_sha256(void) { return (const EVP_MD *)&o_bio; }
int X509_digest(const X509 *x, const EVP_MD *m, unsigned char *o, unsigned *n) { (void)m; o[0] = (unsigned char)x->id; *n = 1; return 1; }
long X509_get_version(const X509 *x) { (void)x; return 2; }
X509_PUBKEY *X509_get_X509_PUBKEY(const X509 *x) { (void)x; return NULL; }
int X509_PUBKEY_get0_param(ASN1_OBJECT **o, const unsigned char **p, int *n, X509_ALGOR **a, const X509_PUBKEY *k) { (void)p; (void)n; (void)a; (void)k; *o = NULL; return 1; }
void X509_get0_signature(const ASN1_BIT_STRING **s, const X509_ALGOR **a, const X509 *x) { (void)s; (void)x; *a = NULL; }
void X509_ALGOR_get0(const ASN1_OBJECT **o, int *t, const void **v, const X509_ALGOR *a) { (void)t; (void)v; (void)a; *o = NULL; }
int OBJ_obj2nid(const ASN1_OBJECT *o) { (void)o; return NID_undef; }
const char *OBJ_nid2ln(int n) { (void)n; return NULL; }
int OBJ_sn2nid(const char *s) { (void)s; return NID_undef; }
int OBJ_create(const char *a, const char *b, const char *c) { (void)a; (void)b; (void)c; return 4711; }
ASN1_INTEGER *X509_get_serialNumber(X509 *x) { (void)x; return NULL; }
BIGNUM *ASN1_INTEGER_to_BN(const ASN1_INTEGER *a, BIGNUM *b) { (void)a; (void)b; return NULL; }
char *BN_bn2hex(const BIGNUM *b) { (void)b; return NULL; }
void BN_free(BIGNUM *b) { (void)b; }
int X509_get_ext_by_NID(const X509 *x, int n, int l) { (void)x; (void)n; (void)l; return -1; }
X509_EXTENSION *X509_get_ext(const X509 *x, int l) { (void)x; (void)l; return NULL; }
ASN1_OCTET_STRING *X509_EXTENSION_get_data(X509_EXTENSION *e) { (void)e; return NULL; }
const unsigned char *ASN1_STRING_get0_data(const ASN1_STRING *s) { (void)s; return NULL; }
int ASN1_STRING_length(const ASN1_STRING *s) { (void)s; return 0; }
int ASN1_STRING_to_UTF8(unsigned char **o, const ASN1_STRING *s) { (void)o; (void)s; return -1; }
GENERAL_NAMES *d2i_GENERAL_NAMES(GENERAL_NAMES **g, const unsigned char **d, long n) { (void)g; (void)d; (void)n; return NULL; }
void GENERAL_NAMES_free(GENERAL_NAMES *g) { (void)g; }
int GENERAL_NAME_get0_otherName(const GENERAL_NAME *g, ASN1_OBJECT **o, ASN1_TYPE **t) { (void)g; (void)o; (void)t; return 0; }
void *GENERAL_NAME_get0_value(const GENERAL_NAME *g, int *t) { (void)g; (void)t; return NULL; }
int OPENSSL_sk_num(const OPENSSL_STACK *s) { (void)s; return 0; }
void *OPENSSL_sk_value(const OPENSSL_STACK *s, int i) { (void)s; (void)i; return NULL; }
void OPENSSL_sk_pop_free(OPENSSL_STACK *s, void (*f)(void *)) { (void)s; (void)f; }
unsigned long ERR_get_error(void) { return 0; }
unsigned long ERR_peek_error(void) { return 0; }
unsigned long ERR_peek_last_error(void) { return 0; }
void ERR_clear_error(void) {}
const char *ERR_lib_error_string(unsigned long e) { (void)e; return ""; }
const char *ERR_reason_error_string(unsigned long e) { (void)e; return ""; }
int OPENSSL_init_ssl(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { (void)o; (void)s; return 1; }
void EVP_PKEY_free(EVP_PKEY *k) { (void)k; }
int PEM_def_callback(char *b, int n, int w, void *u) { (void)b; (void)n; (void)w; (void)u; return -1; }
int PKCS12_parse(PKCS12 *p, const char *s, EVP_PKEY **k, X509 **c, STACK_OF(X509) **ca) { (void)p; (void)s; (void)k; (void)c; (void)ca; return 0; }
void PKCS12_free(PKCS12 *p) { (void)p; }
PKCS12 *d2i_PKCS12_bio(BIO *b, PKCS12 **p) { (void)b; (void)p; return NULL; }
