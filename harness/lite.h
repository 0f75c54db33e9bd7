/* A context without a network: the real ctx.c/stanza.c/hash.c/util.c/parser_expat.c, nothing else */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <expat.h>
#include "strophe.h"
#include "common.h"
#include "parser.h"
#include "sock.h"
#include "tls.h"
#include "resolver.h"
void sock_initialize(void) {}
void sock_shutdown(void) {}
void tls_initialize(void) {}
void tls_shutdown(void) {}
void resolver_initialize(void) {}
void resolver_shutdown(void) {}
void xmpp_disconnect(xmpp_conn_t *c) { (void)c; }
xmpp_rand_t *xmpp_rand_new(xmpp_ctx_t *ctx) { return strophe_alloc(ctx, 8); }
void xmpp_rand_free(xmpp_ctx_t *ctx, xmpp_rand_t *r) { strophe_free(ctx, r); }
#ifdef gettimeofday
int vf_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec = 0; tv->tv_usec = 0; return 0; }
#endif
static int w_live;
static void *w_blk[2048]; static int w_nblk;
static void w_track(void *p) { vf_check(w_nblk < 2048, "harness: block table"); w_blk[w_nblk++] = p; }
static void w_untrack(void *p) { for (int i = w_nblk - 1; i >= 0; i--) if (w_blk[i] == p) { w_blk[i] = w_blk[--w_nblk]; return; } vf_check(0, "block returned to the allocator that did not come from it"); }
static void *w_alloc(size_t n, void *ud) { void *p = malloc(n ? n : 1); (void)ud; w_live++; w_track(p); return p; }
static void w_free(void *p, void *ud) { (void)ud; if (!p) return; w_live--; w_untrack(p); free(p); }
static void *w_realloc(void *p, size_t n, void *ud) { (void)ud; if (!p) return w_alloc(n, ud); w_untrack(p); p = realloc(p, n); w_track(p); return p; }
static const xmpp_mem_t w_mem = {w_alloc, w_free, w_realloc, NULL};
static void w_nolog(void *ud, xmpp_log_level_t l, const char *a, const char *m) { (void)ud; (void)l; (void)a; (void)m; }
static const xmpp_log_t w_log_ = {w_nolog, NULL};
static xmpp_ctx_t *w_ctx;
static void lite_init(void) { w_ctx = xmpp_ctx_new(&w_mem, &w_log_); vf_check(w_ctx != NULL, "harness: context"); }
#ifdef LEAK /* C12: only what concerns ownership is judged; the rest belongs to the harness' own property */
/* what the library would get if it went round the context's allocator */
void *lib_malloc(size_t n) { (void)n; vf_check(0, "the library allocates behind the context's allocator"); return NULL; }
void *lib_calloc(size_t k, size_t n) { (void)k; (void)n; vf_check(0, "the library allocates behind the context's allocator"); return NULL; }
void *lib_realloc(void *p, size_t n) { (void)p; (void)n; vf_check(0, "the library allocates behind the context's allocator"); return NULL; }
char *lib_strdup(const char *s) { (void)s; vf_check(0, "the library allocates behind the context's allocator"); return NULL; }
char *lib_strndup(const char *s, size_t n) { (void)s; (void)n; vf_check(0, "the library allocates behind the context's allocator"); return NULL; }
void lib_free(void *p) { (void)p; vf_check(0, "the library frees behind the context's allocator"); }
#define vf_leak(c, m) (vf_check)((c), (m))
#undef vf_check
#define vf_check(c, m) ((void)(c))
#else
#define vf_leak(c, m) ((void)(c))
#endif
/* everything the API gave out has come back */
static void lite_end(int balance) { xmpp_ctx_free(w_ctx); if (balance) vf_leak(w_live == 0, "memory was not returned to the context's allocator"); }
