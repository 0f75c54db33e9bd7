/* Plain allocator model for leaf harnesses: ctx->mem indirection replaced by malloc
 * (allocation failure is out of scope of every leaf claim). */
#include <stdlib.h>
#include <string.h>
#include "common.h"
int vf_live;  /* live blocks */
void *strophe_alloc(const xmpp_ctx_t *ctx, size_t size) { (void)ctx; void *p = malloc(size); vf_live++; return p; }
void *strophe_realloc(const xmpp_ctx_t *ctx, void *p, size_t size) { (void)ctx; if (!p) vf_live++; return realloc(p, size); }
void strophe_free(const xmpp_ctx_t *ctx, void *p) { (void)ctx; if (p) vf_live--; free(p); }
char *strophe_strndup(const xmpp_ctx_t *ctx, const char *s, size_t len)
{
    size_t l = 0; (void)ctx;
    while (l < len && s[l]) l++;
    char *c = malloc(l + 1); vf_live++;
    for (size_t i = 0; i < l; i++) c[i] = s[i];
    c[l] = 0;
    return c;
}
char *strophe_strdup(const xmpp_ctx_t *ctx, const char *s) { return strophe_strndup(ctx, s, strlen(s)); }
void xmpp_free(const xmpp_ctx_t *ctx, void *p) { strophe_free(ctx, p); }
