/* logging has no effect on any property here: empty bodies */
#include "common.h"
void strophe_error(const xmpp_ctx_t *ctx, const char *area, const char *fmt, ...) { (void)ctx; (void)area; (void)fmt; }
void strophe_warn(const xmpp_ctx_t *ctx, const char *area, const char *fmt, ...) { (void)ctx; (void)area; (void)fmt; }
void strophe_info(const xmpp_ctx_t *ctx, const char *area, const char *fmt, ...) { (void)ctx; (void)area; (void)fmt; }
void strophe_debug(const xmpp_ctx_t *ctx, const char *area, const char *fmt, ...) { (void)ctx; (void)area; (void)fmt; }
void strophe_debug_verbose(int level, const xmpp_ctx_t *ctx, const char *area, const char *fmt, ...) { (void)level; (void)ctx; (void)area; (void)fmt; }
