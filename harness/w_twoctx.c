/* C12: two contexts, each with an allocator of its own. ORDER: which parser exists first. */
#include "lite.h"
#include "xmlp.h"
#define XML_ParserCreate_MM xe_ParserCreate_MM
#include "xmlexpat.h"
#undef XML_ParserCreate_MM
static int second_parser;
XML_Parser XML_ParserCreate_MM(const XML_Char *enc, const XML_Memory_Handling_Suite *m, const XML_Char *sep)
{
    if (second_parser) vf_leak(m != NULL, "the expat parser of a second context does not use its context's allocator");
    else vf_leak(m != NULL, "an expat parser does not use the context's allocator");
    return xe_ParserCreate_MM(enc, m, sep);
}
static int live2;
static void *a2(size_t n, void *ud) { (void)ud; uint64_t *p = malloc(n + 8); p[0] = 0x2222; live2++; return p + 1; }
static void f2(void *q, void *ud) { (void)ud; if (!q) return; uint64_t *p = (uint64_t *)q - 1; vf_leak(p[0] == 0x2222, "a block went back to the allocator of another context"); live2--; free(p); }
static void *r2(void *q, size_t n, void *ud) { (void)ud; if (!q) return a2(n, ud); uint64_t *p = (uint64_t *)q - 1; vf_leak(p[0] == 0x2222, "a block went back to the allocator of another context"); p = realloc(p, n + 8); return p + 1; }
static const xmpp_mem_t m2 = {a2, f2, r2, NULL};
void vf_main(void)
{
    xmpp_ctx_t *c2; xmpp_stanza_t *s1 = NULL, *s2, *t; char *b; size_t l;
    lite_init();
    c2 = xmpp_ctx_new(&m2, &w_log_);
    int first = (int)vf_pick(2);
    if (first) { s1 = xmpp_stanza_new_from_string(w_ctx, "<a b='1'><c>t</c></a>"); second_parser = 1; }
    s2 = PARSE2 ? xmpp_stanza_new_from_string(c2, "<a b='1'><c>t</c></a>") : xmpp_message_new(c2, "chat", "a@b", "1");
    if (PARSE2 && !first) second_parser = 1;
    if (!PARSE2 && !first) s1 = xmpp_stanza_new_from_string(w_ctx, "<a b='1'><c>t</c></a>");
    t = xmpp_stanza_copy(s2); xmpp_stanza_set_id(t, "9");
    if (xmpp_stanza_to_text(t, &b, &l) == XMPP_EOK) xmpp_free(c2, b);
    if (s1 && xmpp_stanza_to_text(s1, &b, &l) == XMPP_EOK) xmpp_free(w_ctx, b);
    if (vf_pick(2)) { xmpp_stanza_release(t); xmpp_stanza_release(s2); if (s1) xmpp_stanza_release(s1); }
    else { if (s1) xmpp_stanza_release(s1); xmpp_stanza_release(s2); xmpp_stanza_release(t); }
    xmpp_ctx_free(c2);
    vf_leak(live2 == 0, "memory was not returned to the context's allocator");
    lite_end(1);
    vf_reached("end");
}
