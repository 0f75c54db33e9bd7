/* C12: programs over stanza objects against a reference-count model.
 * START picks the objects held at the beginning, then NOPS operations, then every held reference is given back
 * in one of several orders. The allocator tracks every block; the interpreter sees every access to a freed one. */
#include "lite.h"
#include "xmlp.h"
#include "xmlexpat.h"
#define MAXN 40
typedef struct { xmpp_stanza_t *p; int user, par, alive, text, nk, kid[8]; char name[24]; } M;
static M m[MAXN]; static int nm;
static int m_new(xmpp_stanza_t *p, int text) { vf_leak(nm < MAXN && p, "harness: nodes"); m[nm].p = p; m[nm].par = -1; m[nm].alive = 1; m[nm].text = text; return nm++; }
static void m_name(int i, const char *s) { strncpy(m[i].name, s, 23); }
static void m_free(int i)                                  /* last reference gone */
{
    m[i].alive = 0;
    for (int k = 0; k < m[i].nk; k++) { int c = m[i].kid[k]; m[c].par = -1; if (!m[c].user) m_free(c); }
}
static void valid(int i)                                   /* the object is alive and what the model says it is */
{
    xmpp_stanza_t *c; int k = 0;
    if (m[i].text) { const char *t = xmpp_stanza_get_text_ptr(m[i].p); vf_leak(t && !strcmp(t, m[i].name), "a held text changed"); return; }
    const char *n = xmpp_stanza_get_name(m[i].p); vf_leak(n && !strcmp(n, m[i].name), "a held stanza changed");
    for (c = xmpp_stanza_get_children(m[i].p); c; c = xmpp_stanza_get_next(c)) { vf_leak(k < m[i].nk && c == m[m[i].kid[k]].p, "children of a held stanza changed"); if (k >= m[i].nk) return; valid(m[i].kid[k]); k++; }
    vf_leak(k == m[i].nk, "children of a held stanza lost");
}
static void all_valid(void) { for (int i = 0; i < nm; i++) if (m[i].alive && m[i].user) { valid(i); if (m[i].par < 0) vf_leak(!xmpp_stanza_get_next(m[i].p), "a stanza without parent has a sibling"); } }
static void drop(int i)
{
    m[i].user--;
    int last = !m[i].user && m[i].par < 0;
    int rc = xmpp_stanza_release(m[i].p);
    vf_leak(!rc == !last, "release reports the wrong thing");
    if (last) m_free(i);
}
static int el(void) { static const char *const nn[] = {"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7"}; static int k; xmpp_stanza_t *s = xmpp_stanza_new(w_ctx); int i = m_new(s, 0); xmpp_stanza_set_name(s, nn[k & 7]); m_name(i, nn[k & 7]); k++; m[i].user = 1; return i; }
static int tx(void) { xmpp_stanza_t *s = xmpp_stanza_new(w_ctx); int i = m_new(s, 1); xmpp_stanza_set_text(s, "t&"); m_name(i, "t&"); m[i].user = 1; return i; }
static void link_(int p, int c) { m[c].par = p; m[p].kid[m[p].nk++] = c; }
static int adopt(xmpp_stanza_t *s, int par)                /* a tree the library built: model it node by node */
{
    int t = xmpp_stanza_is_text(s), i = m_new(s, t); const char *n = t ? xmpp_stanza_get_text_ptr(s) : xmpp_stanza_get_name(s);
    m_name(i, n ? n : "");
    if (par >= 0) link_(par, i); else m[i].user = 1;
    for (xmpp_stanza_t *c = xmpp_stanza_get_children(s); c; c = xmpp_stanza_get_next(c)) adopt(c, i);
    return i;
}
static int pick(int what)                                  /* a held object: 0 any, 1 element, 2 one without parent, 3 text */
{
    int c[MAXN], n = 0;
    for (int i = 0; i < nm; i++) if (m[i].alive && m[i].user && (what == 0 || (what == 1 && !m[i].text) || (what == 2 && m[i].par < 0) || (what == 3 && m[i].text))) c[n++] = i;
    if (!n) return -1;
    return c[vf_pick((uint32_t)n)];
}
static int above(int a, int b) { for (; b >= 0; b = m[b].par) if (a == b) return 1; return 0; }
static void op(void)
{
    int i, j; char *s; size_t l; xmpp_stanza_t *r;
    switch (vf_pick(13)) {
    case 0: if (vf_pick(2)) el(); else tx(); break;
    case 1: i = pick(0); if (i < 0) return; r = xmpp_stanza_clone(m[i].p); vf_leak(r == m[i].p, "clone"); m[i].user++; break;
    case 2: i = pick(0); if (i < 0) return; drop(i); break;
    case 3: case 4: {
        int how = (int)vf_pick(2);
        i = pick(1); if (i < 0) return;
        j = pick(2); if (j < 0 || above(j, i) || m[i].nk >= 7) return;
        if (how) vf_leak(xmpp_stanza_add_child(m[i].p, m[j].p) == XMPP_EOK, "add_child");
        else { vf_leak(xmpp_stanza_add_child_ex(m[i].p, m[j].p, 0) == XMPP_EOK, "add_child_ex"); m[j].user--; }
        link_(i, j);
        break; }
    case 5: i = pick(0); if (i < 0) return; r = xmpp_stanza_copy(m[i].p); vf_leak(r && r != m[i].p, "copy"); adopt(r, -1); break;
    case 6: i = pick(1); if (i < 0) return;
        xmpp_stanza_set_attribute(m[i].p, "from", "a@b"); xmpp_stanza_set_attribute(m[i].p, "id", "1"); xmpp_stanza_set_attribute(m[i].p, "id", "2"); xmpp_stanza_set_attribute(m[i].p, "i1", "3"); xmpp_stanza_set_ns(m[i].p, "urn:a");
        if (vf_pick(2)) { xmpp_stanza_del_attribute(m[i].p, "id"); xmpp_stanza_del_attribute(m[i].p, "none"); }
        break;
    case 7: i = pick(0); if (i < 0) return;
        s = NULL; if (xmpp_stanza_to_text(m[i].p, &s, &l) == XMPP_EOK) xmpp_free(w_ctx, s);
        s = xmpp_stanza_get_text(m[i].p); if (s) xmpp_free(w_ctx, s);
        break;
    case 8: i = pick(1); if (i < 0) return; xmpp_stanza_set_from(m[i].p, "x@y"); r = xmpp_stanza_reply(m[i].p); if (r) adopt(r, -1); break;
    case 9: i = pick(1); if (i < 0) return; r = xmpp_stanza_get_children(m[i].p); if (!r) return; if (xmpp_stanza_get_next(r) && vf_pick(2)) r = xmpp_stanza_get_next(r); xmpp_stanza_clone(r); for (j = 0; j < nm; j++) if (m[j].alive && m[j].p == r) { m[j].user++; break; } break;
    case 10: {
        static const char *const d[] = {"<a><b>t</b><c x='1'/></a>", "<a><b></a>", "<a/><b/>", "<a>&x;</a>"};
        r = xmpp_stanza_new_from_string(w_ctx, d[vf_pick(4)]); if (r) adopt(r, -1); break; }
    case 11: i = pick(0); if (i < 0) return;
        if (m[i].text) { xmpp_stanza_set_text(m[i].p, "u"); m_name(i, "u"); xmpp_stanza_set_text_with_size(m[i].p, "uvw", 2); m_name(i, "uv"); vf_leak(xmpp_stanza_set_name(m[i].p, "x") != XMPP_EOK, "name of a text"); vf_leak(xmpp_stanza_set_attribute(m[i].p, "x", "y") != XMPP_EOK, "attribute of a text"); }
        else { xmpp_stanza_set_name(m[i].p, "iq"); m_name(i, "iq"); vf_leak(xmpp_stanza_set_text(m[i].p, "x") != XMPP_EOK, "text of an element"); }
        break;
    case 12: i = pick(1); if (i < 0) return;
        switch (vf_pick(3)) {
        case 0: xmpp_stanza_set_from(m[i].p, "x@y"); xmpp_stanza_set_id(m[i].p, "i"); r = xmpp_stanza_reply_error(m[i].p, "cancel", "gone", vf_pick(2) ? "t" : NULL); if (r) adopt(r, -1); break;
        case 1: r = xmpp_message_new(w_ctx, "chat", "a@b", "1"); if (vf_pick(2)) { xmpp_message_set_body(r, "b"); s = xmpp_message_get_body(r); xmpp_free(w_ctx, s); xmpp_message_set_body(r, "c"); } adopt(r, -1); break;
        case 2: r = xmpp_error_new(w_ctx, XMPP_SE_CONFLICT, vf_pick(2) ? "t" : NULL); adopt(r, -1); break;
        }
        break;
    }
    all_valid();
}
void vf_main(void)
{
    int a, b, c;
    lite_init();
    switch (vf_pick(3)) {
    case 0: break;
    case 1: a = el(); b = el(); c = el(); xmpp_stanza_add_child(m[a].p, m[b].p); link_(a, b); xmpp_stanza_add_child_ex(m[b].p, m[c].p, 0); m[c].user--; link_(b, c); break;
    case 2: a = el(); b = tx(); c = el(); xmpp_stanza_add_child_ex(m[a].p, m[b].p, 0); m[b].user--; link_(a, b); xmpp_stanza_add_child(m[a].p, m[c].p); link_(a, c); break;
    }
    for (int i = 0; i < NOPS; i++) op();
    int dir = (int)vf_pick(2);
    for (int k = 0; k < nm; k++) { int i = dir ? nm - 1 - k : k; while (m[i].alive && m[i].user) { drop(i); all_valid(); } }
    lite_end(1);
    vf_reached("end");
}
