/* A namespace-aware XML 1.0 push parser (elements, attributes, character data, entities, character
 * references, CDATA, comments, processing instructions; no DTD), written from the specifications.
 * It is both the independent parser of C09 and the model of expat for C09/C10.
 * Bytes >= 0x80 and control characters are taken as characters. */
#ifndef XMLP_H
#define XMLP_H
#define XP_POOL 8192
#define XP_NS_XML "http://www.w3.org/XML/1998/namespace"
typedef struct XP {
    void (*start)(struct XP *, const char *nsname, const char **atts);
    void (*end)(struct XP *, const char *nsname);
    void (*text)(struct XP *, const char *s, int n);
    void *ud; char sep;
    int st, dead, stopped, depth, rooted;
    char pool[XP_POOL]; int pn;            /* names and bindings of the open elements, then the current tag */
    int stk[40];                           /* per open element: pool offset where it starts */
    int nsp[64], nsu[64], nsd[64], nn;     /* bindings: prefix, uri, depth */
    int tag, ak[40], av[40], na, end_;     /* current tag */
    char quote; char ent[12]; int en; int skip_lf; char l1, l2; int bang; char bb[8];
    const char *run; int rn;
} XP;
enum { X_TEXT, X_LT, X_NAME, X_TAG, X_AN, X_AEQ, X_AQ, X_AV, X_AFT, X_EMPTY, X_EN, X_EWS, X_ENT, X_AENT, X_BANG, X_CD, X_CM, X_PI };
static void xp_init(XP *x) { x->st = X_TEXT; x->dead = x->stopped = x->depth = x->rooted = 0; x->pn = x->nn = x->na = 0; x->en = x->skip_lf = 0; x->l1 = x->l2 = 0; x->rn = 0; x->end_ = 0; }
static void xp_bad(XP *x) { x->dead = 1; }
static void xp_put(XP *x, char c) { if (x->pn >= XP_POOL) { xp_bad(x); vf_check(0, "harness: XML pool"); return; } x->pool[x->pn++] = c; }
static int xp_namec(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == ':' || c == '-' || c == '.' || c >= 0x80; }
static int xp_nameok(const char *s) { return s[0] && !(s[0] >= '0' && s[0] <= '9') && s[0] != '-' && s[0] != '.'; }
static int xp_ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static void xp_flush(XP *x)
{
    if (!x->rn) return;
    if (!x->dead && !x->stopped && x->depth > 0 && x->text) x->text(x, x->run, x->rn);
    x->rn = 0;
}
static void xp_chr(XP *x, const char *s) { xp_flush(x); x->run = s; x->rn = 1; xp_flush(x); }
static int xp_lookup(XP *x, const char *p, int n)
{
    for (int i = x->nn - 1; i >= 0; i--) { const char *q = x->pool + x->nsp[i]; int k = 0; while (k < n && q[k] == p[k] && q[k]) k++; if (k == n && !q[n]) return x->nsu[i]; }
    return -1;
}
/* nsname of a qualified name; out has room */
static int xp_qname(XP *x, const char *q, int attr, char *out, int cap)
{
    const char *c = q; int n = 0; const char *u = NULL;
    while (*c && *c != ':') c++;
    if (*c) {
        int pl = (int)(c - q);
        if (pl == 3 && q[0] == 'x' && q[1] == 'm' && q[2] == 'l') u = XP_NS_XML;
        else { int o = xp_lookup(x, q, pl); if (o < 0) return 0; u = x->pool + o; }
        c++;
    } else {
        c = q;
        if (!attr) { int o = xp_lookup(x, "", 0); if (o >= 0 && x->pool[o]) u = x->pool + o; }
    }
    if (u) { for (; *u; u++) { if (n >= cap - 2) return 0; out[n++] = *u; } out[n++] = x->sep; }
    for (; *c; c++) { if (n >= cap - 1) return 0; out[n++] = *c; }
    out[n] = 0;
    return 1;
}
static void xp_open(XP *x, int empty)
{
    char nm[200]; const char *at[42]; static char names[20][96]; int k = 0;
    if (x->depth == 0 && x->rooted) { xp_bad(x); return; }
    if (x->depth >= 39) { xp_bad(x); return; }
    for (int i = 0; i < x->na; i++) {
        const char *a = x->pool + x->ak[i];
        if (!xp_nameok(a)) { xp_bad(x); return; }
        for (int j = 0; j < i; j++) if (!strcmp(a, x->pool + x->ak[j])) { xp_bad(x); return; }
        if (!strncmp(a, "xmlns", 5) && (a[5] == 0 || a[5] == ':')) {
            vf_check(x->nn < 64, "harness: bindings");
            x->nsp[x->nn] = a[5] ? x->ak[i] + 6 : x->ak[i] + 5; x->nsu[x->nn] = x->av[i]; x->nsd[x->nn] = x->depth; x->nn++;
        }
    }
    if (!xp_nameok(x->pool + x->tag) || !xp_qname(x, x->pool + x->tag, 0, nm, sizeof nm)) { xp_bad(x); return; }
    for (int i = 0; i < x->na; i++) {
        const char *a = x->pool + x->ak[i];
        if (!strncmp(a, "xmlns", 5) && (a[5] == 0 || a[5] == ':')) continue;
        if (!xp_qname(x, a, 1, names[k / 2], 96)) { xp_bad(x); return; }
        at[k] = names[k / 2]; at[k + 1] = x->pool + x->av[i]; k += 2;
    }
    at[k] = NULL;
    x->stk[x->depth] = x->tag; x->depth++; x->rooted = 1;
    if (x->start) x->start(x, nm, at);
    if (x->stopped) return;
    if (empty) { x->depth--; if (x->end) x->end(x, nm); while (x->nn && x->nsd[x->nn - 1] >= x->depth) x->nn--; x->pn = x->stk[x->depth]; }
    x->st = X_TEXT; x->l1 = x->l2 = 0;
}
static void xp_close(XP *x)
{
    char nm[200];
    if (x->depth == 0) { xp_bad(x); return; }
    if (strcmp(x->pool + x->tag, x->pool + x->stk[x->depth - 1])) { xp_bad(x); return; }
    if (!xp_qname(x, x->pool + x->tag, 0, nm, sizeof nm)) { xp_bad(x); return; }
    x->depth--;
    if (x->end) x->end(x, nm);
    while (x->nn && x->nsd[x->nn - 1] >= x->depth) x->nn--;
    x->pn = x->stk[x->depth];
    x->st = X_TEXT; x->l1 = x->l2 = 0;
}
static int xp_entity(XP *x, char *out)
{
    const char *e = x->ent; unsigned long v = 0; int i, n = 0;
    x->ent[x->en] = 0;
    if (e[0] == '#') {
        if (e[1] == 'x') { if (!e[2]) return 0; for (i = 2; e[i]; i++) { int d = e[i] >= '0' && e[i] <= '9' ? e[i] - '0' : e[i] >= 'a' && e[i] <= 'f' ? e[i] - 'a' + 10 : e[i] >= 'A' && e[i] <= 'F' ? e[i] - 'A' + 10 : -1; if (d < 0) return 0; v = v * 16 + d; } }
        else { if (!e[1]) return 0; for (i = 1; e[i]; i++) { if (e[i] < '0' || e[i] > '9') return 0; v = v * 10 + (e[i] - '0'); } }
        if (v == 0 || v > 0x10ffff || (v < 32 && v != 9 && v != 10 && v != 13)) return 0;
        if (v < 0x80) out[n++] = (char)v;
        else if (v < 0x800) { out[n++] = (char)(0xc0 | v >> 6); out[n++] = (char)(0x80 | (v & 63)); }
        else if (v < 0x10000) { out[n++] = (char)(0xe0 | v >> 12); out[n++] = (char)(0x80 | (v >> 6 & 63)); out[n++] = (char)(0x80 | (v & 63)); }
        else { out[n++] = (char)(0xf0 | v >> 18); out[n++] = (char)(0x80 | (v >> 12 & 63)); out[n++] = (char)(0x80 | (v >> 6 & 63)); out[n++] = (char)(0x80 | (v & 63)); }
        return n;
    }
    out[0] = !strcmp(e, "lt") ? '<' : !strcmp(e, "gt") ? '>' : !strcmp(e, "amp") ? '&' : !strcmp(e, "quot") ? '"' : !strcmp(e, "apos") ? '\'' : 0;
    return out[0] != 0;
}
static void xp_feed(XP *x, const char *s, int n)
{
    for (int i = 0; i < n && !x->dead && !x->stopped; i++) {
        char c = s[i], o[4];
        if (c == 0) { xp_bad(x); break; }
        switch (x->st) {
        case X_TEXT:
            if (x->skip_lf) { x->skip_lf = 0; if (c == '\n') break; }
            if (c == '<') { xp_flush(x); x->st = X_LT; break; }
            if (x->depth == 0) { if (!xp_ws(c)) xp_bad(x); break; }
            if (c == '&') { xp_flush(x); x->en = 0; x->st = X_ENT; break; }
            if (c == '\r') { xp_chr(x, "\n"); x->skip_lf = 1; x->l1 = 0; break; }
            if (c == '\n') { xp_chr(x, s + i); x->l1 = 0; break; }
            if (c == '>' && x->l1 == ']' && x->l2 == ']') { xp_bad(x); break; }
            x->l2 = x->l1; x->l1 = c;
            if (!x->rn) x->run = s + i;
            x->rn++;
            break;
        case X_LT:
            if (c == '/') { x->tag = x->pn; x->st = X_EN; }
            else if (c == '!') { x->bang = 0; x->st = X_BANG; }
            else if (c == '?') { x->l1 = 0; x->st = X_PI; }
            else if (xp_namec(c)) { x->tag = x->pn; x->na = 0; xp_put(x, c); x->st = X_NAME; }
            else xp_bad(x);
            break;
        case X_NAME:
            if (xp_namec(c)) xp_put(x, c);
            else { xp_put(x, 0); if (xp_ws(c)) x->st = X_TAG; else if (c == '>') xp_open(x, 0); else if (c == '/') x->st = X_EMPTY; else xp_bad(x); }
            break;
        case X_AFT:                                        /* an attribute must be followed by white space */
            if (xp_ws(c)) x->st = X_TAG; else if (c == '>') xp_open(x, 0); else if (c == '/') x->st = X_EMPTY; else xp_bad(x);
            break;
        case X_TAG:
            if (xp_ws(c)) break;
            if (c == '>') xp_open(x, 0);
            else if (c == '/') x->st = X_EMPTY;
            else if (xp_namec(c)) { if (x->na >= 18) { vf_check(0, "harness: attributes"); xp_bad(x); break; } x->ak[x->na] = x->pn; xp_put(x, c); x->st = X_AN; }
            else xp_bad(x);
            break;
        case X_AN:
            if (xp_namec(c)) xp_put(x, c);
            else { xp_put(x, 0); if (c == '=') x->st = X_AQ; else if (xp_ws(c)) x->st = X_AEQ; else xp_bad(x); }
            break;
        case X_AEQ: if (c == '=') x->st = X_AQ; else if (!xp_ws(c)) xp_bad(x); break;
        case X_AQ:
            if (c == '"' || c == '\'') { x->quote = c; x->av[x->na] = x->pn; x->st = X_AV; x->skip_lf = 0; } else if (!xp_ws(c)) xp_bad(x);
            break;
        case X_AV:
            if (x->skip_lf) { x->skip_lf = 0; if (c == '\n') break; }
            if (c == x->quote) { xp_put(x, 0); x->na++; x->st = X_AFT; }
            else if (c == '<') xp_bad(x);
            else if (c == '&') { x->en = 0; x->st = X_AENT; }
            else if (c == '\r') { xp_put(x, ' '); x->skip_lf = 1; }
            else if (c == '\n' || c == '\t') xp_put(x, ' ');
            else xp_put(x, c);
            break;
        case X_EMPTY: if (c == '>') xp_open(x, 1); else xp_bad(x); break;
        case X_EN: if (xp_namec(c)) xp_put(x, c); else { xp_put(x, 0); if (c == '>') xp_close(x); else if (xp_ws(c)) x->st = X_EWS; else xp_bad(x); } break;
        case X_EWS: if (c == '>') xp_close(x); else if (!xp_ws(c)) xp_bad(x); break;
        case X_ENT: case X_AENT:
            if (c != ';') { if (x->en >= 10) xp_bad(x); else x->ent[x->en++] = c; break; }
            { int k = xp_entity(x, o); if (!k) { xp_bad(x); break; }
              if (x->st == X_ENT) { xp_flush(x); x->run = o; x->rn = k; xp_flush(x); x->st = X_TEXT; x->l1 = x->l2 = 0; }
              else { for (int j = 0; j < k; j++) xp_put(x, o[j]); x->st = X_AV; } }
            break;
        case X_BANG:
            if (x->bang < 8) x->bb[x->bang++] = c;
            if (x->bang == 2 && x->bb[0] == '-' && x->bb[1] == '-') { x->st = X_CM; x->bang = 0; x->l1 = x->l2 = 0; }
            else if (x->bang == 7) { if (strncmp(x->bb, "[CDATA[", 7) || x->depth == 0) xp_bad(x); x->st = X_CD; x->l1 = x->l2 = 0; x->bang = 0; }
            break;
        case X_CD:                                         /* l1: number of ']' held back */
            if (x->skip_lf) { x->skip_lf = 0; if (c == '\n') break; }
            if (c == ']') { xp_flush(x); if (x->l1 == 2) xp_chr(x, "]"); else x->l1++; break; }
            if (c == '>' && x->l1 == 2) { x->st = X_TEXT; x->l1 = x->l2 = 0; break; }
            while (x->l1) { xp_chr(x, "]"); x->l1--; }
            if (c == '\r') { xp_chr(x, "\n"); x->skip_lf = 1; break; }
            if (c == '\n') { xp_chr(x, s + i); break; }
            if (!x->rn) x->run = s + i;
            x->rn++;
            break;
        case X_CM:
            if (x->l1 == '-' && x->l2 == '-') { if (c == '>') { x->st = X_TEXT; x->l1 = x->l2 = 0; } else xp_bad(x); break; }
            x->l2 = x->l1; x->l1 = c;
            break;
        case X_PI: if (c == '>' && x->l1 == '?') { x->st = X_TEXT; x->l1 = x->l2 = 0; } else x->l1 = c; break;
        }
    }
    xp_flush(x);
}
/* ---- document trees */
typedef struct N { int text; const char *name, *ns; const char *ak[14], *av[14]; int na; const char *t; struct N *kid[10]; int nk; struct N *up; } N;
static N n_pool[160]; static int n_n;
static char n_str[16384]; static int n_sn;
static N *n_new(void) { vf_check(n_n < 160, "harness: nodes"); N *n = &n_pool[n_n++]; memset(n, 0, sizeof *n); return n; }
static char *n_dup(const char *s, int len) { vf_check(n_sn + len + 1 <= (int)sizeof n_str, "harness: strings"); char *r = n_str + n_sn; for (int i = 0; i < len; i++) r[i] = s[i]; r[len] = 0; n_sn += len + 1; return r; }
static int n_eq(const char *a, const char *b) { return strcmp(a ? a : "", b ? b : "") == 0; }
static void n_add(N *p, N *c) { vf_check(p->nk < 10, "harness: children"); p->kid[p->nk++] = c; c->up = p; }
static N *n_el(const char *ns, const char *name) { N *n = n_new(); n->ns = ns; n->name = name; return n; }
static N *n_tx(const char *t) { N *n = n_new(); n->text = 1; n->t = t; return n; }
static void n_at(N *n, const char *k, const char *v) { for (int i = 0; i < n->na; i++) if (!strcmp(n->ak[i], k)) { n->av[i] = v; return; } vf_check(n->na < 14, "harness: attrs"); n->ak[n->na] = k; n->av[n->na++] = v; }
static const char *n_ns(const N *n, const char *dflt) { for (; n; n = n->up) if (n->ns) return n->ns; return dflt; }
/* next run: returns an element or collects text between elements */
static N *n_next(N *n, int *i, char *buf, int *len, int cap)
{
    *len = 0;
    while (*i < n->nk) {
        N *k = n->kid[(*i)++];
        if (!k->text) { buf[*len] = 0; return k; }
        for (const char *p = k->t; *p; p++) { vf_check(*len < cap - 1, "harness: text"); buf[(*len)++] = *p; }
    }
    buf[*len] = 0;
    return NULL;
}
/* a: expected (namespaces inherited, default da); b: read back */
static void n_cmp(N *a, N *b, const char *da, const char *db)
{
    char *ta = malloc(2400), *tb = malloc(2400); int ia = 0, ib = 0, la, lb;
    vf_check(n_eq(a->name, b->name), "element name differs");
    vf_check(n_eq(n_ns(a, da), n_ns(b, db)), "effective namespace differs");
    vf_check(a->na == b->na, "number of attributes differs");
    for (int i = 0; i < a->na; i++) {
        int j = 0; while (j < b->na && strcmp(a->ak[i], b->ak[j])) j++;
        vf_check(j < b->na, "attribute missing");
        if (j < b->na) vf_check(n_eq(a->av[i], b->av[j]), "attribute value differs");
    }
    for (;;) {
        N *ka = n_next(a, &ia, ta, &la, 2400), *kb = n_next(b, &ib, tb, &lb, 2400);
        vf_check(la == lb && memcmp(ta, tb, la) == 0, "text differs");
        vf_check(!ka == !kb, "number of child elements differs");
        if (!ka || !kb) break;
        n_cmp(ka, kb, da, db);
    }
    free(ta); free(tb);
}
/* ---- tree builder on top of the push parser */
typedef struct { N *root, *cur; } TB;
static void tb_start(XP *x, const char *nsname, const char **at)
{
    TB *t = x->ud; const char *c = strchr(nsname, x->sep); N *n;
    n = n_el(c ? n_dup(nsname, (int)(c - nsname)) : "", n_dup(c ? c + 1 : nsname, (int)strlen(c ? c + 1 : nsname)));
    for (int i = 0; at[i]; i += 2) {
        const char *k = at[i], *u = strchr(k, x->sep);
        if (u) { char b[64] = "xml:"; if (!strncmp(k, XP_NS_XML, sizeof XP_NS_XML - 1)) strcat(b, u + 1); else strcpy(b, k); k = n_dup(b, (int)strlen(b)); }
        else k = n_dup(k, (int)strlen(k));
        n_at(n, k, n_dup(at[i + 1], (int)strlen(at[i + 1])));
    }
    if (t->cur) n_add(t->cur, n); else t->root = n;
    t->cur = n;
}
static void tb_end(XP *x, const char *nsname) { TB *t = x->ud; (void)nsname; t->cur = t->cur->up; }
static void tb_text(XP *x, const char *s, int n) { TB *t = x->ud; if (t->cur) { N *k = t->cur; if (k->nk && k->kid[k->nk - 1]->text && k->kid[k->nk - 1]->t + strlen(k->kid[k->nk - 1]->t) + 1 == n_str + n_sn) { n_sn--; n_dup(s, n); } else n_add(k, n_tx(n_dup(s, n))); } }
#endif
