/* expat's API on top of the push parser: expat_external.h's contract as used by parser_expat.c */
struct XML_ParserStruct { XML_StartElementHandler hs; XML_EndElementHandler he; XML_CharacterDataHandler hc; void *ud; XML_Memory_Handling_Suite mem; int hasmem, inparse; XP x; };
static int xe_live;
static void xe_s(XP *x, const char *n, const char **a) { XML_Parser p = x->ud; if (p->hs) p->hs(p->ud, n, a); }
static void xe_e(XP *x, const char *n) { XML_Parser p = x->ud; if (p->he) p->he(p->ud, n); }
static void xe_t(XP *x, const char *s, int n) { XML_Parser p = x->ud; if (p->hc) p->hc(p->ud, s, n); }
XML_Parser XML_ParserCreate_MM(const XML_Char *enc, const XML_Memory_Handling_Suite *m, const XML_Char *sep)
{
#if defined(LEAK) && !defined(XML_ParserCreate_MM)
    vf_leak(m != NULL, "an expat parser does not use the context's allocator");
#endif
    XML_Parser p = m ? m->malloc_fcn(sizeof *p) : malloc(sizeof *p); (void)enc;
    if (!p) return NULL;
    p->hs = NULL; p->he = NULL; p->hc = NULL; p->ud = NULL; p->hasmem = 0; p->inparse = 0;
    if (m) { p->mem = *m; p->hasmem = 1; }
    xp_init(&p->x); p->x.sep = sep ? *sep : 0; p->x.ud = p; p->x.start = xe_s; p->x.end = xe_e; p->x.text = xe_t;
    xe_live++;
    return p;
}
XML_Parser XML_ParserCreateNS(const XML_Char *e, XML_Char s) { return XML_ParserCreate_MM(e, NULL, &s); }
void XML_ParserFree(XML_Parser p) { if (!p) return; vf_check(!p->inparse, "expat parser freed from inside its own callback"); xe_live--; if (p->hasmem) p->mem.free_fcn(p); else free(p); }
XML_Bool XML_ParserReset(XML_Parser p, const XML_Char *e) { (void)e; vf_check(!p->inparse, "expat parser reset from inside its own callback"); p->ud = NULL; p->hs = NULL; p->he = NULL; p->hc = NULL; xp_init(&p->x); return XML_TRUE; }
void XML_SetUserData(XML_Parser p, void *u) { p->ud = u; }
void XML_SetElementHandler(XML_Parser p, XML_StartElementHandler s, XML_EndElementHandler e) { p->hs = s; p->he = e; }
void XML_SetStartElementHandler(XML_Parser p, XML_StartElementHandler s) { p->hs = s; }
void XML_SetEndElementHandler(XML_Parser p, XML_EndElementHandler e) { p->he = e; }
void XML_SetCharacterDataHandler(XML_Parser p, XML_CharacterDataHandler c) { p->hc = c; }
enum XML_Error XML_GetErrorCode(XML_Parser p) { return p->x.dead ? XML_ERROR_INVALID_TOKEN : XML_ERROR_NONE; }
const XML_LChar *XML_ErrorString(enum XML_Error e) { (void)e; return "error"; }
enum XML_Status XML_StopParser(XML_Parser p, XML_Bool r) { (void)r; if (p->x.stopped) return XML_STATUS_ERROR; p->x.stopped = 1; return XML_STATUS_OK; }
enum XML_Status XML_Parse(XML_Parser p, const char *s, int n, int fin)
{
    (void)fin;
    if (!p) return XML_STATUS_ERROR;
    vf_check(!p->inparse, "expat parser re-entered");
    if (p->x.dead || p->x.stopped) return XML_STATUS_ERROR;
    p->inparse = 1; xp_feed(&p->x, s, n); p->inparse = 0;
    return p->x.dead || p->x.stopped ? XML_STATUS_ERROR : XML_STATUS_OK;
}
void *XML_MemMalloc(XML_Parser p, size_t n) { return p->hasmem ? p->mem.malloc_fcn(n) : malloc(n); }
