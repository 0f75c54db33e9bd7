/* C07: channel-binding data of the real tls_openssl.c over the contracts of ossl.h, two attempts in a row.
 * tls-unique (RFC 5929): the first Finished message of the handshake, the client's in a full one, the
 * server's in a resumed one; tls-exporter (RFC 9266): 32 bytes under "EXPORTER-Channel-Binding". */
#define W_OWN_TLS
#include "world.h"
static unsigned char ekm[2][32]; static int att, ex_rc;
static int on_export(unsigned char *o, size_t n, const char *l, size_t ln, const unsigned char *c, size_t cl, int use)
{
    vf_check(n == 32, "the exported key has not 32 bytes");
    vf_check(ln == 24 && !memcmp(l, "EXPORTER-Channel-Binding", 24), "label of the exporter");
    vf_check(cl == 0 && (!use || c == NULL || cl == 0), "context of the exporter"); 
    if (ex_rc != 1) return ex_rc;
    memcpy(o, ekm[att], n < 32 ? n : 32);
    return 1;
}
static void attempt(tls_t *t)
{
    static const int vers[] = {SSL3_VERSION, TLS1_VERSION, TLS1_1_VERSION, TLS1_2_VERSION, TLS1_3_VERSION, 0x0305, DTLS1_2_VERSION};
    static const int lens[] = {12, 36, 0, 11, 13, 64};
    const char *pre = NULL; size_t n = 0, dn = 0; int rc, want; const unsigned char *d; unsigned char x;
    o_ver = vers[vf_pick(7)];
    o_reused = (int)vf_pick(2); o_finlen = 12;
    if (o_ver <= TLS1_2_VERSION) o_finlen = lens[vf_pick(6)];
    ex_rc = 1; if (o_ver == TLS1_3_VERSION) ex_rc = 1 - (int)vf_pick(3);
    for (int k = 0; k < 2; k++) for (int i = 0; i < 36; i++) o_fin[k][i] = (unsigned char)vf_nd(8);
    for (int i = 0; i < 32; i++) ekm[att][i] = (unsigned char)vf_nd(8);
    o_on_export = on_export;
    want = o_ver == TLS1_3_VERSION ? ex_rc == 1 : o_ver > TLS1_2_VERSION ? 0 : o_finlen == (o_ver == SSL3_VERSION ? 36 : 12);
    rc = tls_init_channel_binding(t, &pre, &n);
    vf_check((rc == 0) == want, "success of the channel binding");
    if (rc || !want) { vf_reached("no channel binding"); return; }
    vf_check(pre && n == strlen(pre), "length of the name of the binding"); if (!pre) return;
    vf_check(!strcmp(pre, o_ver == TLS1_3_VERSION ? "tls-exporter" : "tls-unique"), "name of the binding");
    d = tls_get_channel_binding_data(t, &dn);
    vf_check(d && dn == (size_t)(o_ver == TLS1_3_VERSION ? 32 : o_finlen), "length of the binding data"); if (!d) return;
    x = 0;
    for (size_t i = 0; i < dn; i++) x |= d[i] ^ (o_ver == TLS1_3_VERSION ? ekm[att][i] : o_fin[o_reused][i]);
    vf_check(x == 0, "the binding data is not that of this session");
    vf_reached(o_ver == TLS1_3_VERSION ? "tls-exporter" : o_reused ? "tls-unique of a resumed session" : "tls-unique");
}
void vf_main(void)
{
    tls_t *t;
    w_init();
    xmpp_conn_set_jid(w_conn, "u@im.example.net");
    w_conn->domain = strophe_strdup(w_ctx, "im.example.net");
    t = tls_new(w_conn);
    vf_check(t != NULL, "harness: session"); if (!t) return;
    for (att = 0; att < 2; att++) attempt(t);
    tls_free(t);
}
