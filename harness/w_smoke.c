#include "world.h"
void vf_main(void)
{
    w_init();
    sv.mech = M_SCRAM1; sv.zlib = 1; sv.sm = 1; sv.session = 1;
    xmpp_conn_set_flags(w_conn, XMPP_CONN_FLAG_ENABLE_COMPRESSION);
    vf_note("rc", w_client());
    for (int i = 0; i < 30 && !w_connected; i++) { w_step(); }
    for (int i = 0; i < w_qt; i++) vf_note(w_q[i]->name, w_q[i]->secure * 2 + w_q[i]->compressed);
    vf_note("connected", w_connected);
    vf_note("disc", w_disconnected);
    xmpp_disconnect(w_conn);
    w_run(6);
    vf_note("disc", w_disconnected);
    w_end();
    vf_note("live", w_live); vf_note("fds", w_open_fds());
    vf_reached("end");
}
