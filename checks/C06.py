import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
def qh(n, tier="quick", **d):
    return WH(n,"harness/w_queue.c",["-D%s=%s"%kv for kv in d.items()], flags=["--path-time","60"], tier=tier, bounds="up to %s queued elements, then %s actions (queue, drop oldest/youngest, write with 0..%s bytes accepted), then drained or disconnected"%(d.get("NPRE",2),d.get("NACT",4),d.get("QMAX",13)))
H=[qh("plain",QMAX=12,NPRE=1), qh("plain_long",QMAX=2,NPRE=0,NACT=5), qh("plain_pre3",QMAX=12,NPRE=3,NACT=3), qh("tls",QMAX=12,TLS=1,NPRE=1,NACT=3), qh("sm",QMAX=9,SM=1,NPRE=1,NACT=3), qh("sm_req",QMAX=30,SM=2,NPRE=1,NACT=3)]
if __name__ == "__main__":
    main("C06", H, assumptions=["allocation succeeds","elements of 5 to 12 bytes; the transport model of harness/world.h"])
