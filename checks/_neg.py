import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
F="XMPP_CONN_FLAG_"
# name: (offers {starttls, mechanisms, zlib, session, sm}, overrides, reconnect reaches 'connected')
CFGS={
 "plain":    (["{0,M_PLAIN,0,0,0}"], {}, 1),
 "full":     (["{1,M_PLAIN|M_SCRAM1,0,1,1}"], {}, 1),
 "mandatory":(["{1,M_PLAIN,0,0,0}","{0,M_PLAIN|M_SCRAM1,0,0,0}"], dict(FLAGS=F+"MANDATORY_TLS"), 1),
 "mandleg":  (["{1,0,0,0,0}","{0,0,0,0,0}"], dict(FLAGS=F+"MANDATORY_TLS|"+F+"LEGACY_AUTH"), 1),
 "notls":    (["{1,M_PLAIN|M_SCRAM1,0,0,0}"], dict(FLAGS=F+"DISABLE_TLS"), 1),
 "oldssl":   (["{0,M_PLAIN,0,0,0}"], dict(FLAGS=F+"LEGACY_SSL"), 1),
 "legacy":   (["{0,0,0,0,0}","{0,M_PLAIN,0,0,0}","{1,M_DIGEST,0,0,0}"], dict(FLAGS=F+"LEGACY_AUTH"), 1),
 "zlib":     (["{0,M_SCRAM1,1,0,0}","{1,M_PLAIN,1,0,1}"], dict(FLAGS=F+"ENABLE_COMPRESSION"), 1),
 "component":(["{0,0,0,0,0}"], dict(COMPONENT=1,JID='"comp.example.net"',RES="NULL"), 1),
 "anon":     (["{0,M_ANON|M_PLAIN,0,0,0}","{1,M_PLAIN,0,0,0}"], dict(JID='"example.net"',PASS="NULL",RES="NULL"), 1),
 "external": (["{1,M_EXT|M_PLAIN|M_SCRAM1,0,0,0}","{0,M_PLAIN,0,0,0}"], dict(CERT=1), 1),
 "digest":   (["{0,M_DIGEST|M_PLAIN,0,2,0}"], {}, 1),
 "nopass":   (["{0,M_PLAIN|M_SCRAM1|M_DIGEST,0,0,0}"], dict(PASS="NULL"), 0),
 "plus":     (["{1,M_SCRAM1P|M_SCRAM256P|M_SCRAM256|M_PLAIN,0,0,0}"], {}, 1),
 "tlsfail":  (["{1,M_PLAIN,0,0,0}"], dict(TLSFAIL=1), 0),
 "tlsfailm": (["{1,M_PLAIN,0,0,0}"], dict(TLSFAIL=1,FLAGS=F+"MANDATORY_TLS|"+F+"TRUST_TLS"), 0),
 "nosm":     (["{0,M_SCRAM512,0,1,1}"], dict(FLAGS=F+"DISABLE_SM"), 1),
 "bare":     (["{0,M_SCRAM512P|M_SCRAM256|M_SCRAM1,0,0,1}"], dict(JID='"user@example.net"',RES="NULL"), 1),
}
BOUNDS={1:"",2:"",3:"",13:""}
REC={1:("plain","full","mandatory","component","notls"),13:("plain","component","full")}
# slowest first
ORDER="zlib legacy full external plus mandatory digest notls mandleg anon nosm oldssl plain bare component tlsfailm tlsfail nopass".split()
def cfg(name, P, adv=1, d=(), hname=None, tier="quick", shards=1, **o):
    off, ov, rec = CFGS[name]
    dd=dict(JID='"user@example.net/r"',PASS='"pencil"',RES='"r"',FLAGS="0",OFFERS=",".join(off)); dd.update(ov); dd.update(o)
    if name in REC.get(P,()) and not d: dd["RECONNECT"]=rec
    return WH(hname or "neg_"+name,"harness/w_neg.c",["-DP=%d"%P,"-DADV=%d"%adv]+["-D%s=%s"%(k,v) for k,v in dd.items()]+["-D"+x for x in d], flags=["--path-time","30"], tier=tier, shards=shards,
        bounds="one attempt of configuration %s against every server behaviour with at most %d deviating turn(s) (14 kinds of item: symbolic element names, types, ids, numbers; silence, close, user disconnect/release), ~26 loop iterations%s"%(name,adv,", then a second attempt" if "RECONNECT" in dd else ""))
def configs(P): return [cfg(n,P) for n in ORDER]
ERR=lambda P:[cfg(n,P,d=["ERRALL"],hname="streamerr_"+n) for n in ("plain","component")]
HDR=lambda P:[cfg(n,P,d=["HDRADV"],hname="hdr_"+n) for n in ("zlib","full","anon","legacy")]
ASSUME=["allocation succeeds","the peer is modelled at XML-event level (the tokeniser is covered by C10); sockets, clock, DNS, TLS back end and zlib are the models in harness/world.h","xmpp_conn_release is not called from inside a callback"]
import os
P=int(os.environ.get("P","13"))
H=configs(P)
if __name__=="__main__": main("C99",H)
