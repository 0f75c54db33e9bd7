import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
def hh(n, b, tier="quick", **d):
    return WH(n,"harness/w_hand.c",["-D%s=%s"%kv for kv in d.items()], flags=["--path-time","60"], tier=tier, bounds=b)
def dis(n,**d): return hh(n,"%d handlers, %d+2 stanzas, up to %d callbacks that add/delete/re-add/return false/send"%(d.get("NH",3),d.get("NSTZ",2),d.get("ACT",2)),MODE=2,**d)
def tim(n,**d): return hh(n,"%d timed handlers, %d loop iterations with symbolic clock advances, up to %d active callbacks"%(d.get("NH",2),d.get("STEPS",4)+1,d.get("ACT",1)),MODE=3,**d)
H=[hh("match_%d%d"%(a,b),"one filter handler (values of %d symbolic characters) and one stanza with up to two children (names/types/namespaces of %d symbolic characters)"%(b,a),"quick" if a==1 else "thorough",MODE=1,MATCH=1,SLEN=a,FLEN=b) for a in (1,2) for b in (1,2)]
H+=[hh("match_id%d%d"%(a,b),"one id handler (id of %d symbolic characters) and one stanza (id of %d)"%(b,a),"quick" if a==1 else "thorough",MODE=1,MATCH=2,SLEN=a,FLEN=b) for a in (1,2) for b in (1,2)]
H+=[hh("match_ab%d%d"%(a,b),"the same with characters from {a,b}",MODE=1,MATCH=1,SLEN=a,FLEN=b,ALPH=2) for a,b in ((2,1),(2,2))]
H+=[hh("match_id_ab%d%d"%(a,b),"the same with characters from {a,b}",MODE=1,MATCH=2,SLEN=a,FLEN=b,ALPH=2) for a,b in ((2,1),(2,2))]
H+=[
   dis("dispatch3",NH=3,ACT=2,KINDS=3,NSTZ=1), dis("dispatch2",NH=2,ACT=3,KINDS=4,NSTZ=1), dis("dispatch2b",NH=2,ACT=1,KINDS=3,NSTZ=2), dis("dispatch4",NH=4,ACT=1,KINDS=3,NSTZ=1), dis("reconnect",NH=2,ACT=1,KINDS=6,NSTZ=1,RECON=1),
   tim("timed2",NH=2,ACT=1,STEPS=1), tim("timed_periods",NH=1,ACT=1,PERSYM=1,STEPS=1), tim("timed_negotiation",NH=2,ACT=0,EARLY=1,STEPS=1), tim("timed_offline",NH=2,ACT=1,LATE=2,STEPS=1)]
if __name__ == "__main__":
    main("C11", H, assumptions=["allocation succeeds","the stanza is not modified by callbacks; the connection is not released in a callback"])
