import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
import _sm
from world import *
def bl(n, tier="quick", shards=1, **d):
    b=d.pop("B","")
    return WH(n,"harness/c16_blob.c",["-D%s=%s"%kv for kv in d.items()], flags=["--path-time","60"], tier=tier, shards=shards, weak_reach=True, bounds=b)
H=[bl("any_len%02d"%n,MODE=0,LEN=n,B="all byte strings of length %d"%n) for n in [45,44,43,42,41,40]+[0,1,4,5,9,10,15,20]+list(range(29,40))]
H+=[bl("roundtrip",MODE=1,NU=3,NA=3,TL=5,B="symbolic counters, id (1 or 3 bytes), up to 3 unsent and 3 unacknowledged texts of 1 or 5 symbolic bytes")]
H+=[bl("altered",MODE=2,B="a well-formed state with one byte replaced at any position, cut anywhere, or extended by 1..6 bytes"), bl("altered2",MODE=2,NU=2,NA=0,TL=1,B="the same, 2 unsent texts"), bl("altered3",MODE=2,NU=0,NA=2,TL=3,B="the same, 2 unacknowledged texts")]
H=[_sm.sm("native_"+n,16,XFER=2,**k) for n,k in (("out2",dict(NSEND=2)),("out3",dict(ATT=3,MID0=1,OUTCOMES=2)),("wrap",dict(NSEND=1,BASES=_sm.B)))]+H
if __name__ == "__main__":
    main("C16", H, assumptions=["allocation succeeds"])
