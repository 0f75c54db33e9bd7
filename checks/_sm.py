import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
def sm(n, P, tier="quick", shards=1, **d):
    return WH(n,"harness/w_sm.c",["-DP=%d"%P]+["-D%s=%s"%kv for kv in d.items()], flags=["--path-time","60"], tier=tier, shards=shards, bounds="logical session over %d connections"%d.get("ATT",2))
B="0xfffffffeu,0x7fffffffu,0"
OUT=lambda P=4,**k:[sm("out2",P,NSEND=2,**k), sm("out2_wrap",P,NSEND=1,BASES=B,**k), sm("out2_partial",P,NSEND=1,PARTIAL=1,ACKS=1,**k), sm("out3",P,ATT=3,MID0=1,**k), sm("out4_resume",P,ATT=4,MID0=1,NSEND=1,ACKS=1,OUTCOMES=2,**k)]
ACK=lambda P=4:[sm("ack_symbolic",P,ACKSYM=3)]
OUTX=lambda:[sm("out3_transfer",4,ATT=3,NSEND=1,ACKS=1,OUTCOMES=2,XFER=1), sm("out2_transfer",4,NSEND=2,XFER=1)]
ASSUME=['allocation succeeds','the server is conforming apart from the h values and failures it may choose; world model of harness/world.h']
IN=[sm("in2",5), sm("in1",5,ATT=1,NIN=4),sm("in2_wrap",5,NIN=1,BASES="0xfffffffeu,0xffffffffu"), sm("in3",5,ATT=3,NIN=1,OUTCOMES=2), sm("in2_xfer",5,NIN=1,XFER=3)]
H=OUT()+ACK()+IN
if __name__=="__main__": main("C99",H)
