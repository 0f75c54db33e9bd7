import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
def zh(n, b, tier="quick", BUF=16, MBUF=8, **d):
    d.setdefault("SYM",1); d.setdefault("FRAG",0)
    return WH(n,"harness/w_zip.c",["-DSTROPHE_COMPRESSION_BUFFER_SIZE=%d"%BUF,"-DSTROPHE_MESSAGE_BUFFER_SIZE=%d"%MBUF]+["-D%s=%s"%kv for kv in d.items()], flags=["--path-time","60"], tier=tier, weak_reach=True, bounds=b+" (staging buffer %d, read buffer %d)"%(BUF,MBUF))
H=[zh("negotiation","compression confirmed, refused, answered with something else; symbolic inbound fragmentation",MODE=0,FRAG=1),
   zh("out3","3 actions (queue an element of 1..2*buffer+3 bytes, loop with 0..buffer+1 or unlimited bytes accepted)",MODE=1,NACT=3),
   zh("out4","4 actions, staging buffer 12",MODE=1,NACT=4,BUF=12,SYM=0),
   zh("in2","2 tokens (literal, runs expanding up to 3*read buffer+1, more literals than the staging buffer, flush marker), arbitrary fragmentation",MODE=2,NTOK=2,FRAG=1),
   zh("in3","3 tokens",MODE=2,NTOK=3),
   zh("out_4096","2 actions with the real buffer sizes",MODE=1,NACT=2,BUF=4096,MBUF=4096,SYM=0),]
if __name__ == "__main__":
    main("C20", H, assumptions=["allocation succeeds","zlib behaves as documented (modelled by a codec with the same buffering contract)"])
