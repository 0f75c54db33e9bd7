import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
def dh(n, b, tier="quick", **d):
    return WH(n,"harness/w_dns.c",["-Dres_query=vf_res_query"]+["-D%s=%s"%kv for kv in d.items()], WR+["src/resolver.c"], flags=["--path-time","60"], tier=tier, weak_reach=True, bounds=b)
H=[dh("order","up to 4 SRV targets with symbolic 16-bit priorities and weights, every attempt refused",NT=4,MAXA=0,OUTS=1,SYMPRIO=1),
   dh("order_mixed","up to 3 SRV targets with symbolic priorities and weights, 0..1 addresses each, every outcome",NT=3,MAXA=1,OUTS=4,SYMPRIO=1),
   dh("outcomes","up to 2 targets, 0..2 addresses each, every outcome of every attempt",NT=2,MAXA=2),
   dh("outcomes3","up to 3 targets, 0..1 addresses each, every outcome of every attempt",NT=3,MAXA=1),
   dh("addresses","one target, up to 4 addresses, every outcome of every attempt",NT=1,MAXA=4),
   dh("again","up to 2 targets, 0..1 addresses, two connections on the same object",NT=2,MAXA=1,CYCLES=2,OUTS=4),
   dh("no_socket","up to 2 targets, 0..2 addresses each, socket() itself may fail",NT=2,MAXA=2,OUTS=4,SOCKF=1),
   dh("explicit","explicit host, legacy SSL, component and raw connections; with and without a port; up to 2 addresses",MODE=1,MAXA=2)]
if __name__ == "__main__":
    main("C14", H, assumptions=["allocation succeeds","DNS answers are well-formed here (C15 decides the decoder); getaddrinfo returns the listed addresses or fails"])
