import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
F="XMPP_CONN_FLAG_"
def LH(n, **d): return WH(n, "harness/w_life.c", ["-D%s=%s"%kv for kv in d.items()], flags=["--path-time","30"], bounds="elapsed time symbolic (ms), one or two steps; all flag words")
LIFE=[LH("flags",MODE=0), LH("connect5s",MODE=1),
 LH("feat1",MODE=2,STAGE=1), LH("feat_tls",MODE=2,STAGE=2,NOMECH=2), LH("feat_sasl",MODE=2,STAGE=3), LH("feat_zlib_wait",MODE=2,STAGE=3,FLAGS=F+"ENABLE_COMPRESSION"),
 LH("feat_zlib",MODE=2,STAGE=4,FLAGS=F+"ENABLE_COMPRESSION"),
 LH("feat_legacy",MODE=2,STAGE=1,NOMECH=1,FALLBACK=1,FLAGS=F+"LEGACY_AUTH"),
 LH("bind",MODE=2,STAGE=10), LH("session",MODE=2,STAGE=11), LH("legacy",MODE=2,STAGE=12,NOMECH=1,FLAGS=F+"LEGACY_AUTH"), LH("handshake",MODE=2,STAGE=13,COMPONENT=1),
 LH("close2s",MODE=3), LH("close2s_comp",MODE=3,COMPONENT=1)]
H=LIFE
if __name__=="__main__": main("C99",H)
