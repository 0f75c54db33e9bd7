import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
import _neg, _sm
from _neg import cfg
from _sm import sm
import C09, C10, C14, C20, C11
BY = tuple("-D%s=lib_%s" % (f, f) for f in "malloc calloc realloc free strdup strndup".split())
def rp(l): return [(f[0] if isinstance(f, tuple) else f, BY) for f in l]
LR = ["src/%s.c" % s for s in "ctx stanza hash util parser_expat".split()]
LK = ["-DLEAK", "-DW_TRACK"]
def own(h, name=None, **kw):                               # another property's harness, judged for ownership only
    h.repo = rp(h.repo); h.defs = LK + h.defs; h.weak_reach = True
    if name: h.name = name
    for k, v in kw.items(): setattr(h, k, v)
    return h
def lh(n, main, b, tier="quick", shards=1, **d):
    return WH(n, main, LK + ["-D%s=%s" % kv for kv in d.items()], repo=rp(LR), flags=["--path-time", "60"], tier=tier, shards=shards, bounds=b)
def ch(n, main, b, tier="quick", shards=1, repo=None, extra=(), **d):
    return WH(n, main, LK + list(extra) + ["-D%s=%s" % kv for kv in d.items()], repo=rp(repo or WR), flags=["--path-time", "60"], tier=tier, shards=shards, bounds=b)
H = [lh("stanza3", "harness/w_mem.c", "every program of 3 operations over stanzas (13 kinds), three starting trees", shards=4, NOPS=3),
     lh("stanza4", "harness/w_mem.c", "every program of 4 operations over stanzas", "thorough", shards=8, NOPS=4),
     lh("two_contexts", "harness/w_twoctx.c", "two contexts with allocators of their own, stanzas in both, parsing in one", PARSE2=0),
     lh("two_contexts_parse", "harness/w_twoctx.c", "two contexts with allocators of their own, parsing in both", PARSE2=1)]
for st in range(6):
    H.append(ch("conn3_%d" % st, "harness/w_conn.c", "every program of 3 operations (14 kinds) over connections from stage %d" % st, START=st, NOPS=3))
    H.append(ch("conn4_%d" % st, "harness/w_conn.c", "every program of 4 operations (14 kinds) over connections from stage %d" % st, "thorough", START=st, NOPS=4, shards=2))
def byname(l, names): return [h for h in l if h.name in names]
H += [own(cfg(n, 12)) for n in "zlib legacy full external plus digest component plain tlsfailm".split()]
H += [own(cfg(n, 12, d=["ERRALL"], hname="streamerr_" + n)) for n in ("component",)]
H += [own(sm("out2_transfer", 12, NSEND=1, XFER=1)), own(sm("in2_xfer", 12, NIN=1, XFER=3)), own(sm("out3", 12, ATT=3, MID0=1, ACKS=1))]
H += [own(h, "dns_" + h.name) for h in byname(C14.H, ["outcomes", "no_socket", "explicit"])]
H += [own(h, "zip_" + h.name) for h in byname(C20.H, ["out3", "in2", "negotiation"])]
H += [own(h, "hand_" + h.name) for h in byname(C11.H, ["dispatch2b", "reconnect", "timed2", "match_11"])]
H += [own(h, "stz_" + h.name) for h in byname(C09.H, ["copy2", "edit3", "reply", "reply_error", "helpers", "stream_errors", "text2", "size"])]
H += [own(h, "xml_" + h.name) for h in byname(C10.H, ["cut_doc%d" % i for i in range(8)] + ["reset_doc%d" % i for i in (0, 1, 3, 7)] + ["sym%d" % i for i in range(8)] + ["conn_doc%d_16" % i for i in (0, 2, 4, 5)])]
if __name__ == "__main__":
    main("C12", H, assumptions=["allocation succeeds", "xmpp_conn_release is not called from inside a callback", "the program respects the documented ownership rules",
         "expat, zlib, TLS, sockets and DNS are models: what they allocate is requested through the hooks they are given"])
