import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
LR = ["src/%s.c" % s for s in "ctx stanza hash util parser_expat".split()]
def fh(n, b, tier="quick", **d):
    d.setdefault("CUT2", 0)
    return WH(n, "harness/w_feed.c", ["-D%s=%s" % kv for kv in d.items()], repo=LR, flags=["--path-time", "60"], tier=tier, bounds=b)
H = []
for i in range(8):
    H.append(fh("cut_doc%d" % i, "document %d cut at any two places" % i, MODE=1, DOC=i, CUT2=1))
    H.append(fh("small_doc%d" % i, "document %d in pieces of 1 to 7 bytes" % i, MODE=4, DOC=i))
for i in (0, 1, 3, 7): H.append(fh("reset_doc%d" % i, "reset after any prefix of document %d, then one of two documents" % i, MODE=3, DOC=i))
for p in range(8): H.append(fh("sym%d" % p, "2 arbitrary bytes at place %d, cut around them" % p, MODE=2, POS=p, NSYM=2))
for p in range(8): H.append(fh("sym3_%d" % p, "3 arbitrary bytes at place %d, cut around them" % p, "quick", MODE=2, POS=p, NSYM=3))
for p in (0, 1, 2): H.append(fh("sym4_%d" % p, "4 arbitrary bytes at place %d, cut around them" % p, "quick", MODE=2, POS=p, NSYM=4))
for i in range(6):
    for b in (16, 4096)[1 if i in (1, 2, 3) else 0:]: H.append(WH("conn_doc%d_%d" % (i, b), "harness/w_raw.c", ["-DDOC=%d" % i, "-DSTROPHE_MESSAGE_BUFFER_SIZE=%d" % b], flags=["--path-time", "60"], bounds="raw connection, first stream %d, restart, second stream, one cut anywhere in either, reads of at most %d bytes" % (i, b)))
if __name__ == "__main__":
    main("C10", H, assumptions=["allocation succeeds", "expat itself is a model: a push parser written from the XML and namespace specifications that reports character data in pieces (at cuts, line ends, references and CDATA borders) as expat does"])
