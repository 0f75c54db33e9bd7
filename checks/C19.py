import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib.core import *
R = ["src/jid.c"]
ENG = "symx"
X = ["models/alloc.c", "models/nolog.c", "models/cbmc_rt.c", "models/cbmc_libc.c"]
H = []
for n in range(0, 25):
    H.append(Harness("jid_split_len%02d" % n, "harness/c19_jid.c", R, X, ["-DSPLIT", "-DLEN=%d" % n], unwind=80, engine=ENG, weak_reach=n < 2,
                     bounds="all NUL-free strings of length %d" % n, tier="quick" if n <= 12 else "thorough", timeout=800))
for a, b, c, t in [(a, b, c, "quick") for a in (-1, 0, 1, 3) for b in (-1, 0, 1, 3) for c in (-1, 0, 2, 4)] + \
                  [(a, b, c, "thorough") for a in (5, 8) for b in (2, 7) for c in (-1, 6)]:
    H.append(Harness("jid_join_%d_%d_%d" % (a, b, c), "harness/c19_jid.c", R, X, ["-DNL=%d" % a, "-DDL=%d" % b, "-DRL=%d" % c], unwind=80, engine=ENG, weak_reach=True,
                     bounds="all part contents with lengths node=%d domain=%d resource=%d (-1: absent)" % (a, b, c), tier=t, timeout=800))
for a, b, c in ((1023, 1, 1), (1024, 1, 1), (1, 1023, 1), (1, 1024, 1), (1, 1, 1023), (1, 1, 1024), (1023, 1023, 1023), (1025, 2, -1), (-1, 1025, -1), (-1, 2, 1025), (1022, 1022, 1022)):
    H.append(Harness("jid_limit_%d_%d_%d" % (a, b, c), "harness/c19_jid.c", R, X, ["-DNL=%d" % a, "-DDL=%d" % b, "-DRL=%d" % c, "-DFILL=1"], unwind=3100, engine=ENG, weak_reach=True,
                     bounds="part lengths at the limits node=%d domain=%d resource=%d, first and last byte of each part symbolic" % (a, b, c), timeout=800))
if __name__ == "__main__":
    main("C19", H, assumptions=["allocation succeeds", "xmpp_jid_new on a domain containing '/' or '@' is outside the statement and not judged"])
