import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib.core import *
R = ["src/resolver.c"]
X = ["models/alloc.c", "models/nolog.c", "models/cbmc_rt.c", "models/cbmc_libc.c"]
H = []
def h(name, defs, bounds, tier="quick", shards=1):
    H.append(Harness("srv_" + name, "harness/c15_srv.c", R, X, defs, engine="symx", weak_reach=True, shards=shards, bounds=bounds, tier=tier, timeout=800, flags=["--max-steps", "3000000", "--path-time", "20"]))
for n in list(range(0, 14)):
    h("any_len%02d" % n, ["-DLEN=%d" % n], "all byte buffers of length %d" % n)
h("any_len14", ["-DLEN=14"], "all byte buffers of length 14", "thorough", 8)
def gen(name, qd, an, qk, ok, tk, extra=(), tier="quick", shards=1, free=4):
    if set(ok + [t % 50 for t in tk]) & {3, 4, 5}:
        extra = list(extra) + ["-DPLAIN"]
    h(name, ["-DGEN", "-DMAXLEN=700", "-DQDN=%d" % qd, "-DANN=%d" % an, "-DQK=%d" % qk, "-DOKINDS=" + ",".join(map(str, ok)), "-DTKINDS=" + ",".join(map(str, tk)), "-DFREE=%d" % free] + list(extra),
      "responses with %d question(s) (name shape %d), %d answer(s) (owner shapes %s, target shapes %s), every other byte symbolic %s" % (qd, qk, an, ok, tk, " ".join(extra)), tier, shards)
# one answer, all name shapes; type/class/rdlength symbolic; truncated anywhere
for ok in (0, 1, 3, 4):
    for tk in (0, 1, 2, 3, 4, 5):
        gen("one_o%d_t%d" % (ok, tk), 0, 1, 0, [ok], [tk], ["-DTRUNC=%d" % (4 if tk == 5 or ok == 4 and tk > 2 else 26), "-DTAIL=2"], tier="thorough" if (ok, tk) in ((3, 5), (4, 5), (4, 4)) else "quick", shards=4 if (ok, tk) in ((3, 5), (4, 5), (4, 4)) else 1)
for f in (1, 2, 3, 5, 6, 7):
    gen("free%d" % f, 0, 1, 0, [0], [105], ["-DTRUNC=4"], free=f, tier="quick" if f < 6 else "thorough", shards=1 if f < 6 else 4)
    gen("freeowner%d" % f, 0, 1, 0, [5], [151], ["-DTRUNC=4"], free=f)
gen("flags", 1, 1, 1, [3], [151], ["-DSYMFLAGS"])
for tk in (0, 1, 3, 4):
    gen("q1_t%d" % tk, 1, 1, 1, [0], [150 + tk], ["-DTRUNC=10"])
    gen("q1r_t%d" % tk, 1, 1, 2, [3], [150 + tk], tier="quick" if tk < 3 else "thorough", shards=1 if tk < 3 else 4)
# two and three answers, exact rdlength, symbolic types: ordering, filtering, short trailing records
gen("two_sym", 1, 2, 1, [0, 0], [51, 54])
gen("two_sym2", 1, 2, 1, [3, 3], [51, 54], tier="thorough", shards=4)
gen("two_short", 0, 2, 0, [0, 0], [151, 0], ["-DTRUNC=8"])
gen("two_srv", 1, 2, 1, [0, 0], [151, 152])
gen("three_srv", 0, 3, 0, [0, 0, 0], [151, 150, 151])
gen("three_mix", 0, 3, 0, [0, 0, 0], [51, 50, 51])
gen("four_srv", 0, 4, 0, [0, 0, 0, 0], [150, 150, 150, 151], tier="thorough", shards=4)
# long names: at and over the 256-byte target
gen("long_direct", 0, 1, 0, [0], [156])
gen("long_ptr", 1, 1, 6, [0], [157])
gen("long_chain3", 3, 1, 6, [0], [157])
gen("long_chain4", 4, 1, 1, [0], [157])
gen("long_chain5", 5, 1, 1, [0], [157], tier="thorough")
H.reverse()
if __name__ == "__main__":
    main("C15", H, assumptions=["allocation succeeds", "the reference requires pointers to go strictly backwards and names of at most 253 characters; labels containing NUL and pointers straight to a root label are checked for safety and consistency only",
                               "buffers beyond the enumerated message structures are outside the claim"])
