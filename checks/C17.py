import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib.core import *
R = ["src/md5.c", "src/sha1.c", "src/sha256.c", "src/sha512.c", "src/scram.c", "src/crypto.c"]
X = ["models/alloc.c", "models/nolog.c"]
H = []
NAMES = {0: "md5", 1: "sha1", 2: "sha256", 3: "sha512"}
B = {0: 64, 1: 64, 2: 64, 3: 128}
def h(name, alg, defs, tier="quick", bounds="", timeout=850):
    H.append(Harness("%s_%s" % (NAMES[alg], name), "harness/c17_hash.c", R, X, ["-DALG=%d" % alg] + defs, engine="symx", tier=tier, bounds=bounds, timeout=timeout))
for a in NAMES:
    b = B[a]
    def rng(lo, hi, tier="quick"):
        h("one_%03d_%03d" % (lo, hi), a, ["-DONE", "-DL0=%d" % lo, "-DL1=%d" % hi], tier, "one-shot, every length %d..%d, all contents" % (lo, hi))
    for lo in range(0, 2 * b + 64, 32):
        rng(lo, lo + 31)
    for lo in range(2 * b + 64, 600, 32):
        rng(lo, lo + 31, "thorough")
    p = b - (16 if b == 128 else 8)
    for L in (p - 1, p, b - 1, b, b + 1, b + p, 2 * b, 2 * b + 1):
        h("split2_%03d" % L, a, ["-DSPLITS=2", "-DL0=%d" % L], "quick" , "two update calls, every cut (incl. empty pieces), length %d, all contents" % L)
    for L in list(range(1, 34)) + [3 * b - 1, 3 * b, 3 * b + 5]:
        h("split2_%03d" % L, a, ["-DSPLITS=2", "-DL0=%d" % L], "thorough" , "two update calls, every cut (incl. empty pieces), length %d, all contents" % L)
    for L in (b + 3, 2 * b + 2):
        h("split4_%03d" % L, a, ["-DSPLITS=4", "-DL0=%d" % L, "-DCUTS=0,1,%d,%d,%d,%d" % (p, b - 1, b, b + 1)], "quick", "three update calls + an empty one, first cut in {0,1,%d,%d,%d,%d}, second cut anywhere, length %d" % (p, b - 1, b, b + 1, L))
    h("split4_all_%03d" % (b + 9), a, ["-DSPLITS=4", "-DL0=%d" % (b + 9), "-DCUTS=" + ",".join(map(str, range(b + 10)))], "thorough", "three update calls at every pair of cuts, length %d" % (b + 9))
    h("chunk", a, ["-DCHUNK=%d" % (b + 2), "-DL0=%d" % (2 * b + 5)], "quick", "equal chunks of every size 1..%d, length %d" % (b + 2, 2 * b + 5))
    for L in (0, 1, p - 1, p, b - 1, b + 3, 2 * b):
        h("long_%03d" % L, a, ["-DLONG", "-DL0=%d" % L], "quick", "arbitrary chaining value; bit count with arbitrary high word (< 2^30) and low word at 0, 1024, 2^31 and the three block boundaries below 2^32, before the last %d bytes" % L)
    if a:
        D = {1: 20, 2: 32, 3: 64}[a]
        for L, t in [(0, "quick"), (1, "quick"), (16, "quick"), (b - 1, "quick"), (b, "quick"), (b + 1, "quick"), (2 * b + 1, "quick"), (33, "thorough"), (3 * b, "thorough")]:
            h("hmac_%03d" % L, a, ["-DHMAC", "-DSALT=%d" % D, "-DL0=%d" % L], t, "HMAC keys and texts of length %d, salt/key of %d bytes" % (L, D))
for L in (0, 5, 55, 56, 64, 70):
    h("public_%03d" % L, 1, ["-DPUBLIC", "-DL0=%d" % L], "quick", "xmpp_sha1* API, length %d, every cut" % L)
if __name__ == "__main__":
    main("C17", H, assumptions=["allocation succeeds", "reference digests (harness/ref_hash.h, ref_consts.h) transcribe FIPS 180-4 / RFC 1321 / RFC 2104"])
