import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib.core import *
R = ["src/crypto.c", "src/sha1.c"]
X = ["models/alloc.c", "models/nolog.c", "models/cbmc_rt.c"]
H = []
# one query set per concrete length: lengths are exhaustive up to the bound, contents are symbolic
for n in list(range(0, 33)) + [48, 64, 96]:
    H.append(Harness("b64_encode_len%02d" % n, "harness/c18_base64.c", R, X, ["-DENC", "-DN=%d" % n, "-DLEN=%d" % n], unwind=300,
                     bounds="all byte strings of length %d: encode, decode_bin, decode_str" % n, tier="quick" if n <= 18 or n in (24,) else "thorough", timeout=800))
for n in list(range(0, 33)) + [48, 64, 96]:
    H.append(Harness("b64_decode_len%02d" % n, "harness/c18_base64.c", R, X, ["-DN=%d" % n, "-DLEN=%d" % n], unwind=300,
                     bounds="all character strings of length %d (any of the 256 byte values)" % n, tier="quick" if n <= 17 or n in (20, 24, 32) else "thorough", timeout=800))
H.reverse()
if __name__ == "__main__":
    main("C18", H, assumptions=["allocation succeeds", "strings longer than the bound are outside the claim",
                                "for correctly padded strings with non-zero unused trailing bits either verdict is accepted (RFC 4648 3.5), the value is still checked"])
