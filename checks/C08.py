import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
TR = WR + [("src/tls_openssl.c", ("-Dgetenv=vf_getenv",))]
def th(n, b, tier="quick", **d):
    return WH(n, "harness/w_tls.c", ["-D%s=%s" % kv for kv in d.items()], repo=TR, flags=["--path-time", "60"], tier=tier, bounds=b)
W = ("STARTTLS", "legacy SSL", "raw connections with xmpp_conn_tls_start()")
H = []
for s in (0, 1, 2):
    H.append(th("matrix_%d" % s, W[s] + ": trust flag x no/accepting/rejecting/removed callback x issuer in the default store, in the user's CA, unknown, self-signed x chains of 1 and 2 x validity of each certificate x 10 names x CA file/path; trouble in the handshake and in the library", START=s, FULL=1))
    H.append(th("again_%d" % s, W[s] + ": the same as second connection of an object whose first attempt was valid, trusted by flag, accepted by the user or refused", START=s, FULL=2))
if __name__ == "__main__":
    main("C08", H, assumptions=["OpenSSL behaves as its manual pages say (harness/ossl.h): order of verification, verify callback, host name flags, verify modes", "allocation succeeds"])
