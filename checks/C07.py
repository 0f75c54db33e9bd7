import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
TK = ("-Dxmpp_base64_encode=tk_encode", "-Dxmpp_base64_decode_str=tk_dec_str", "-Dxmpp_base64_decode_bin=tk_dec_bin")
SR = [(f, TK) if f in ("src/auth.c", "src/sasl.c") else f for f in WR if f[4:] not in ("md5.c", "sha1.c", "sha256.c", "sha512.c")]
def ah(n, b, tier="quick", **d):
    return WH(n, "harness/w_sasl.c", ["-D%s=%s" % kv for kv in d.items()], repo=SR, flags=["--path-time", "60"], tier=tier, bounds=b)
H = []
for m, a in ((1, "sha1"), (2, "sha256"), (3, "sha512")):
    H += [ah("scram_" + a, "user names of 2 bytes, passwords of 3, salts of 3, server nonces of 2, iteration counts 1 to 5, no TLS", MECH=m, LU=2, LP=3, LSALT=3, ITERS='"1","2","3","5"'),
          ah("scram_%s_tls" % a, "the same over TLS without channel binding", MECH=m, TLS=1, ITERS='"1","2"'),
          ah("scram_%s_plus" % a, "channel binding: tls-exporter (32 bytes), tls-unique (12, 36)", MECH=m, PLUS=1, ITERS='"1","2"'),
          ah("scram_%s_ext" % a, "an extension after the iteration count", MECH=m, VAR=1, ITERS='"4"'),
          ah("scram_%s_badnonce" % a, "a server that does not return the client nonce", MECH=m, VAR=2, ITERS='"2"')]
    bl = 128 if m == 3 else 64
    for l in (0, 1, bl - 1, bl, bl + 1): H.append(ah("scram_%s_pw%d" % (a, l), "passwords of %d bytes, the last two of them free" % l, MECH=m, LP=l, FIXP=max(0, l - 2), LSALT=16, ITERS='"2"'))
    for l in (1, 2, 20): H.append(ah("scram_%s_salt%d" % (a, l), "salts of %d bytes" % l, MECH=m, LSALT=l, ITERS='"2"'))
H += [ah("digest_md5", "user names of 1, passwords of 2, realms of 0 to 2 and nonces of 2 bytes, five qop lists", MECH=4, VAR=0), ah("digest_md5_order", "other order of directives", MECH=4, VAR=1), ah("digest_md5_long", "passwords of 70 bytes", MECH=4, LP=70, FIXP=69, LN=3)]
for u in (1, 3): 
    for p in (1, 4): H.append(ah("plain_%d%d" % (u, p), "user names of %d and passwords of %d bytes" % (u, p), MECH=5, LU=u, LP=p))
H += [ah("external", "0 to 2 addresses in the certificate", MECH=6, TLS=1, LU=1), ah("anonymous", "no identity", MECH=7), ah("legacy", "user names and passwords of 2 bytes", MECH=8, LU=2, LP=2), ah("legacy3", "passwords of 3 bytes", MECH=8, LU=1, LP=3),
      ah("component", "stream ids of 3 and secrets of 3 bytes", MECH=9, LN=3, LP=3), ah("component_long", "secrets of 70 bytes", MECH=9, LN=1, LP=70, FIXP=68)]
TR = WR + [("src/tls_openssl.c", ("-Dgetenv=vf_getenv",))]
H += [WH("binding", "harness/w_cb.c", repo=TR, flags=["--path-time", "60"], bounds="SSL 3 to TLS 1.3 and unknown versions, full and resumed handshakes, Finished messages of 0 to 64 bytes, exporter results 1, 0, -1; two attempts on one session object; all bytes free"),
      WH("nonce_os", "harness/w_rand.c", repo=WR + [("src/rand.c", ("-Dgetrandom=vf_getrandom",))], bounds="getrandom() with up to 3 interruptions or short reads, nonces of 15 to 20 digits"),
      WH("nonce_os_ndebug", "harness/w_rand.c", repo=WR + [("src/rand.c", ("-Dgetrandom=vf_getrandom", "-DNDEBUG"))], bounds="the same with assertions compiled out"),
      WH("nonce_drbg", "harness/w_rand.c", ["-DDRBG=1", "-Dclock=vf_clock"], repo=[f for f in WR if f[4:] not in ("md5.c", "sha1.c", "sha256.c", "sha512.c")] + [("src/rand.c", ("-DDONT_USE_GETRANDOM",))], bounds="built without getrandom(): 4 attempts of one context and 2 of another, all clock values, nonces of 20 and 32 digits")]
if __name__ == "__main__":
    main("C07", H, assumptions=["allocation succeeds", "hash functions are uninterpreted and injective here (C17 decides them), base64 is an opaque injective encoding (C18 decides it)"])
