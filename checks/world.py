import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib.core import *
STUB = ["select", "send", "recv", "socket", "connect", "close", "fcntl", "getpeername", "setsockopt", "getsockopt", "getaddrinfo",
        "freeaddrinfo", "gai_strerror", "inet_ntop", "gettimeofday", "usleep"]
WD = ["-D%s=vf_%s" % (s, s) for s in STUB]
WR = ["src/%s.c" % s for s in "auth compression conn crypto ctx event handler hash jid md5 parser_expat sasl scram sha1 sha256 sha512 sock stanza tls util".split()]
def WH(name, main, defs=(), repo=None, extra=(), **kw):
    kw.setdefault("timeout", 800)
    return Harness(name, main, repo or WR, ["models/cbmc_rt.c"] + list(extra), WD + list(defs), engine="symx", **kw)
