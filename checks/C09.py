import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from world import *
LR = ["src/%s.c" % s for s in "ctx stanza hash util parser_expat".split()]
def sh(n, b, tier="quick", **d):
    d.setdefault("WHERE", 0)
    return WH(n, "harness/w_stz.c", ["-D%s=%s" % kv for kv in d.items()], repo=LR, flags=["--path-time", "60"], tier=tier, bounds=b)
H = []
for n in (1, 2, 3, 4): H.append(sh("text%d" % n, "every text of %d non-zero bytes" % n, MODE=1, WHERE=1, L1=n, L2=0, L3=0))
for n in (1, 2, 3, 4): H.append(sh("attr%d" % n, "every attribute value of %d non-zero bytes" % n, MODE=1, WHERE=2, L1=n, L2=0, L3=0))
for n, m in ((1, 0), (1, 1), (2, 1), (1, 2), (2, 2)): H.append(sh("ns%d%d" % (n, m), "every root namespace of %d bytes and child namespace of %d bytes" % (n, m), MODE=1, WHERE=3, L1=n, L2=m, L3=0))
H.append(sh("mixed", "attribute of a child, its text and a text beside it, one free byte each", MODE=1, WHERE=4, L1=1, L2=1, L3=1))
H += [sh("shape3", "trees of 3 elements, 4 namespaces, up to 10 attributes, text between, two ways to build", MODE=2, NE=3),
      sh("shape4", "trees of 4 elements", "thorough", MODE=2, NE=4),
      sh("size", "rendered length from 1012 to 1040 in four places", MODE=3),
      sh("copy2", "copy of a tree or a subtree of 2 elements, then one of 18 edits on either side or release", MODE=4, NE=2),
      sh("copy3", "same with 3 elements", "thorough", MODE=4, NE=3),
      sh("reply", "xmpp_stanza_reply to any combination of attributes, symbolic from and id", MODE=5, KIND=0),
      sh("reply_error", "xmpp_stanza_reply_error, symbolic from, id and text", MODE=5, KIND=1),
      sh("helpers", "xmpp_message_new/iq_new/presence_new/message_set_body, symbolic arguments", MODE=5, KIND=2),
      sh("stream_errors", "every stream error condition, symbolic text", MODE=5, KIND=3),
      sh("edit3", "3 edits", MODE=6, NOPS=3),
      sh("edit4", "4 edits", "thorough", MODE=6, NOPS=4)]
if __name__ == "__main__":
    main("C09", H, assumptions=["allocation succeeds", "element and attribute names are XML names, prefixed attributes other than xml: are not judged",
         "the independent parser accepts every byte other than zero as a character: characters XML 1.0 cannot represent and invalid UTF-8 are only required not to alter the structure",
         "xmpp_stanza_new_from_string runs the real parser_expat.c on a model of expat"])
