import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
import _neg, _life
from world import *
H = _neg.configs(3) + _neg.HDR(3)
if __name__ == "__main__":
    main("C03", H, assumptions=_neg.ASSUME)
