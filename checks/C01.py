import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
import _neg, _life
from world import *
H = _neg.configs(1) + _neg.HDR(1) + _neg.ERR(1)
if __name__ == "__main__":
    main("C01", H, assumptions=_neg.ASSUME)
