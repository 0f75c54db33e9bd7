import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
import _neg, _life
from world import *
H = _neg.configs(13) + _neg.HDR(13) + _neg.ERR(13) + _life.LIFE
if __name__ == "__main__":
    main("C13", H, assumptions=_neg.ASSUME)
