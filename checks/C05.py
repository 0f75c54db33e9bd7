import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
import _sm
from world import *
H = _sm.IN
if __name__ == "__main__":
    main("C05", H, assumptions=_sm.ASSUME)
