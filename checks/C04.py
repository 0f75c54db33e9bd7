import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0]); sys.path.insert(0, __file__.rsplit("/", 1)[0])
import _sm
from world import *
H = _sm.ACK() + _sm.OUT() + _sm.OUTX()
if __name__ == "__main__":
    main("C04", H, assumptions=_sm.ASSUME)
