"""C17: function calls bind every parameter exactly once."""
from vx import Unit
from contracts.libbind import *


def binding():
    u = Unit('binder')
    base(u)
    u.text(LEMMAS)
    binder(u)
    calls(u)
    u.text(COMPLETE)
    return u


UNITS = [binding]
