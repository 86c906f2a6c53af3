"""C18: partial application is the same as one complete call."""
from vx import Unit
from contracts.libbind import *


def partials():
    u = Unit('partial')
    base(u)
    u.text(LEMMAS)
    binder(u)
    u.text(CALLS)
    opened(u)
    u.text(COMPLETE + SAME_CALL)
    partial(u)
    return u


UNITS = [partials]
