"""C02: every token's text has the lexical form of its kind."""
from vx import Unit
from contracts.liblex import *


def tokens(i):
    def unit():
        u = Unit('next_token_' + CASES[i][0])
        kinds(u)
        lexer(u)
        next_token(u, i)
        return u
    unit.__name__ = CASES[i][0]
    return unit


UNITS = [tokens(i) for i in range(len(CASES))]
