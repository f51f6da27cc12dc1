from lang import *
import gen as G
import mem as M
from engine import Discard
from progs import ProgCheck, PCase


def case(s, n=None, opts=()):
    types = s.sample(INTS, s.range(2, 4))
    if I32 not in types:
        types.append(I32)
    g = M.MGen(s, types, opts)
    try:
        g.history(n or s.range(4, 24))
    except Stop:
        raise Discard
    nt = len(g.feat) >= 4 and len(g.it.out) >= 3
    return PCase(g.decl + g.helper_text(), "".join(g.lines), g.it.out, nontrivial=nt, labels=sorted(g.feat))


class C04(ProgCheck):
    id = "C04"
    rule = "random histories over structs, unions, nested and C arrays, pointers and pointer arithmetic (assignment, copies, literals, " \
           "indexing with run-time indices of any integer type, from-back indexing, address-of, calls by pointer and by value, byte views), " \
           "each step executed in a byte-addressed memory model; non-trivial: at least 4 kinds of feature and 3 emitted values"
    assumptions = ["only defined accesses (in range, non-null, live objects)", "padding bytes are never observed"]
    quick, thorough = 1200, 20000
    batch = 16

    def gen(self, s):
        return case(s)


CHECK = C04()
