"""Bit-precise obligations over the finite family of all positions of 32-bit words."""
import time
import z3
from .bv import U, BVExec, valid, parity

s = z3.BitVec('s', 32)
S = U(s, 32, False)


def bit(w, p):
    return z3.Extract(p, p, w) == 1


def between(w, a, b):
    """parity of the bits a..b-1"""
    r = z3.BitVecVal(0, 1)
    for k in range(a, b):
        r = r ^ z3.Extract(k, k, w)
    return r


def sgn(X, v, par):
    """integer value v is (-1)**par"""
    return X.wide(v) == z3.If(par == 1, z3.BitVecVal(-1, 66), z3.BitVecVal(1, 66))


def conj(pc):
    return z3.And(*pc) if pc else z3.BoolVal(True)


def sweep(g, what, X, cases, check, assume=lambda *a: []):
    """check(case, paths) -> list of z3 claims; one obligation for the whole finite family of positions"""
    t = time.time()
    n = 0
    for case in cases:
        X.pc = assume(*case)
        paths = X.paths(lambda: check.run(X, *case))
        for pc, kind, v in paths:
            for name, claim in check.post(X, kind, v, *case):
                st, d = ('discharged', '') if z3.is_true(z3.simplify(claim)) else valid(claim, list(X.pc) + list(pc))
                n += 1
                if st != 'discharged':
                    g.add(what, st, 'z3 QF_BV', time.time() - t, '%s at %s: %s' % (name, case, d))
                    return
    g.add(what, 'discharged', 'z3 QF_BV', time.time() - t, '%d bit-vector conditions over %d position tuples' % (n, len(cases)))


class Check:
    def __init__(self, run, post):
        self.run, self.post = run, post


POSN = [(p, n) for n in range(1, 33) for p in range(n)]
POS2 = [(i, j) for i in range(32) for j in range(32) if i != j]
