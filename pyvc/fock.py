"""Contracts of operators.py, lookup.py and the sector bases (proved under C01, C02 and C03), used where other functions call them."""
from . import terms as T
from . import prove
from .terms import lift, Poly
from .interp import *

I_ = lambda n, *a: T.app(n, *a, sort='I')


def _par(s, i, j):
    i, j = sorted((int(i), int(j)))
    return 1 - 2 * (bin((int(s) >> (i + 1)) & ((1 << max(j - i - 1, 0)) - 1)).count('1') % 2)


def _sgn(s, p, n):
    return 1 - 2 * (bin((int(s) >> (int(p) + 1)) & ((1 << max(int(n) - int(p) - 1, 0)) - 1)).count('1') % 2)


prove.INTERP.update(par=_par, sgn=_sgn, flip=lambda s, p: int(s) ^ (1 << int(p)) if 0 <= p < 64 else 0,
                    hop=lambda s, i, j: int(s) ^ (1 << int(i)) ^ (1 << int(j)) if 0 <= i < 64 and 0 <= j < 64 else 0)


def bit(s, i):
    return I_('bit', s, i)


def args(f, a, kw):
    names = [x.arg for x in f.node.args.args]
    d = dict(zip(names, a), **kw)
    return [d[x] for x in names if x in d]


def cdgc(I, f, a, kw):
    """sign and configuration of c+_i c_j |s>"""
    s, i, j = [I.num(x) for x in args(f, a, kw)]
    return I_('par', s, i, j), Word.of(I_('hop', s, i, j))


def c_op(full):
    def op(I, f, a, kw):
        """sign and configuration of c_pos |s> (or c+_pos |s>); refuses the wrong occupation"""
        w, pos, n = args(f, a, kw)
        s, pos, n = I.num(w), I.num(pos), I.num(n)
        occ = bit(s, pos)
        ok = T.cmp_eq(occ, 1 if full else 0)
        if not I.decide(ok):
            raise PyExc('AssertionError')
        return I_('sgn', s, pos, n), Word.of(I_('flip', s, pos))
    return op


def lookup(I, f, a, kw):
    """position of a configuration in a sorted basis"""
    st, s = args(f, a, kw)
    nm, ps = basis_name(st)
    return I_('pos:' + nm, *ps, I.num(s))


def basis_name(st):
    x = T.fresh('q')
    v = lift(st.get(x))
    (m, c), = v.t.items()
    a = m[0][0]
    if c != 1 or len(m) != 1 or a.kind != 'App' or not a.args[-1] == x:
        raise Unsupported('lookup in an array that is not a basis')
    return a.args[0], a.args[1:-1]


def install(I, *names):
    c = dict(cdgc=cdgc, c=c_op(True), cdg=c_op(False), binsearch=lookup)
    for k in names or c:
        I.contracts[k] = c[k]
