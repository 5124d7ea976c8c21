"""Contracts for compressed-row storage shared by the one-body and interaction builders (C05, C06)."""
from .vc import *
from .tape import Tape, fold_rows
from . import fock

H = 'edpyt.ham_hopping'
TOL = T.lift(1e-7)
A_ = lambda i, j: T.app('A', i, j)
W_ = lambda c: T.app('w', c)
V_ = lambda c: T.app('v', c)


def bit(x, i):
    return T.app('bit', x, i, sort='I')


def significant(i, j, a=A_):
    """1 when entry (i, j) is off the diagonal and larger than the threshold"""
    return (1 - T.cmp_eq(i, j).poly()) * T.cmp_lt(TOL, T.abs_(a(i, j)) if hasattr(T, 'abs_') else T.app('abs', a(i, j))).poly()


def flow(g, t, what):
    """every write of the cursor is inside the storage and every column inside the matrix"""
    for o in t.overflow:
        g.true(what + (': column numbers are inside the matrix' if len(o) > 2 else ': no write beyond the storage'), o[1], *o[0])


def taped(g, rows, cols, w='w', v='v'):
    """empty_csrmat by its contract: storage under construction"""
    made = []

    def f(I, fn, args, kw):
        names = ['nnz', 'shape']
        d = dict(zip(names, args), **kw)
        sh = d['shape']
        t = Tape(I, sh[0], sh[1], I.num(d['nnz']), w=w, v=v)
        made.append(t)
        return I.call(I.get(H, 'cs_type'), [t.arr('x'), t.arr('ptr'), t.arr('c'), tuple(sh)])
    g.I.contracts['empty_csrmat'] = f
    return made


def one(g, made):
    if len(made) != 1:
        raise Unsupported('%d matrices allocated' % len(made))
    t = made[0]
    if t.G['p'] is not None:
        raise Unsupported('a record left incomplete')
    return t


def tape_of(g, o):
    t = getattr(g.I.getattr(o, 'data'), 'attrs', {}).get('tape')
    if t is None:
        raise Unsupported('the values are not an array that was filled')
    if t[0].G['p'] is not None:
        raise Unsupported('a record left incomplete')
    return t[0]


def fields(g, o, t):
    at = lambda k: getattr(g.I.getattr(o, k), 'attrs', {}).get('tape')
    g.same('data, indices and indptr are the arrays that were filled', [at(k) for k in ('data', 'indices', 'indptr')] == [(t, 'x'), (t, 'c'), (t, 'ptr')])


def stored(g, tag, rows, cols):
    """the one-body matrix as nnz_offdiag_csrmat stores it: (object, rewriting by its contract)"""
    nnz = T.var(tag + 'nnz')
    x, ix, ip = tag + 'x', tag + 'ix', tag + 'ip'
    g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_lt(Poly.atom(a), cols)] if a.kind == 'App' and a.args[0] == ix else [])
    o = g.I.call(g.I.get(H, 'cs_type'), [sym(x, (nnz,)), sym(ip, (rows + 1,), 'I'), sym(ix, (nnz,), 'I'), (rows, cols)])
    return o


def unfold(p, tag, n, a):
    r = fold_rows(p, tag + 'ip', tag + 'ix', tag + 'x',
                  lambda r, F: ssum(n, lambda j: significant(r, j, a) * a(r, j) * F(j)),
                  lambda r, F: ssum(n, lambda j: significant(r, j, a) * F(j)))
    if poly_fns(r) & {tag + 'ip', tag + 'ix', tag + 'x'}:
        raise Unsupported('the stored one-body matrix is read in a way its contract does not cover')
    return r


def one_body(g, tags):
    """count_nnz_offdiag and nnz_offdiag_csrmat by their contracts; tags: name of the matrix by its content function"""
    def tag_of(a):
        x, y = T.fresh('x'), T.fresh('y')
        v = lift(a.get(x, y))
        (m, c), = v.t.items()
        at = m[0][0]
        if c != 1 or len(m) != 1 or at.kind != 'App' or (at.args[-2], at.args[-1]) != (x, y) and list(at.args[-2:]) != [x, y]:
            raise Unsupported('one-body matrix that is not an argument')
        return tags(at)

    def count(I, f, a, kw):
        return T.var(tag_of(fock.args(f, a, kw)[0]) + 'nnz')

    def build(I, f, a, kw):
        A, nnz = fock.args(f, a, kw)
        t = tag_of(A)
        if not I.same_dim(I.num(nnz), T.var(t + 'nnz')):
            raise Unsupported('storage of another size than the number of significant entries')
        return stored(g, t, A.shape[0], A.shape[0])
    g.I.contracts['count_nnz_offdiag'] = count
    g.I.contracts['nnz_offdiag_csrmat'] = build


