"""Eigen-spaces indexed by charges, and the contracts of the functions that project an operator between two of their sectors
(used by C11, C18, C19)."""
from .vc import *
from . import fock, prove

I_ = fock.I_
bit = fock.bit


def basis_facts(g, *names):
    """complete bases (C01) of the configurations with a given number of particles: the configuration reached by adding or
    removing a particle at an orbital is found in the neighbouring basis (C02)"""
    def fact(a):
        if a.kind != 'App':
            return []
        f = a.args[0]
        if f in ['dim:' + n for n in names]:
            return [T.cmp_le(1, Poly.atom(a))]
        if f not in ['pos:' + n for n in names]:
            return []
        out = []
        n = f[4:]
        to, s = a.args[1], _atom(a.args[2])
        if s is None or s.kind != 'App' or s.args[0] != 'flip':
            return []
        w, p = _atom(s.args[1]), s.args[2]
        if w is None or w.kind != 'App' or w.args[0] != n:
            return []
        frm, i = w.args[1], w.args[2]
        inb = in_range((i,), (I_('dim:' + n, frm),))
        there = in_range((Poly.atom(a),), (I_('dim:' + n, to),))
        for d, b in ((1, 0), (-1, 1)):
            pre = band(inb, T.cmp_eq(to, frm + d), T.cmp_eq(bit(Poly.atom(w), p), b))
            out.append(bor(bnot(pre), there))
        return out
    g.S.facts.append(fact)


def _atom(p):
    p = lift(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def names(g):
    positive(g, 'nev')
    basis_facts(g, 'bs', 'bt')
    fock.install(g.I, 'c', 'cdg', 'binsearch')
    g.I.get('edpyt.espace', 'SzStates')


def sector_q(g, a, b, pre=''):
    """the sector with charges (a, b): product of the complete bases with a up and b down particles, nev(a, b) eigenpairs"""
    du, dd = I_('dim:bs', a), I_('dim:bs', b)
    nev = T.app(pre + 'nev', a, b, sort='I')
    A = lambda f, shape: new(shape, f, 'R')
    st = g.I.call(g.I.get('edpyt.espace', 'SzStates'), [new((du,), lambda i: I_('bs', a, i), 'U'), new((dd,), lambda i: I_('bs', b, i), 'U')])
    o = g.I.call(g.I.get('edpyt.espace', 'Sector'), [st, du * dd, A(lambda j: T.app(pre + 'E', a, b, j), (nev,)),
                                                     A(lambda r, j: T.app(pre + 'vec', a, b, r, j), (du * dd, nev))])
    o.attrs['charges'] = (lift(a), lift(b))
    return o


def sector_t(g, N, pre=''):
    """the sector with N particles in all"""
    d, nev = I_('dim:bt', N), T.app(pre + 'nev', N, sort='I')
    A = lambda f, shape: new(shape, f, 'R')
    o = g.I.call(g.I.get('edpyt.espace', 'Sector'), [new((d,), lambda i: I_('bt', N, i), 'U'), d, A(lambda j: T.app(pre + 'E', N, j), (nev,)),
                                                     A(lambda r, j: T.app(pre + 'vec', N, r, j), (d, nev))])
    o.attrs['charges'] = (lift(N),)
    return o


def element(spin, full, pos, n, I, J, j, i):
    """<J j| op |I i> with op = c (full) or c+ of the given spin at orbital pos, from the definition: sum over the configurations of sector I
    on which the operator acts, with the sign of the occupied orbitals above it (of the same spin)"""
    (a, b), (a2, b2) = I, J
    x, y, x2 = (a, b, a2) if spin == 0 else (b, a, b2)
    du, dd, du2 = I_('dim:bs', a), I_('dim:bs', b), I_('dim:bs', a2)

    def term(q, r):
        s = I_('bs', x, q)
        t = I_('pos:bs', x2, I_('flip', s, pos))
        occ = T.cmp_eq(bit(s, pos), 1 if full else 0).poly()
        iJ, iI = (t + du2 * r, q + du * r) if spin == 0 else (r + du2 * t, r + du * q)
        return occ * I_('sgn', s, pos, n) * T.app('vec', a2, b2, iJ, j) * T.app('vec', a, b, iI, i)
    return ssum(I_('dim:bs', x), lambda q: ssum(I_('dim:bs', y), lambda r: term(q, r)))


def element_t(full, pos, n, N, N2, j, i):
    """<N2 j| op |N i> in the total-number basis; pos counts all 2n = n orbitals"""
    def term(q):
        s = I_('bt', N, q)
        return T.cmp_eq(bit(s, pos), 1 if full else 0).poly() * I_('sgn', s, pos, n) * T.app('vec', N2, I_('pos:bt', N2, I_('flip', s, pos)), j) * \
            T.app('vec', N, q, i)
    return ssum(I_('dim:bt', N), term)


def space(g):
    """a complete eigen-space: K sectors, number k with charges qup(k), qdw(k)"""
    names(g)
    g.assume('complete eigen-space: every pair of charges occurs once among the keys of the eigen-space')
    n, K = T.var('n'), T.var('K')
    g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_le(Poly.atom(a), n)] if a.kind == 'App' and a.args[0] in ('qup', 'qdw') else [])
    key = lambda k: (I_('qup', k), I_('qdw', k))
    cls = Cls('dict')
    o = Obj(cls)

    made = {}

    def get(I, s, k):
        a, b = [lift(I.num(x)) for x in k]
        if (a, b) in made:
            return made[a, b]
        if not I.decide(band(*[c for x in (a, b) for c in (T.cmp_le(0, x), T.cmp_le(x, n))])):
            raise PyExc('KeyError')
        made[a, b] = sector_q(g, a, b)
        return made[a, b]
    gi = Native(get)
    gi.method = True
    cls.ns['__getitem__'] = gi
    o.attrs['values'] = Native(lambda I: SList(K, lambda k: sector_q(g, *key(k))))
    o.attrs['keys'] = Native(lambda I: SList(K, key))
    o.attrs['items'] = Native(lambda I: SList(K, lambda k: (key(k), sector_q(g, *key(k)))))
    cls.ns['__len__'] = Native(lambda I, s: K)
    g.pre(T.cmp_le(1, n), T.cmp_le(1, K))
    return n, K, o, key


def amp(spin, full, p, J, I, j, i):
    """<J j| op_p |I i>: what project_exact_* returns; <J j|c|I i> is written as <I i|c+|J j>"""
    if full:
        I, J, i, j = J, I, j, i
    return T.app('amp%d' % spin, p, *J, *I, j, i)


def projections(g, n):
    """project_exact_* by their contracts"""
    g.assume('real eigenvectors: the matrix of c is the transpose of the matrix of c+ (c+ maps the configurations without the orbital one to one '
             'onto those with it, with the sign of c on the way back: C03)')
    def of(spin):
        def f(I, fn, a, kw):
            p, m, op, sI, sJ = fock.args(fn, a, kw)
            full = op.name.split('.')[-1] == 'c'
            if not full and op.name.split('.')[-1] != 'cdg':
                raise Unsupported('projection of an unknown operator')
            qI, qJ = sI.attrs['charges'], sJ.attrs['charges']
            d = -1 if full else 1
            want = (qI[0] + d, qI[1]) if spin == 0 else (qI[0], qI[1] + d)
            ok = band(in_range((I.num(p),), (n,)), T.cmp_eq(I.num(m), n), *[T.cmp_eq(x, y) for x, y in zip(want, qJ)])
            if not I.solver.implied(I.pc, ok):
                raise Unsupported('projection outside its precondition')
            qJ = want
            return new((T.app('nev', *qJ, sort='I'), T.app('nev', *qI, sort='I')), lambda j, i: amp(spin, full, I.num(p), qJ, qI, j, i), 'R')
        return f
    g.I.contracts['project_exact_up'] = of(0)
    g.I.contracts['project_exact_dw'] = of(1)


class Grid:
    """dictionary that the code fills with one object per pair of states ((*h1, j), (*h2, i)); ghost arrays hold the objects' fields"""

    def __init__(self, I, heads, dims, fields, classes):
        self.I, self.heads, self.classes = I, heads, classes
        self.A = {k: new(tuple(dims) + tuple(sh), lambda *x: T.ZERO, 'R') for k, sh in fields.items()}
        self.cls_of = new(tuple(dims), lambda *x: T.ZERO, 'I')
        self.fields = fields
        c = Cls('dict')
        self.obj = Obj(c)
        self.obj.attrs['grid'] = self
        c.ns['__setitem__'] = Native(lambda I, s, k, v: self.put(k, v))
        c.ns['__setitem__'].method = True

    def put(self, k, v):
        I = self.I
        idx = []
        if not isinstance(k, tuple) or len(k) != 2:
            raise Unsupported('key of an element')
        for t, h in zip(k, self.heads):
            if not isinstance(t, tuple) or len(t) != len(h) + 1:
                raise Unsupported('key of an element')
            for x, y in zip(t, h):
                if not I.solver.implied(I.pc, T.cmp_eq(I.num(x), y)):
                    raise Unsupported('element filed under %r instead of %r' % (x, y))
            idx.append(t[-1])
        if not isinstance(v, Obj) or v.cls not in self.classes:
            raise Unsupported('element of unknown class')
        I.setitem(self.cls_of, tuple(idx), lift(1 + self.classes.index(v.cls)))
        for f, sh in self.fields.items():
            x = I.getattr(v, f)
            if isinstance(x, Arr) and (len(x.shape) != len(sh) or not all(I.same_dim(p, q) for p, q in zip(x.shape, sh))):
                raise Unsupported('field %s has shape %r' % (f, x.shape))
            if sh and not isinstance(x, Arr):
                raise Unsupported('field %s is not an array' % f)
            I.setitem(self.A[f], tuple(idx), x)


def grids(I, mod, mk):
    """every dict() made by the module is a Grid"""
    made = []

    def f(I, *a):
        if a:
            raise Unsupported('dict of something')
        if made:
            raise Unsupported('a second dictionary')
        made.append(mk())
        return made[-1].obj
    I.load(mod).ns['dict'] = Native(f)
    return made


def total_space(g):
    """a complete eigen-space with the total number of particles as charge: sectors 0..2n"""
    names(g)
    n = T.var('n')
    cls = Cls('dict')
    o = Obj(cls)
    made = {}

    def get(I, s, k):
        if not isinstance(k, tuple) or len(k) != 1:
            raise PyExc('KeyError')
        N = lift(I.num(k[0]))
        if N in made:
            return made[N]
        if not I.decide(band(T.cmp_le(0, N), T.cmp_le(N, 2 * n))):
            raise PyExc('KeyError')
        made[N] = sector_t(g, N)
        return made[N]
    cls.ns['__getitem__'] = Native(get)
    cls.ns['__getitem__'].method = True
    return n, o


def amp_t(full, spin, p, N2, N, j, i):
    """<N2 j| op_(p, spin) |N i>; the matrix of c is the transpose of that of c+"""
    if full:
        N2, N, j, i = N, N2, i, j
    return T.app('ampt', lift(p), lift(spin), N2, N, j, i)


def projections_t(g, n):
    """cotnl.project by its contract"""
    g.assume('real eigenvectors: the matrix of c is the transpose of the matrix of c+ (c+ maps the configurations without the orbital one to one '
             'onto those with it, with the sign of c on the way back: C03)')

    def f(I, fn, a, kw):
        spin, p, op, m, sI, sJ = fock.args(fn, a, kw)
        full = op.name.split('.')[-1] == 'c'
        if not full and op.name.split('.')[-1] != 'cdg':
            raise Unsupported('projection of an unknown operator')
        (N,), (N2,) = sI.attrs['charges'], sJ.attrs['charges']
        ok = band(in_range((I.num(p), I.num(spin)), (n, 2)), T.cmp_eq(I.num(m), n), T.cmp_eq(N2, N - 1 if full else N + 1))
        if not I.solver.implied(I.pc, ok):
            raise Unsupported('projection outside its precondition')
        return new((T.app('nev', N2, sort='I'), T.app('nev', N, sort='I')), lambda j, i: amp_t(full, I.num(spin), I.num(p), N2, N, j, i), 'R')
    g.I.contracts['project'] = f
