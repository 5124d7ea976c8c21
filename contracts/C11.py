from pyvc.vc import *
from pyvc import npmodel as npm
from pyvc.proj import *

X = 'edpyt.gf_exact'
X2 = 'edpyt.gf2_exact'

for _spin, _fn in enumerate(('project_exact_up', 'project_exact_dw')):
    for _full in (False, True):
        @vc('%s of %s' % (_fn, 'c' if _full else 'c+'), X + ':' + _fn)
        def _(g, spin=_spin, fn=_fn, full=_full):
            names(g)
            n, p, a, b = [T.var(x) for x in ('n', 'p', 'a', 'b')]
            d = -1 if full else 1
            a2, b2 = (a + d, b) if spin == 0 else (a, b + d)
            g.pre(in_range((p,), (n,)), *[T.cmp_le(0, x) for x in (a, b, a2, b2)], *[T.cmp_le(x, n) for x in (a, b, a2, b2)])
            sI, sJ = sector_q(g, a, b), sector_q(g, a2, b2)
            v = g.call(g.fnc(X, fn), p, n, g.fnc('edpyt.operators', 'c' if full else 'cdg'), sI, sJ)
            g.array('matrix elements of the operator between the eigenvectors', v, (T.app('nev', a2, b2, sort='I'), T.app('nev', a, b, sort='I')),
                    lambda j, i: element(spin, full, p, n, (a, b), (a2, b2), j, i))


@vc('Gf.__call__', X + ':Gf')
def _(g):
    L, m = T.var('L'), T.var('m')
    g.pre(T.cmp_le(1, L), T.cmp_le(1, m))
    q, l, e, Z, eta = sym('q', (L,)), sym('l', (L,)), sym('e', (m,)), T.var('Z', 'R'), T.var('eta', 'R')
    gf = g.call(g.fnc(X, 'Gf'), q, l, Z)
    r = g.call(gf, e, eta)
    z = lambda x: T.app('e', x) + T.I_ * eta if hasattr(T, 'I_') else None
    g.array('sum of the weighted poles at z = e + i eta over Z', r, (m,),
            lambda x: ssum(L, lambda t: T.app('q', t) * T.inv(T.app('e', x) + g.I.num(1j) * eta - T.app('l', t))) * T.inv(Z))


def lehmann(n, K, key, spin, beta, egs, p1, p2):
    w = lambda s, j: npm.exp(-beta * (T.app('E', *s, j) - egs))
    Z = ssum(K, lambda k: ssum(T.app('nev', *key(k), sort='I'), lambda j: w(key(k), j)))

    def one(k):
        I = key(k)
        J = (I[0] + 1, I[1]) if spin == 0 else (I[0], I[1] + 1)
        room = T.cmp_lt(I[spin], n).poly()
        nI, nJ = T.app('nev', *I, sort='I'), T.app('nev', *J, sort='I')
        E = lambda s, j: T.app('E', *s, j)
        a = lambda j, i: amp(spin, False, p1, J, I, j, i) if p2 is p1 else amp(spin, True, p1, I, J, i, j)
        return room * ssum(nJ, lambda j: ssum(nI, lambda i: (w(J, j) + w(I, i)) * a(j, i) * amp(spin, False, p2, J, I, j, i) *
                                              T.app('w', E(J, j) - E(I, i))))
    return ssum(K, one), Z


for _spin in (0, 1):
    @vc('build_gf_exact, spin %d' % _spin, X + ':build_gf_exact')
    def _(g, spin=_spin):
        from pyvc import poles
        n, K, es, key = space(g)
        projections(g, n)
        beta, egs, p = T.var('beta', 'R'), T.var('egs', 'R'), T.var('p')
        g.I.pc.append(in_range((p,), (n,)))
        P = poles.lists(g.I, 'build_gf_exact')
        out = []
        g.I.load(X).ns['Gf'] = Native(lambda I, q, l, Z: out.append((q, l, Z)))
        Hm = sym('H', (n, n))
        g.call(g.fnc(X, 'build_gf_exact'), Hm, T.var('V', 'R'), es, beta, egs, p, spin)
        if len(out) != 1:
            raise Unsupported('%d functions built' % len(out))
        q, l, Z = out[0]
        acc, k = P.total(q, l)
        want, Zw = lehmann(n, K, key, spin, beta, egs, p, p)
        g.eq('weights and poles are those of the Lehmann representation', acc.get(), want)
        g.eq('Z is the full partition function', Z, Zw)


for _spin in (0, 1):
    @vc('build_gf2_exact, spin %d' % _spin, X2 + ':build_gf2_exact')
    def _(g, spin=_spin):
        from pyvc import poles
        n, K, es, key = space(g)
        projections(g, n)
        beta, egs = T.var('beta', 'R'), T.var('egs', 'R')
        M = g.I.load(X2)
        P = poles.maps(g.I, X2)
        out, grid = [], []
        src = [new((n, n), lambda i, j: lift(-1), 'I') for _ in 'ij'] + [new((n, n), lambda i, j: T.ZERO, 'R')]

        def make(I, q, l, Z):
            acc, k = P.total(q, l)
            o = Obj(Cls('Gf'))
            o.attrs['made'] = (acc, k, I.num(Z))
            return o
        M.ns['Gf'] = Native(make)

        def nd(I, shape=None, dtype=None):
            c = Cls('ndarray')
            o = Obj(c)
            o.attrs['shape'] = tuple(shape)

            def put(I, s, k, v):
                acc, kk, Z = v.attrs['made']
                for a, x in zip(src, list(kk) + [Z]):
                    I.setitem(a, k, x)
                out.append(acc)
            c.ns['__setitem__'] = Native(put)
            c.ns['__setitem__'].method = True
            grid.append(o)
            return o
        g.I.load('numpy').ns['ndarray'] = Native(nd)
        made = []
        M.ns['Gf2'] = Native(lambda I, gf: made.append(gf))
        g.call(g.fnc(X2, 'build_gf2_exact'), sym('H', (n, n)), T.var('V', 'R'), es, beta, egs, spin)
        if len(made) != 1 or made != grid or not out:
            raise Unsupported('not one matrix of functions')
        acc = out[-1]
        g.same('one function per pair of sites', all(g.I.same_dim(a, n) for a in grid[0].attrs['shape']))
        p1, p2 = T.var('p1'), T.var('p2')
        want, Zw = lehmann(n, K, key, spin, beta, egs, p1, p2)
        g.I.pc.append(in_range((p1, p2), (n, n)))
        g.eq('element (p1, p2) is built from its own weights [row]', src[0].get(p1, p2), p1)
        g.eq('element (p1, p2) is built from its own weights [column]', src[1].get(p1, p2), p2)
        g.eq('weights and poles are those of the Lehmann representation', acc.get(p1, p2), want)
        g.eq('Z is the full partition function', src[2].get(p1, p2), Zw)


@vc('Gf2.__call__', X2 + ':Gf2')
def _(g):
    n, m = T.var('n'), T.var('m')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, m))
    c = Cls('ndarray')
    o = Obj(c)
    o.attrs['shape'] = (n, n)

    def get(I, s, k):
        p1, p2 = k

        def f(I, e, eta):
            if e is not E or not (lift(I.num(eta)) - R_eta).is_zero():
                raise Unsupported('functions evaluated somewhere else')
            return new((m,), lambda x: T.app('gfr', p1, p2, x) + I.num(1j) * T.app('gfi', p1, p2, x), 'C')
        return Native(f)
    c.ns['__getitem__'] = Native(get)
    c.ns['__getitem__'].method = True
    E, R_eta = sym('e', (m,)), T.var('eta', 'R')
    r = g.call(g.call(g.fnc(X2, 'Gf2'), o), E, R_eta)
    g.array('element (i, j, x) is function (i, j) at frequency x', r, (n, n, m), lambda i, j, x: T.app('gfr', i, j, x) + g.I.num(1j) * T.app('gfi', i, j, x))


@vc('consequences of the representation', X + ':build_gf_exact')
def _(g):
    g.assume('the operator matrix C of one orbital in a complete eigenbasis satisfies C C^T + C^T C = 1 (C03, with complete bases and orthonormal eigenvectors)')
    lean(g, 'Lehmann.lean', {
        'lehmann_sum_rule': 'the diagonal weights add up to one',
        'weight_nonneg': 'every diagonal weight is non-negative',
        'pole_im_nonpos': 'every term has a non-positive imaginary part for positive broadening'})
