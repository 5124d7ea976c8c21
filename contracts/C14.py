from pyvc.vc import *
from pyvc import npmodel as npm

O = 'edpyt.observs'


def bit(x, i):
    return T.app('bit', x, i, sort='I')


def setup(g, flag):
    n, du, dd, nev = [T.var(x) for x in ('n', 'dup', 'dwn', 'nev')]
    g.pre(*[T.cmp_le(1, x) for x in (n, du, dd, nev)])
    v = sym('v', (du * dd, nev))
    if flag == 'F':
        v.attrs['f'] = True
    return n, du, dd, nev, v, sym('up', (du,), 'U'), sym('dw', (dd,), 'U'), sym('c', (nev,))


def dens(du, dd, w=lambda j: lift(1), V=lambda i, j: T.app('v', i, j)):
    """(up, down) occupation of site k in eigenvector j"""
    sq = lambda a, b, j: V(a + b * du, j) * V(a + b * du, j) * w(j)
    up = lambda U, k, j: ssum(du, lambda a: ssum(dd, lambda b: bit(U(a), k) * sq(a, b, j)))
    dw = lambda D, k, j: ssum(du, lambda a: ssum(dd, lambda b: bit(D(b), k) * sq(a, b, j)))
    return up, dw


up_ = lambda a: T.app('up', a, sort='I')
dw_ = lambda a: T.app('dw', a, sort='I')

for _f in 'CF':
    for _w in (False, True):
        for _fn in ('_get_evecs_occupation', 'get_evecs_occupation'):
            @vc('%s, %s-ordered vectors, %s weights' % (_fn, _f, 'with' if _w else 'no'), O + ':' + _fn)
            def _(g, f=_f, w=_w, fn=_fn):
                n, du, dd, nev, v, up, dw, c = setup(g, f)
                r = g.call(g.fnc(O, fn), v, up, dw, n, c if w else None)
                u, d = dens(du, dd, (lambda j: T.app('c', j)) if w else (lambda j: lift(1)))
                g.array('up occupation of site k in eigenvector j', r[0], (n, nev), lambda k, j: u(up_, k, j))
                g.array('down occupation of site k in eigenvector j', r[1], (n, nev), lambda k, j: d(dw_, k, j))
                g.unchanged('the eigenvectors are not modified', v, 'v')
                g.shape('nor reshaped', v, (du * dd, nev))
                g.unchanged('the weights are not modified', c, 'c')


@vc('dedlib.get_occupation (one vector, one site)', 'edpyt.dedlib:get_occupation')
def _(g):
    n, du, dd, nev, v, up, dw, c = setup(g, 'C')
    x, pos = sym('x', (du * dd,)), T.var('pos')
    g.I.pc.append(in_range((pos,), (n,)))
    r = g.call(g.fnc('edpyt.dedlib', 'get_occupation'), x, up, dw, pos)
    u, d = dens(du, dd, V=lambda i, j: T.app('x', i))
    g.eq('sum of the two spin occupations', r, u(up_, pos, 0) + d(dw_, pos, 0))
    g.unchanged('the vector is not modified', x, 'x')


@vc('dedlib_dev.get_evecs_occupation (weighted vectors, one site)', 'edpyt.dedlib_dev:get_evecs_occupation')
def _(g):
    n, du, dd, nev, v, up, dw, c = setup(g, 'C')
    pos = T.var('pos')
    g.I.pc.append(in_range((pos,), (n,)))
    r = g.call(g.fnc('edpyt.dedlib_dev', 'get_evecs_occupation'), v, c, up, dw, pos)
    u, d = dens(du, dd, lambda j: T.app('c', j))
    g.eq('weighted sum of the two spin occupations', r, ssum(nev, lambda j: u(up_, pos, j) + d(dw_, pos, j)))
    g.unchanged('the eigenvectors are not modified', v, 'v')


def thermal(g, ns, n):
    """Boltzmann sums over an eigen-space of ns sectors"""
    k = T.var('kk')
    beta, egs = T.var('beta', 'R'), T.var('egs', 'R')
    A = lambda nm, *i, s='R': T.app(nm, *i, sort=s)
    w = lambda k, j: npm.exp(-beta * (A('E', k, j) - egs))
    Z = ssum(ns, lambda k: ssum(A('nev', k, s='I'), lambda j: w(k, j)))

    def occ(spin, site):
        def one(k):
            du, dd = A('dup', k, s='I'), A('dwn', k, s='I')
            u, d = dens(du, dd, lambda j: w(k, j), lambda i, j: A('vec', k, i, j))
            return ssum(A('nev', k, s='I'), lambda j: (u if spin == 'up' else d)(lambda a: A(spin, k, a, s='I'), site, j))
        return ssum(ns, one)
    return beta, egs, Z, occ


def posZ(g, Z):
    pass


@vc('observs.get_occupation (thermal average)', O + ':get_occupation')
def _(g):
    n, ns = T.var('n'), T.var('ns')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, ns))
    es = sym_espace(g, ns)
    beta, egs, Z, occ = thermal(g, ns, n)
    r = g.call(g.fnc(O, 'get_occupation'), es, egs, beta, n)
    g.array('up occupations are the Boltzmann averages', r[0], (n,), lambda k: occ('up', k) * T.inv(Z))
    g.array('down occupations are the Boltzmann averages', r[1], (n,), lambda k: occ('dw', k) * T.inv(Z))


@vc('dedlib_dev.get_occupation (one site)', 'edpyt.dedlib_dev:get_occupation')
def _(g):
    n, ns, pos = T.var('n'), T.var('ns'), T.var('pos')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, ns), in_range((pos,), (n,)))
    es = sym_espace(g, ns)
    beta, egs, Z, occ = thermal(g, ns, n)
    r = g.call(g.fnc('edpyt.dedlib_dev', 'get_occupation'), es, egs, beta, pos)
    g.eq('Boltzmann average of both spins', r, (occ('up', pos) + occ('dw', pos)) * T.inv(Z))


@vc('dedlib_dev.get_occupation_full', 'edpyt.dedlib_dev:get_occupation_full')
def _(g):
    n, ns = T.var('n'), T.var('ns')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, ns))
    es = sym_espace(g, ns)
    beta, egs, Z, occ = thermal(g, ns, n)
    r = g.call(g.fnc('edpyt.dedlib_dev', 'get_occupation_full'), es, egs, beta, n)
    g.array('Boltzmann averages summed over the spins', r, (n,), lambda k: (occ('up', k) + occ('dw', k)) * T.inv(Z))
