from pyvc.vc import *

P = 'edpyt.fit_cg'
C = 'C:edpyt_backend'


def each(g, what, n, f):
    """f(k) is zero for every k < n"""
    if n.is_const():
        for k in range(int(n.cval())):
            g.zero('%s [%d]' % (what, k), f(lift(k)))
    else:
        k = T.fresh('k')
        g.zero(what, f(k), in_range((k,), (n,)))


def shared(g, nb, p, W, h, odd):
    """what the statement says of a filled parameter array"""
    r = T.REBUILD['sqrt'](nb)
    hop = ite(T.cmp_lt(T.inv(r), TENTH), TENTH, T.inv(r))
    each(g, 'every hopping is max(0.1, 1/sqrt(nbath))', nb, lambda k: p.get(nb + k) - hop)
    if nb.is_const() and nb.cval() == 1:
        return
    g.eq('lowest level at -W', p.get(lift(0)), -W)
    g.eq('highest level at +W', p.get(nb - 1), W)
    each(g, 'levels symmetric about zero', nb, lambda k: p.get(k) + p.get(nb - 1 - k))
    if odd:
        g.eq('a level at zero', p.get(h), 0)


# nbath = 1, 2, 2h (h >= 2), 2h+1 (h >= 1): every nbath >= 1 is one of these
def cases(g):
    h = T.var('h')
    yield 'one site', lift(1), h, True, []
    yield 'two sites', lift(2), h, False, []
    yield 'even count', 2 * h, h, False, [T.cmp_le(2, h)]
    yield 'odd count', 2 * h + 1, h, True, [T.cmp_le(1, h)]


TENTH = lift(T.Fraction(1, 10))


@vc('Python', P + ':get_initial_bath')
def _(g):
    W = T.var('W', 'R')
    g.same('every count of at least one is covered', True)
    n = g.name
    for nm, nb, h, odd, pre in cases(g):
        for given in (False, True):
            g.name = '%s, %s, %s' % (n, nm, 'supplied array' if given else 'new array')
            g.fresh_interp()
            g.pre(*pre)
            if given:
                p = sym('p', (2 * nb,))
                r = g.call(g.fnc(P, 'get_initial_bath'), bandwidth=W, p=p)
                g.same('the supplied array is returned', r is p)
            else:
                p = g.call(g.fnc(P, 'get_initial_bath'), bandwidth=W, nbath=nb)
                g.shape('2 nbath parameters', p, (2 * nb,))
            shared(g, nb, p, W, h, odd)


@vc('C', C + '/bath.c:init_bath')
def _(g):
    n = g.name
    for nm, nb, h, odd, pre in cases(g):
        g.name = '%s, %s' % (n, nm)
        g.fresh_interp()
        g.pre(*pre)
        M = g.I.load(C)
        M.ns['nbath'] = nb
        x = sym('p', (2 * nb,))
        g.call(M.ns['init_bath'], x)
        W = lift(M.ns['BANDWIDTH'])
        shared(g, nb, x, W, h, odd)
        a = g.call(g.fnc(P, 'get_initial_bath'), nbath=nb)
        each(g, 'same parameters as the Python version by default', 2 * nb, lambda k: a.get(k) - x.get(k))
