from pyvc.vc import *
from pyvc import npmodel as npm
from pyvc import fock

P = 'edpyt.integrate_gf'
R_ = lambda x: T.var(x, 'R')
C_ = lambda f, *a: T.app(f, *[lift(x) for x in a], sort='C')
F_ = lambda f, *a: T.app(f, *[lift(x) for x in a])
inv = T.inv
at = lambda g, o, k: g.do(lambda: g.I.getattr(o, k))
call = lambda g, f, *a, **kw: g.do(lambda: g.I.call(f, list(a), kw))
item = lambda g, o, k: g.do(lambda: g.I.getitem(o, k))
half = lift(Fraction(1, 2))


def eigh(g, N, seen):
    """scipy.linalg.eigh(a, b) by contract: for a symmetric a and a positive diagonal b, the generalised eigenvalues ascending
    and vectors with v^T b v = 1"""
    M = 2 * N
    g.assume('scipy.linalg.eigh(a, b) returns the generalised eigenpairs, ascending, normalised to v^T b v = 1')
    g.assume('a zero-diagonal tridiagonal pencil with non-zero off-diagonals and positive weights of even size has 2N distinct eigenvalues, '
             'symmetric about zero and none of them zero, and eigenvectors with non-zero first component')
    lam = lambda k: T.app('lam', k)
    v = lambda i, k: T.app('vec', i, k)

    def f(I, a, b, *x, **kw):
        if x or kw or not isinstance(a, Arr) or not isinstance(b, Arr) or a.ndim != 2 or b.ndim != 2:
            raise Unsupported('another eigenvalue problem')
        seen.append((a, b))
        return new((M,), lam, 'R'), new((M, M), v, 'R')
    from pyvc.interp import Module
    g.I.load(P).ns['la'] = Module('scipy.linalg', {'eigh': Native(f)})
    return lam, v


@vc('zero_fermi', P + ':zero_fermi')
def _(g):
    N = T.var('N')
    g.pre(T.cmp_le(1, N))
    f = g.fnc(P, 'zero_fermi')
    seen = []
    lam, v = eigh(g, N, seen)
    zp, Rp = call(g, f, N)
    if len(seen) != 1:
        raise Unsupported('not one eigenvalue problem')
    a, b = seen[0]
    M = 2 * N
    # the continued fraction of tanh: (x/2)/(1 + (x/2)^2/(3 + (x/2)^2/(5 + ...)))
    g.array('left matrix: -1/2 next to the diagonal', a, (M, M), lambda i, j: -half * (T.cmp_eq(i, j + 1).poly() + T.cmp_eq(j, i + 1).poly()))
    g.array('right matrix: the odd numbers on the diagonal', b, (M, M), lambda i, j: (2 * i + 1) * T.cmp_eq(i, j).poly())
    g.array('poles', zp, (N,), lambda k: -inv(lam(k)))
    g.array('residues', Rp, (N,), lambda k: -lift(Fraction(1, 4)) * v(0, k) ** 2 * inv(lam(k)) ** 2)
    lean(g, 'Fermi.lean', FERMI)


FERMI = {'signs': 'poles are positive and residues negative', 'ascending': 'poles ascend with the eigenvalues', 'pencil_resolvent': 'sum over eigenpairs is the resolvent of the pencil', 'fraction': 'the first entry of the resolvent is the continued fraction'}


def fermi(g):
    """zero_fermi by contract"""
    def f(I, fn, a, kw):
        n = fock.args(fn, a, kw)[0]
        return new((n,), lambda k: F_('zp', k), 'R'), new((n,), lambda k: F_('Rp', k), 'R')
    g.I.contracts['zero_fermi'] = f


def constants(g):
    M = g.I.load(P)
    return g.I.num(M.ns['k']) * inv(g.I.num(M.ns['e']))


BIG = lift(10 ** 10)


def formula(g, N, beta, mu, *i):
    """half the zeroth moment plus the sum of the residues times the function at the poles"""
    G = lambda z: C_('G', z, *i)
    pole = lambda k: mu + T.IU * F_('zp', k) * inv(beta)
    return half * (T.re_(T.IU * BIG * G(T.IU * BIG)) + T.im_(-4 * T.IU * inv(beta) * ssum(N, lambda k: G(pole(k)) * F_('Rp', k))))


def gf(I, z):
    if isinstance(z, Arr):
        return new(z.shape, lambda *i: C_('G', z.get(*i)), 'C')
    return C_('G', I.num(z))


@vc('integrate_gf, one chemical potential', P + ':integrate_gf')
def _(g):
    N, mu, temp = T.var('N'), R_('mu'), R_('temp')
    g.pre(T.cmp_le(1, N), T.cmp_lt(0, temp))
    f = g.fnc(P, 'integrate_gf')
    fermi(g)
    beta = inv(constants(g) * temp)
    v = call(g, f, Native(gf), mu, T=temp, nzp=N)
    g.eq('half the zeroth moment plus the sum over the Fermi poles', g.I.num(v), formula(g, N, beta, mu))
    v = call(g, f, Native(gf), mu)
    g.eq('default temperature and number of poles', g.I.num(v), formula(g, 100, inv(constants(g) * 300), mu))
    v = call(g, f, Native(gf))
    g.eq('default chemical potential', g.I.num(v), formula(g, 100, inv(constants(g) * 300), 0))
    # a function of several components
    q = T.var('q')
    g.pre(T.cmp_le(1, q))
    many = Native(lambda I, z: new((q,), lambda i: C_('G', I.num(z), i), 'C'))
    v = call(g, f, many, mu, T=temp, nzp=N)
    g.array('each component of a function with several', v, (q,), lambda i: formula(g, N, beta, mu, i))


@vc('integrate_gf, several chemical potentials', P + ':integrate_gf')
def _(g):
    N, q, temp = T.var('N'), T.var('q'), R_('temp')
    g.pre(T.cmp_le(1, N), T.cmp_lt(0, temp), T.cmp_le(1, q))
    f = g.fnc(P, 'integrate_gf')
    fermi(g)
    beta = inv(constants(g) * temp)
    mu = sym('mus', (q,), 'R')
    v = call(g, f, Native(gf), mu, T=temp, nzp=N)
    g.array('at each of them', v, (q,), lambda i: formula(g, N, beta, F_('mus', i)))
    g.unchanged('the chemical potentials are not modified', mu, 'mus')


@vc('matsum_gf', P + ':matsum_gf')
def _(g):
    m, q, beta, mu = T.var('m'), T.var('q'), R_('beta'), R_('mu')
    g.pre(T.cmp_le(1, m), T.cmp_le(1, q), T.cmp_lt(0, beta))
    f = g.fnc(P, 'matsum_gf')
    pi = g.I.load('numpy').ns['pi']
    w = lambda k: (2 * lift(k) + 1) * pi * inv(beta)
    for t, own in (('own chemical potential one number', R_('own')), ('one per site', sym('own', (q,), 'R'))):
        o = Obj(Cls('gf'))
        o.attrs['mu'] = own

        def ev(I, s, z):
            x = I.getattr(s, 'mu')
            if isinstance(x, Arr):
                x = x.get(0)
            x = I.num(x)
            return new((q,) + z.shape, lambda j, k: C_('G', j, x, z.get(k)), 'C')
        n = Native(ev)
        n.method = True
        o.cls.ns['__call__'] = n
        v = call(g, f, o, mu, m, beta)

        def spec(j):
            G = lambda k: C_('G', j, mu, T.IU * w(k))
            e = -T.re_(G(m - 1)) * w(m - 1) ** 2          # the level of the tail 1/(z - e) matched at the last frequency
            s = ssum(m, lambda k: T.re_(G(k)) + e * inv(e ** 2 + w(k) ** 2))
            return 2 * s * inv(beta) + 1 - inv(1 + npm.exp(-beta * e))
        g.array(t + ': sum over the Matsubara frequencies with the tail 1/(z - e) summed exactly', v, (q,), spec)
        x = at(g, o, 'mu')
        if isinstance(own, Arr) and isinstance(x, (Poly, int)):
            i = T.fresh('i')
            g.eq(t + ': left as it was', g.I.num(x), F_('own', i), in_range((i,), (q,)))
        elif isinstance(own, Arr):
            g.array(t + ': left as it was', x, (q,), lambda i: F_('own', i))
        else:
            g.eq(t + ': left as it was', g.I.num(x), own)
