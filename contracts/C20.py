from pyvc.vc import *
from pyvc.npmodel import psi_parts

P = 'edpyt.integrals'
R = lambda n: T.var(n, 'R')
inv = T.inv


def load(g):
    g.assume('polygamma(n, conj z) = conj polygamma(n, z)')
    g.assume('for the exact integrals: the finite part of the Fermi integral over a simple pole 1/(E-e) is Re psi(1/2 + i beta (mu-e)/(2 pi)) up to '
             'a constant independent of e, and its derivative with respect to e is that of the double pole')


def exp(x):
    return T.REBUILD['exp'](lift(x))


def setup(g, near=False):
    load(g)
    beta, m0, m1 = R('beta'), R('mu0'), R('mu1')
    x = (m1 - m0) * beta
    g.pre(T.cmp_lt(0, beta))
    far = T.cmp_le(lift(T.Fraction(1, 100000)), T.REBUILD['abs'](x))
    g.I.pc.append(bnot(far) if near else far)
    return beta, m0, m1, x


pi = lambda g: g.I.load('numpy').ns['pi']
nB = lambda x: inv(exp(x) - 1)


def arg(g, beta, mu, eps):
    return beta * (mu - eps) * inv(2 * lift(pi(g)))


def dphi(g, beta, mu, eps):
    """derivative of Re psi(1/2 + i beta (mu - eps)/(2 pi)) with respect to eps:  beta/(2 pi) Im psi'"""
    return beta * inv(2 * lift(pi(g))) * psi_parts(1, arg(g, beta, mu, eps))[1]


def phi(g, beta, mu, eps):
    return psi_parts(0, arg(g, beta, mu, eps))[0]


def i1(g, C, e, m0, m1, beta):
    return C * C * nB((m1 - m0) * beta) * (dphi(g, beta, m1, e) - dphi(g, beta, m0, e))


def i2(g, A, B, a, b, m0, m1, beta):
    d = lambda e: phi(g, beta, m1, e) - phi(g, beta, m0, e)
    return 2 * A * B * nB((m1 - m0) * beta) * inv(a - b) * (d(a) - d(b))


@vc('I1, distinct chemical potentials', P + ':I1')
def _(g):
    beta, m0, m1, x = setup(g)
    C, e, t = R('C'), R('eps'), R('t')
    f = g.fnc(P, 'I1')
    call = lambda c, e, mu: g.call(f, c, e, mu, beta)
    v = call(C, e, [m0, m1])
    g.eq('squared residue times the Bose factor times the difference of the double-pole integrals', v, i1(g, C, e, m0, m1, beta))
    g.eq('quadratic in the residue', call(t * C, e, [m0, m1]), t * t * v)
    g.eq('even in the residue', call(-C, e, [m0, m1]), v)
    g.eq('detailed balance under exchange of the chemical potentials', call(C, e, [m1, m0]), exp(x) * v)
    g.same('Gamma1 is this function', g.fnc(P, 'Gamma1') is f)


@vc('I1, coinciding chemical potentials', P + ':I1')
def _(g):
    beta, m0, m1, x = setup(g, True)
    C, e = R('C'), R('eps')
    f = g.fnc(P, 'I1')
    v = g.call(f, C, e, [m0, m0], beta)
    # nB(x) (F(mu1) - F(mu0)) -> F'(mu) / beta with F = beta/(2 pi) Im psi'(1/2 + i beta (mu - eps)/(2 pi))
    p2 = psi_parts(2, arg(g, beta, m0, e))[0]
    g.eq('the limit: derivative of the double-pole integral over beta', v, C * C * beta * inv(2 * lift(pi(g))) * inv(2 * lift(pi(g))) * p2)


def pole_gap(g, a, b, beta, near=False):
    far = T.cmp_le(lift(T.Fraction(1, 100000)), T.REBUILD['abs'](a - b) * beta)
    g.I.pc.append(bnot(far) if near else far)
    if not near:
        g.I.pc.append(bnot(T.cmp_eq(a, b)))


@vc('I2, distinct poles and chemical potentials', P + ':I2')
def _(g):
    beta, m0, m1, x = setup(g)
    A, B, a, b, t = [R(k) for k in ('A', 'B', 'epsA', 'epsB', 't')]
    pole_gap(g, a, b, beta)
    f = g.fnc(P, 'I2')
    call = lambda A, B, a, b, mu: g.call(f, A, B, a, b, mu, beta)
    v = call(A, B, a, b, [m0, m1])
    g.eq('twice the product of the residues times the Bose factor times the difference of the simple-pole integrals over the distance of the poles',
         v, i2(g, A, B, a, b, m0, m1, beta))
    g.eq('symmetric under exchange of the pole/residue pairs', call(B, A, b, a, [m0, m1]), v)
    g.eq('linear in the first residue', call(t * A, B, a, b, [m0, m1]), t * v)
    g.eq('linear in the second residue', call(A, t * B, a, b, [m0, m1]), t * v)
    g.eq('detailed balance under exchange of the chemical potentials', call(A, B, a, b, [m1, m0]), exp(x) * v)


@vc('I2, coinciding poles', P + ':I2')
def _(g):
    beta, m0, m1, x = setup(g)
    A, B, a = [R(k) for k in ('A', 'B', 'epsA')]
    v = g.call(g.fnc(P, 'I2'), A, B, a, a, [m0, m1], beta)
    g.eq('the limit: derivative with respect to the pole', v, 2 * A * B * nB(x) * (dphi(g, beta, m1, a) - dphi(g, beta, m0, a)))


@vc('I2, coinciding chemical potentials', P + ':I2')
def _(g):
    beta, m0, m1, x = setup(g, True)
    A, B, a, b = [R(k) for k in ('A', 'B', 'epsA', 'epsB')]
    pole_gap(g, a, b, beta)
    v = g.call(g.fnc(P, 'I2'), A, B, a, b, [m0, m0], beta)
    # nB(x) (phi(mu1) - phi(mu0)) -> phi'(mu) / beta ,  d/dmu Re psi(1/2 + i beta (mu-e)/(2 pi)) = - beta/(2 pi) Im psi'
    d = lambda e: -dphi(g, beta, m0, e) * inv(beta)
    g.eq('the limit: derivative with respect to the chemical potential over beta', v, 2 * A * B * inv(a - b) * (d(a) - d(b)))


def abstract(g):
    """I1 and I2 by their contracts: any even quadratic form, and any symmetric bilinear form"""
    load(g)
    M = g.I.load(P)
    M.ns['I1'] = Native(lambda I, C, e, mu, beta: I.num(C) ** 2 * T.app('D', I.num(e)))
    M.ns['I2'] = Native(lambda I, A, B, a, b, mu, beta: I.num(A) * I.num(B) * sym2(I.num(a), I.num(b)))
    M.ns['Gamma1'] = M.ns['I1']


def sym2(a, b):
    a, b = sorted((lift(a), lift(b)), key=T.skey)
    return T.app('X', a, b)


@vc('Gamma2 and Gamma4 expand into poles and pole pairs', P + ':Gamma2')
def _(g):
    abstract(g)
    g.pre()
    mu, beta = [R('mu0'), R('mu1')], R('beta')
    C = [R(k) for k in 'ABCD']
    e = [R('eps' + k) for k in 'ABCD']
    D = lambda k: C[k] ** 2 * T.app('D', e[k])
    X = lambda i, j: C[i] * C[j] * sym2(e[i], e[j])
    g.eq('two poles', g.call(g.fnc(P, 'Gamma2'), C[0], C[1], e[0], e[1], mu, beta), D(0) + D(1) + X(0, 1))
    g.eq('four poles: every pole once and every pair once', g.call(g.fnc(P, 'Gamma4'), *C, *e, mu, beta),
         sum((D(k) for k in range(4)), lift(0)) + sum((X(i, j) for i in range(4) for j in range(i)), lift(0)))


@vc('Gamma sums over any number of poles', P + ':Gamma')
def _(g):
    abstract(g)
    n = T.var('n')
    g.pre(T.cmp_le(1, n))
    M = g.I.load(P)
    M.ns['I2'] = Native(lambda I, A, B, a, b, mu, beta: I.num(A) * I.num(B) * T.app('X', I.num(a), I.num(b)))
    Y, E = sym('Y', (n,)), sym('E', (n,))
    v = g.call(g.fnc(P, 'Gamma'), Y, E, [R('mu0'), R('mu1')], R('beta'))
    y, e = lambda i: T.app('Y', i), lambda i: T.app('E', i)
    g.eq('every pole once and every pair once', v, ssum(n, lambda i: y(i) ** 2 * T.app('D', e(i))) +
         ssum(n, lambda i: ssum(n, lambda j: T.cmp_lt(i, j).poly() * y(i) * y(j) * T.app('X', e(i), e(j)))))
    g.unchanged('the residues are not modified', Y, 'Y')
    g.unchanged('the poles are not modified', E, 'E')


# ------------------------------------------------------------------ amplitudes and their window

L = 'edpyt.cotnl'
S = 'edpyt.cotunneling'


@vc('thermal window', L + ':G')
def _(g):
    for mod, get in ((L, lambda: g.fnc(L, 'G')), (S, lambda: g.I.getattr(g.fnc(S, '_Sigma'), 'G'))):
        n = g.name
        g.name = 'G of %s' % mod.split('.')[1]
        g.fresh_interp()
        beta, z = R('beta'), R('z')
        bz = beta * z
        tiny, big = lift(T.Fraction(1, 10 ** 18)), lift(1000)
        g.pre(T.cmp_lt(0, beta))
        pc = list(g.I.pc)
        g.I.pc = pc + [T.cmp_le(tiny, T.REBUILD['abs'](z) * beta), T.cmp_le(bz, big)]
        g.eq('x/(exp(beta x) - 1)', g.call(get(), beta, z), z * inv(exp(bz) - 1))
        g.I.pc = pc + [T.cmp_lt(T.REBUILD['abs'](z) * beta, tiny)]
        g.eq('1/beta at zero energy', g.call(get(), beta, z), inv(beta))
        g.I.pc = pc + [T.cmp_lt(big, bz), T.cmp_le(tiny, T.REBUILD['abs'](z) * beta)]
        g.eq('zero when the exponential overflows', g.call(get(), beta, z), 0)
        g.name = n


def amp(n, k, first, second):
    """residue j of path k ('e' or 'h'): (A[first] . vF[j]) (A[second] . vI[j])"""
    return lambda j: ssum(n, lambda a: T.app('A', first, a) * T.app('vF' + k, j, a)) * ssum(n, lambda a: T.app('A', second, a) * T.app('vI' + k, j, a))


def paths(g, mod, n, which):
    m = {k: T.var('m' + k) for k in 'eh'}
    dE = R('dE')
    g.I.pc += [T.cmp_le(1, n)] + [T.cmp_le(1, m[k]) for k in 'eh']
    arrs = {}
    gf = {}
    for k in 'eh':
        vF, vI, E = arrs[k] = sym('vF' + k, (m[k], n)), sym('vI' + k, (m[k], n)), sym('E' + k, (m[k],))
        if mod == L:
            gf[k] = g.call(g.fnc(L, 'Gf2' + k), vF, vI, E, dE)
        else:
            gf[k] = g.call(g.fnc(S, 'Gf2'), (1, 1, 0), (1, 1, 1), vF, vI, E, dE, (2, 1))
    if mod == L:
        sg = g.call(g.fnc(L, 'Sigma'), (0, 1), gf['e'] if 'e' in which else None, gf['h'] if 'h' in which else None)
    else:
        sg = g.call(g.fnc(S, 'Sigma'), gf['e'] if 'e' in which else None, gf['h'] if 'h' in which else None)
    return sg, m, dE, arrs


def amplitude(n, m, which, ex, inj, z):
    t = lift(0)
    for k in which:
        y = amp(n, k, *((inj, ex) if k == 'e' else (ex, inj)))
        t = t + ssum(m[k], lambda j: y(j) * inv(T.app('E' + k, j) - z))
    return t


for _mod in (L, S):
    for _w in ('e', 'h', 'eh'):
        @vc('%s.Sigma, paths %s' % (_mod.split('.')[1], _w), _mod + ':Sigma')
        def _(g, mod=_mod, which=_w):
            n = T.var('n')
            g.pre()
            A = sym('A', (2, n))
            sg, m, dE, arrs = paths(g, mod, n, which)
            nz = T.var('nz')
            g.I.pc.append(T.cmp_le(1, nz))
            z = sym('z', (nz,))
            M = g.I.load(mod)
            if mod == L:
                M.ns['G'] = Native(lambda I, b, x: T.app('G', I.num(b), I.num(x)))
            else:
                g.fnc(S, '_Sigma').ns['G'] = Static(Native(lambda I, b, x: T.app('G', I.num(b), I.num(x))))
            beta, mu = R('beta'), sym('mu', (2,))
            MU = lambda k: T.app('mu', k)
            for ex in (0, 1):
                for inj in (0, 1):
                    t = ' (leads %d, %d)' % (ex, inj)
                    r = g.call(sg, z, A, ex, inj)
                    sq = lambda x: amplitude(n, m, which, ex, inj, x) ** 2
                    g.array('squared sum of both paths, electron (in through the second lead last) and hole' + t, r, (nz,), lambda k: sq(T.app('z', k)))
                    a = g.do(lambda: g.I.call(g.I.getattr(sg, 'approximate'), [A, ex, inj, beta, mu]))
                    a = a.get(lift(0)) if isinstance(a, Arr) and len(a.shape) == 1 else a
                    g.eq('window function times the squared amplitude at the midpoint of the window' + t, a,
                         T.app('G', beta, dE - MU(ex) + MU(inj)) * sq((MU(ex) - dE + MU(inj)) * lift(T.Fraction(1, 2))))
            for k in 'eh':
                for nm, a in zip(('vF', 'vI', 'E'), arrs[k]):
                    g.unchanged('%s of path %s is not modified' % (nm, k), a, nm + k)


for _up in (False, True):
    @vc('cotnl.Sigma.integrate, %s window' % ('reversed' if _up else 'forward'), L + ':Sigma')
    def _(g, up=_up):
        n = T.var('n')
        g.pre()
        A = sym('A', (2, n))
        sg, m, dE, arrs = paths(g, L, n, 'eh')
        beta, mu = R('beta'), sym('mu', (2,))
        lo, hi = T.app('mu', 0) - dE, T.app('mu', 1)
        g.I.pc += [T.cmp_lt(0, beta), T.cmp_lt(hi, lo) if up else T.cmp_le(lo, hi)]
        seen = {}

        def trapz(I, y, x=None, dx=None, axis=-1):
            seen['y'], seen['x'] = y, x
            return T.app('integral')
        g.I.load('numpy').ns['trapz'] = Native(trapz)
        r = g.do(lambda: g.I.call(g.I.getattr(sg, 'integrate'), [A, 0, 1, beta, mu]))
        g.eq('the integral is returned', r, T.app('integral'))
        x = seen['x']
        k = T.fresh('k')
        E = x.get(k)
        f = lambda u: inv(exp(beta * u) + 1)
        g.eq('squared amplitude times nF(E - mu_extract) (1 - nF(E - mu_inject))', seen['y'].get(k),
             amplitude(n, m, 'eh', 0, 1, E) ** 2 * f(E - lo) * f(hi - E), in_range((k,), x.shape))
        u = T.var('u', 'R')
        g.eq('1 - nF(u) = nF(-u)', 1 - f(u), f(-u))
        g.eq('from four thermal energies below the window', x.get(lift(0)), (hi if up else lo) - 4 * inv(beta))
        g.eq('to four thermal energies above it', x.get(size_(x) - 1), (lo if up else hi) + 4 * inv(beta))


def size_(x):
    return lift(x.shape[0])


@vc('cotnl.Sigma.exact', L + ':Sigma')
def _(g):
    n = T.var('n')
    for ne, nh in ((1, 0), (0, 1), (1, 1), (2, 0), (2, 2), (4, 0)):
        g.name = 'cotnl.Sigma.exact, %d + %d poles' % (ne, nh)
        g.fresh_interp()
        g.pre(T.cmp_le(1, n))
        A = sym('A', (2, n))
        dE = R('dE')
        M = g.I.load(L)
        seen = []
        for k in (1, 2, 4):
            M.ns['Gamma%d' % k] = Native(lambda I, *a, k=k: (seen.append((k, a)), T.app('integral'))[1])
        gf = {k: g.call(g.fnc(L, 'Gf2' + k), sym('vF' + k, (c, n)), sym('vI' + k, (c, n)), sym('E' + k, (c,)), dE) if c else None
              for k, c in (('e', ne), ('h', nh))}
        sg = g.call(g.fnc(L, 'Sigma'), (0, 0), gf['e'], gf['h'])
        beta, mu = R('beta'), sym('mu', (2,))
        r = g.do(lambda: g.I.call(g.I.getattr(sg, 'exact'), [A, 0, 1, beta, mu]))
        g.eq('the integral is returned', r, T.app('integral'))
        (k, a), = seen
        if not g.same('the closed form for that many poles', k == ne + nh and len(a) == 2 * k + 2):
            continue
        ye, yh = amp(n, 'e', 1, 0), amp(n, 'h', 0, 1)
        want = [(ye(lift(j)), T.app('Ee', j)) for j in range(ne)] + [(yh(lift(j)), T.app('Eh', j)) for j in range(nh)]
        for j, (y, e) in enumerate(want):
            g.eq('residue %d' % j, a[j], y)
            g.eq('pole %d' % j, a[k + j], e)
        w = g.I.seq(a[2 * k])
        g.eq('extracting lead shifted by the excitation energy', w[0], T.app('mu', 0) - dE)
        g.eq('injecting lead', w[1], T.app('mu', 1))
        g.eq('temperature', a[2 * k + 1], beta)


for _w in ('e', 'h', 'eh'):
    @vc('cotunneling.Sigma.integrate, paths %s' % _w, S + ':Sigma')
    def _(g, which=_w):
        n = T.var('n')
        g.pre()
        A = sym('A', (2, n))
        sg, m, dE, arrs = paths(g, S, n, which)
        seen = []
        g.I.load(S).ns['Gamma'] = Native(lambda I, *a: (seen.append(a), T.app('integral'))[1])
        beta, mu = R('beta'), sym('mu', (2,))
        r = g.do(lambda: g.I.call(g.I.getattr(sg, 'integrate'), [A, 0, 1, beta, mu]))
        g.eq('the integral over all poles is returned', r, T.app('integral'))
        Y, E, w, b = seen[0]
        tot = sum((m[k] for k in which), lift(0))
        me = m['e'] if 'e' in which else lift(0)
        y = {'e': amp(n, 'e', 1, 0), 'h': amp(n, 'h', 0, 1)}

        def spec(f):
            def at(j):
                if which == 'eh':
                    return ite(T.cmp_lt(j, me), f('e', j), f('h', j - me))
                return f(which, j)
            return at
        g.array('residues: electron path, then hole path', Y, (tot,), spec(lambda k, j: y[k](j)))
        g.array('poles in the same order', E, (tot,), spec(lambda k, j: T.app('E' + k, j)))
        w = g.I.seq(w)
        g.eq('extracting lead shifted by the excitation energy', w[0], T.app('mu', 0) - dE)
        g.eq('injecting lead', w[1], T.app('mu', 1))
        g.eq('temperature', b, beta)
