from pyvc.vc import *

P = 'edpyt._continued_fraction'
L = 'edpyt.gf_lanczos'
inv = T.inv
a_ = lambda i: T.app('a', i)
b_ = lambda i: T.app('b', i)
z_ = lambda k: T.app('z', k, sort='C')


def R0(n, z, a, b):
    """R(0) of the downward recursion R(n) = 0, R(i) = b_i / (z - a_i - R(i+1))"""
    return T.rec(lambda k, r: b(n - 1 - k) * inv(z - a(n - 1 - k) - r), 0, n, 'C')


def coeffs(g, *more):
    n, m = T.var('n'), T.var('m')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, m), *more)
    return n, m, sym('a', (n,)), sym('b', (n,)), sym('z', (m,), 'C')


def kept(g, a, b, *more):
    g.unchanged('the diagonal is not modified', a, 'a')
    g.unchanged('the squared couplings are not modified', b, 'b')


@vc('the recursion is the resolvent', 'lemma')
def _(g):
    lean(g, 'Resolvent.lean', {
        'denominators': 'for real a, b >= 0 and Im z > 0 no denominator of the recursion vanishes',
        'tridiag_resolvent': 'R(0) = beta_0^2 x_0 for every solution x of (z - T) x = e_0'})


@vc('compiled continued_fraction, array of z', P + ':continued_fraction')
def _(g):
    n, m, a, b, z = coeffs(g, T.cmp_le(2, T.var('m')))
    r = g.call(g.fnc(P, 'continued_fraction'), z, a, b)
    g.array('element k is R(0) at z[k]', r, (m,), lambda k: R0(n, z_(k), a_, b_))
    kept(g, a, b)
    js = T.fresh('x')
    g.eq('z is not modified', z.get(js), z_(js))


@vc('compiled continued_fraction, scalar z', P + ':continued_fraction')
def _(g):
    n, m, a, b, _ = coeffs(g)
    z = T.var('zz', 'C')
    r = g.call(g.fnc(P, 'continued_fraction'), z, a, b)
    if isinstance(r, Arr):
        g.shape('a scalar', r, ())
        r = r.get()
    g.eq('R(0) at z', r, R0(n, z, a_, b_))
    kept(g, a, b)


def ez(g, m):
    """real arrays e, eta and the complex argument they stand for"""
    e, t = sym('e', (m,)), sym('eta', (m,))
    return e, t, lambda k: T.app('e', k) + T.IU * T.app('eta', k)


@vc('continued_fraction kernel', L + ':continued_fraction')
def _(g):
    n, m, a, b, z = coeffs(g, T.cmp_le(2, T.var('m')))
    e, t, zz = ez(g, m)
    k = g.call(g.fnc(L, 'continued_fraction'), a, b)
    r = g.do(lambda: g.I.call(k, [e, t]))
    g.array('value at e + i eta', r, (m,), lambda k: R0(n, zz(k), a_, b_))
    r = g.do(lambda: g.I.call(k, [e, T.var('w', 'R')]))
    g.array('value with a scalar eta', r, (m,), lambda k: R0(n, T.app('e', k) + T.IU * T.var('w', 'R'), a_, b_))
    r = g.do(lambda: g.I.call(k, [T.var('u', 'R'), T.var('w', 'R')]))
    r = r.get(*[0] * r.ndim) if isinstance(r, Arr) else r
    g.eq('value at a scalar', r, R0(n, T.var('u', 'R') + T.IU * T.var('w', 'R'), a_, b_))
    kept(g, a, b)


def spec(n, z, l, q, w=lambda r: 1):
    return ssum(n, lambda r: q(r) * inv(z - l(r)) * w(r))


@vc('spectral kernel', L + ':spectral')
def _(g):
    n, m, a, b, z = coeffs(g)
    e, t, zz = ez(g, m)
    k = g.call(g.fnc(L, 'spectral'), a, b)
    r = g.do(lambda: g.I.call(k, [e, t]))
    g.array('sum_r q_r/(z - l_r)', r, (m,), lambda k: spec(n, zz(k), a_, b_))
    r = g.do(lambda: g.I.call(k, [T.var('u', 'R'), T.var('w', 'R')]))
    g.eq('the same for a scalar', r.get(*[0] * r.ndim) if isinstance(r, Arr) else r, spec(n, T.var('u', 'R') + T.IU * T.var('w', 'R'), a_, b_))
    kept(g, a, b)


@vc('gf_exact.Gf', 'edpyt.gf_exact:Gf')
def _(g):
    n, m, a, b, z = coeffs(g)
    e, t, zz = ez(g, m)
    Z = T.var('Z', 'R')
    o = g.call(g.fnc('edpyt.gf_exact', 'Gf'), b, a, Z)
    r = g.do(lambda: g.I.call(o, [e, t]))
    g.array('sum_r q_r/(z - l_r) / Z', r, (m,), lambda k: spec(n, zz(k), a_, b_) * inv(Z))
    kept(g, a, b)


for _sgn in (1, -1, None):
    @vc('build_gf_coeff_cf, sign %s' % (_sgn or 'default'), L + ':build_gf_coeff_cf')
    def _(g, s=_sgn):
        n, m, a, b, z = coeffs(g)
        E, w = T.var('E', 'R'), T.var('w', 'R')
        f = g.fnc(L, 'build_gf_coeff_cf')
        r = g.call(f, a, b, E, w, **({} if s is None else {'sign': s}))
        s = s or 1
        g.array('diagonal is s (a - E)', r[0], (n,), lambda i: s * (a_(i) - E))
        g.array('squared couplings, the first times the weight', r[1], (n,), lambda i: b_(i) * b_(i) * ite(T.cmp_eq(i, 0), w, lift(1)))

    @vc('build_gf_coeff_sp, sign %s' % (_sgn or 'default'), L + ':build_gf_coeff_sp')
    def _(g, s=_sgn):
        n, m, a, b, z = coeffs(g)
        E, w = T.var('E', 'R'), T.var('w', 'R')
        seen = {}

        def eig(I, f, args, kw):
            seen['a'], seen['b'] = args[0].snap(), args[1].snap()
            seen['n'], seen['nb'], seen['kw'] = args[0].shape, args[1].shape, dict(kw)
            if len(args) > 2:
                raise Unsupported('arguments of eigh_tridiagonal')
            return sym('En', (n,)), sym('Un', (n, n))
        g.I.contracts['eigh_tridiagonal'] = eig
        f = g.fnc(L, 'build_gf_coeff_sp')
        r = g.call(f, a, b, E, w, **({} if s is None else {'sign': s}))
        s = s or 1
        ok = bool(seen) and not seen['kw'] and g.I.same_dim(seen['n'][0], n)
        if g.same('the full tridiagonal problem is solved', ok, seen):
            i = T.fresh('i')
            g.eq('its diagonal is a', seen['a'](i), a_(i), in_range((i,), (n,)))
            g.same('n-1 couplings', g.I.same_dim(seen['nb'][0], n - 1))
            g.eq('its couplings are b[1:]', seen['b'](i), b_(i + 1), in_range((i,), (n - 1,)))
        g.array('poles are s (lambda - E)', r[0], (n,), lambda k: s * (T.app('En', k) - E))
        g.array('residues are weight * b0^2 * (first component)^2', r[1], (n,), lambda k: w * b_(0) * b_(0) * T.app('Un', 0, k) * T.app('Un', 0, k))
        g.assume('eigh_tridiagonal returns the eigenvalues and orthonormal eigenvector columns of the tridiagonal matrix (LAPACK stemr; its wrapper is checked below)')


@vc('both representations describe the same function', L)
def _(g):
    """<0|(z - s(T-E))^-1|0>: the recursion in the transformed coefficients solves the transformed tridiagonal system"""
    i, n = T.var('i'), T.var('n')
    z, E = T.var('zz', 'C'), T.var('E', 'R')
    g.pre(T.cmp_le(1, n))
    X = lambda k: T.app('x', k, sort='C')
    for s in (1, -1):
        # (z - s(T-E)) x = e0 with off-diagonals s*b_i; x_i = s^i y_i turns it into off-diagonals b_i
        sg = lambda k: lift(1) if s == 1 else T.app('par', k, sort='I')
        row = lambda x: -s * b_(i) * x(i - 1) + (z - s * (a_(i) - E)) * x(i) - s * b_(i + 1) * x(i + 1)
        y = lambda k: sg(k) * X(k)
        row2 = -b_(i) * y(i - 1) + (z - s * (a_(i) - E)) * y(i) - b_(i + 1) * y(i + 1)
        # par(k) = (-1)^k
        d = row2 - sg(i) * row(X)
        if s == -1:
            P_ = T.app('par', i, sort='I')
            from pyvc.interp import subst_fn
            d = subst_fn(d, {'par': lambda k: ite(T.cmp_eq(k, i), lift(1), lift(-1)) * P_})
        g.zero('sign %+d: the sign of the couplings drops out of the first diagonal element' % s, d)


@vc('eigh_tridiagonal', 'edpyt.tridiag:eigh_tridiagonal')
def _(g):
    n, m, a, b, z = coeffs(g)
    M = g.I.load('edpyt.tridiag')
    seen = {}
    o = sym('b', (n - 1,))

    def lw(I, *args, **kw):
        return T.var('lwork'), T.var('liwork'), 0

    def stemr(I, d, e, rng, vl, vu, il, iu, compute_v=True, lwork=None, liwork=None):
        if size(rng) != 0:
            raise Unsupported('stemr range')
        seen['d'], seen['e'], seen['cv'] = d.snap(), e.snap(), compute_v
        seen['n'], seen['ne'] = d.shape, e.shape
        return n, sym('w', (n,)), sym('v', (n, n)), 0
    M.ns['stemr_lwork'] = Native(lw)
    M.ns['stemr'] = Native(stemr)
    r = g.call(g.fnc('edpyt.tridiag', 'eigh_tridiagonal'), a, o)
    if g.same('stemr is called for all eigenpairs', bool(seen) and seen['cv'] is True, seen):
        i = T.fresh('i')
        g.same('with n diagonal elements and an off-diagonal buffer of n', g.I.same_dim(seen['n'][0], n) and g.I.same_dim(seen['ne'][0], n))
        g.eq('diagonal', seen['d'](i), a_(i), in_range((i,), (n,)))
        g.eq('first n-1 couplings', seen['e'](i), b_(i), in_range((i,), (n - 1,)))
    g.array('its eigenvalues are returned', r[0], (n,), lambda k: T.app('w', k))
    g.array('its eigenvectors are returned', r[1], (n, n), lambda i, k: T.app('v', i, k))
    kept(g, a, o)
    g.assume('LAPACK stemr returns all eigenvalues and orthonormal eigenvectors, info = 0')


@vc('Gf (composite), any number of kernels', L + ':Gf')
def _(g):
    n, m, a, b, z = coeffs(g)
    nf = T.var('nf')
    g.I.pc.append(T.cmp_le(1, nf))
    Z = T.var('Z', 'R')
    o = g.call(g.fnc(L, 'Gf'))
    e, t, zz = ez(g, m)
    val = lambda k: Native(lambda I, e, t: new((m,), lambda j: T.app('G', k, j, sort='C'), 'C'))
    g.do(lambda: g.I.setattr(o, 'funcs', SList(nf, val)))
    g.do(lambda: g.I.setattr(o, 'Z', Z))
    r = g.do(lambda: g.I.call(o, [e, t]))
    g.array('sum of the kernels over Z', r, (m,), lambda j: ssum(nf, lambda k: T.app('G', k, j, sort='C')) * inv(Z))


@vc('Gf.add appends kernel(a, b)', L + ':Gf.add')
def _(g):
    n, m, a, b, z = coeffs(g)
    o = g.call(g.fnc(L, 'Gf'))
    e, t, zz = ez(g, m)
    c, d = sym('c', (n,)), sym('d', (n,))
    g.do(lambda: g.I.call(g.I.getattr(o, 'add'), [g.fnc(L, 'spectral'), a, b]))
    g.do(lambda: g.I.call(g.I.getattr(o, 'add'), [g.fnc(L, 'spectral'), c, d]))
    Z = T.var('Z', 'R')
    g.do(lambda: g.I.setattr(o, 'Z', Z))
    r = g.do(lambda: g.I.call(o, [e, t]))
    g.array('both kernels are summed', r, (m,), lambda k: (spec(n, zz(k), a_, b_) + spec(n, zz(k), lambda i: T.app('c', i), lambda i: T.app('d', i))) * inv(Z))
