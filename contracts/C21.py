from pyvc.vc import *
from pyvc import npmodel as npm
from pyvc import fock

D = 'edpyt.dmft'
N = 'edpyt.nano_dmft'
F = 'edpyt.fit_cg'
R_ = lambda x: T.var(x, 'R')
C_ = lambda f, *a: T.app(f, *[lift(x) for x in a], sort='C')
I_ = fock.I_
inv = T.inv


def fun(name):
    """an arbitrary function of a complex frequency, applied element by element"""
    def f(I, z, *more):
        if isinstance(z, Arr):
            return new(z.shape, lambda *i: C_(name, z.get(*i)), 'C')
        return C_(name, I.num(z))
    return Native(f)


zs = lambda m: sym('z', (m,), 'C')
zk = lambda k: C_('z', k)


def item(g, o, k):
    return g.do(lambda: g.I.getitem(o, k))


# ------------------------------------------------------------------ impurity

@vc('fit_cg._delta', F + ':_delta')
def _(g):
    n, m = T.var('n'), T.var('m')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, m))
    p, z = sym('p', (2 * n,)), zs(m)
    d = g.call(g.fnc(F, '_delta'), p, z)
    g.array('sum of the squared hoppings over z - bath energy', d, (m,),
            lambda k: ssum(n, lambda j: T.app('p', n + j) ** 2 * inv(zk(k) - T.app('p', j))))
    g.unchanged('parameters are not modified', p, 'p')


def fits(g):
    """fit_hybrid and get_initial_bath by contract: they replace the bath parameters in place by parameters that depend on the hybridisation given"""
    g.assume('fit_hybrid replaces the parameters it is given in place (C12)')
    w = T.var('w')

    def hybrid(I, f, a, kw):
        x, nmats, delta, beta = fock.args(f, a, kw)[:4]
        if not isinstance(delta, Arr) or delta.ndim != 1 or not (lift(I.num(nmats)) - T.var('nmats')).is_zero() or not (lift(I.num(beta)) - R_('beta')).is_zero():
            raise Unsupported('fit of something else')
        v = delta.get(w)
        I.setitem(x, slice(None), new(x.shape, lambda k: T.app('fit', v, k), 'R'))

    def initial(I, f, a, kw):
        fock_args = dict(zip([p.arg for p in f.node.args.args], a)) if hasattr(f, 'node') else {}
        x = kw.get('p', fock_args.get('p'))
        if x is None:
            raise Unsupported('initial bath of another kind')
        I.setitem(x, slice(None), new(x.shape, lambda k: T.app('init', k), 'R'))
        return x
    g.I.contracts['fit_hybrid'], g.I.contracts['get_initial_bath'] = hybrid, initial
    return lambda v, k: T.app('fit', v, lift(k)), w


def impurity(g, cls='Gfimp'):
    n, m = T.var('n'), T.var('m')
    g.pre(T.cmp_le(2, n), T.cmp_le(1, m), T.cmp_lt(0, R_('beta')), in_range((T.var('w'),), (m,)))
    c = g.fnc(D, cls)
    g.fnc(F, '_delta')
    fit, w = fits(g)
    U = R_('U')
    o = g.do(lambda: g.I.call(c, [n], dict(nmats=T.var('nmats'), U=U, beta=R_('beta'))))
    return n, m, o, fit, w, U


def star(g, t, H, n, e, x):
    """H is the star: level e, bath energies and hoppings from the parameters x = [energies, hoppings]"""
    i = T.fresh('i')
    j = T.fresh('j')
    rng = in_range((i, j), (n, n))
    g.shape(t + 'square', H, (n, n))
    g.eq(t + 'level', H.get(0, 0), e)
    b = lift(n) - 1
    g.eq(t + 'bath energies on the diagonal', H.get(i, i), x(i - 1), rng, T.cmp_le(1, i))
    g.eq(t + 'hoppings in the first row', H.get(0, i), x(b + i - 1), rng, T.cmp_le(1, i))
    g.eq(t + 'hoppings in the first column', H.get(i, 0), x(b + i - 1), rng, T.cmp_le(1, i))
    g.eq(t + 'nothing else', H.get(i, j), 0, rng, T.cmp_le(1, i), T.cmp_le(1, j), bnot(T.cmp_eq(i, j)))


@vc('Gfimp: fit and update', D + ':Gfimp')
def _(g):
    n, m, o, fit, w, U = impurity(g)
    mu = R_('mu')
    d = sym('delta', (m,), 'C')
    b = lift(n) - 1
    at = lambda k: g.do(lambda: g.I.getattr(o, k))
    g.array('interaction on the impurity only', at('V'), (n, n), lambda i, j: U * T.cmp_eq(i, 0).poly() * T.cmp_eq(j, 0).poly())
    g.do(lambda: g.I.call(at('fit'), [d]))
    g.array('the fitted parameters are kept', at('x'), (2 * b,), lambda k: fit(C_('delta', w), k))
    star(g, 'after the fit: ', at('H'), n, 0, lambda k: fit(C_('delta', w), k))
    g.do(lambda: g.I.call(at('update'), [mu]))
    star(g, 'after the update: ', at('H'), n, -mu, lambda k: fit(C_('delta', w), k))
    g.eq('chemical potential', at('mu'), mu)
    d2 = sym('delta2', (m,), 'C')
    mu2 = R_('mu2')
    g.do(lambda: g.I.call(at('fit_update'), [d2, mu2]))
    star(g, 'after both again: ', at('H'), n, -mu2, lambda k: fit(C_('delta2', w), k))
    g.array('hybridisation function of the bath: energies', at('ek'), (b,), lambda k: fit(C_('delta2', w), k))
    g.array('hybridisation function of the bath: hoppings', at('vk'), (b,), lambda k: fit(C_('delta2', w), b + k))
    z = zs(m)
    v = g.do(lambda: g.I.call(at('Delta'), [z]))
    g.array('hybridisation function of the fitted bath', v, (m,),
            lambda k: ssum(b, lambda j: fit(C_('delta2', w), b + j) ** 2 * inv(zk(k) - fit(C_('delta2', w), j))))
    g.do(lambda: g.I.call(at('reset_bath'), []))
    g.array('reset: parameters of the initial bath', at('x'), (2 * b,), lambda k: T.app('init', k))


def dyson(g, o, m, e, Dl, gf, pre=''):
    """the four functions of an impurity with level e, hybridisation Dl and interacting function gf (both arbitrary)"""
    z = zs(m)
    at = lambda k: g.do(lambda: g.I.getattr(o, k))
    call = lambda f, *a, **kw: g.do(lambda: g.I.call(f, list(a), kw))
    g0i = lambda k: zk(k) - e - C_(Dl, zk(k))
    sig = lambda k: g0i(k) - inv(C_(gf, T.re_(zk(k)), T.im_(zk(k))))
    g.array(pre + 'free function', call(at('free'), z), (m,), lambda k: inv(g0i(k)))
    g.array(pre + 'its inverse: z + mu - Delta(z)', call(at('free'), z, inverse=True), (m,), g0i)
    g.array(pre + 'self-energy: difference of the inverse functions', call(at('Sigma'), z), (m,), sig)
    g.array(pre + 'interacting function from the self-energy: 1/(inverse free function - Sigma)', call(o, z), (m,), lambda k: inv(g0i(k) - sig(k)))


def with_gf(g, o, Dl, gf):
    """put an arbitrary hybridisation function and an arbitrary interacting function into an impurity"""
    def f(I, x, y):
        return new(x.shape, lambda *i: C_(gf, x.get(*i), y.get(*i)), 'C')
    g.I.setattr(o, 'gf', Native(f))
    dl = g.I.getattr(o, 'Delta')

    def called(I, s, z):
        if s.attrs.get('Dl') is None:
            raise Unsupported('hybridisation of another impurity')
        return new(z.shape, lambda *i: C_(s.attrs['Dl'], z.get(*i)), 'C')
    dl.attrs['Dl'] = Dl
    n = Native(called)
    n.method = True
    dl.cls.ns['__call__'] = n


@vc('Gfimp: Dyson equation', D + ':Gfimp')
def _(g):
    n, m, o, fit, w, U = impurity(g)
    mu = R_('mu')
    g.do(lambda: g.I.call(g.I.getattr(o, 'update'), [mu]))
    with_gf(g, o, 'Delta', 'gf')
    dyson(g, o, m, -mu, 'Delta', 'gf')


def solving(g, log):
    """build_espace, screen_espace and build_gf_lanczos by recording what they are given"""
    def build(I, f, a, kw):
        H, V, neig = fock.args(f, a, kw)[:3]
        es = Obj(Cls('espace'))
        es.attrs['from'] = (H, V, neig)
        return es, R_('egs')

    def screen(I, f, a, kw):
        es, egs = fock.args(f, a, kw)[:2]
        if not isinstance(es, Obj) or 'from' not in es.attrs or not (lift(I.num(egs)) - R_('egs')).is_zero():
            raise Unsupported('screening of something else')
        I.setattr(es, 'screened', True)

    def lanczos(I, f, a, kw):
        nm = [p.arg for p in f.node.args.args]
        v = dict(zip(nm, a))
        v.update(kw)
        o = Obj(Cls('gf'))
        o.attrs.update(H=v['H'], V=v['V'], es=v['espace'], beta=v['beta'], egs=v['egs'], spin=v.get('ispin', 0))
        return o
    g.I.contracts.update(build_espace=build, screen_espace=screen, build_gf_lanczos=lanczos)


def solved(g, t, gf, H, V, spin):
    if not isinstance(gf, Obj) or 'es' not in gf.attrs:
        raise Unsupported('another interacting function')
    a = gf.attrs
    fr = a['es'].attrs['from']
    tr = lambda x: T.TRUE if x else bnot(T.TRUE)
    if not a['es'].attrs.get('screened'):
        g.assume('sectors far above the ground state may be kept (screening is optional)')
    for nm, x in (('eigen-space', fr[:2]), ('function', (a['H'], a['V']))):
        for k, (p, q) in enumerate(zip(x, (H, V))):
            if not isinstance(p, Arr) or len(p.shape) != len(q.shape):
                raise Unsupported('another %s' % 'HV'[k])
            js = [T.fresh('x') for _ in q.shape]
            g.eq('%s%s from the %s of the impurity' % (t, nm, ('Hamiltonian', 'interaction')[k]), p.get(*js), q.get(*js), in_range(js, q.shape))
    g.eq(t + 'spin', I0(g, a['spin']), spin)
    g.eq(t + 'temperature', I0(g, a['beta']), R_('beta'))
    g.eq(t + 'ground-state energy', I0(g, a['egs']), R_('egs'))


I0 = lambda g, x: lift(g.I.num(x))


for _s in (0, 1):
    @vc('Gfimp: solve, spin %d' % _s, D + ':Gfimp')
    def _(g, s=_s):
        n, m = T.var('n'), T.var('m')
        g.pre(T.cmp_le(2, n), T.cmp_lt(0, R_('beta')))
        c = g.fnc(D, 'Gfimp')
        fits(g)
        solving(g, [])
        o = g.do(lambda: g.I.call(c, [n], dict(nmats=T.var('nmats'), U=R_('U'), beta=R_('beta'), spin=s)))
        g.I.setattr(o, 'H', sym('H', (n, n)))
        g.I.setattr(o, 'V', sym('V', (n, n)))
        g.do(lambda: g.I.call(g.I.getattr(o, 'solve'), []))
        at = lambda k: g.do(lambda: g.I.getattr(o, k))
        solved(g, '', at('gf'), sym('H', (n, n)), sym('V', (n, n)), s)
        g.same('keeps the eigen-space', at('espace') is at('gf').attrs['es'])


@vc('SpinGfimp: routing', D + ':SpinGfimp')
def _(g):
    n, m, o, fit, w, U = impurity(g, 'SpinGfimp')
    solving(g, [])
    mu = R_('mu')
    b = lift(n) - 1
    at = lambda k: g.do(lambda: g.I.getattr(o, k))
    call = lambda f, *a, **kw: g.do(lambda: g.I.call(f, list(a), kw))
    H = lambda s: item(g, at('H'), s)
    d = sym('delta', (2, m), 'C')
    call(at('fit'), d)
    for s in range(2):
        star(g, 'after the fit, spin %d: ' % s, H(s), n, 0, lambda k, s=s: fit(C_('delta', s, w), k))
    call(at('update'), mu)
    for s in range(2):
        star(g, 'after the update, spin %d: ' % s, H(s), n, -mu, lambda k, s=s: fit(C_('delta', s, w), k))
        mem = item(g, o, s)
        g.eq('chemical potential of spin %d' % s, g.do(lambda: g.I.getattr(mem, 'mu')), mu)
        v = g.do(lambda: g.I.call(g.I.getattr(mem, 'Delta'), [zs(m)]))
        g.array('hybridisation of spin %d' % s, v, (m,),
                lambda k, s=s: ssum(b, lambda j: fit(C_('delta', s, w), b + j) ** 2 * inv(zk(k) - fit(C_('delta', s, w), j))))
    g.eq('chemical potential', at('mu'), mu)
    up, dw = at('up'), at('dw')
    g.same('up and down are members 0 and 1', up is item(g, o, 0) and dw is item(g, o, 1))
    call(g.I.getattr(up, 'update'), R_('muu'))
    call(g.I.getattr(dw, 'update'), R_('mud'))
    for s, x in enumerate((R_('muu'), R_('mud'))):
        star(g, 'own chemical potential, spin %d: ' % s, H(s), n, -x, lambda k, s=s: fit(C_('delta', s, w), k))
    call(at('solve'))
    for s, x in enumerate((up, dw)):
        solved(g, 'spin %d: ' % s, g.I.getattr(x, 'gf'), at('H'), at('V'), s)
    d2 = sym('delta2', (2, m), 'C')
    call(at('fit_update'), d2, R_('mu2'))
    for s in range(2):
        star(g, 'fit and update, spin %d: ' % s, H(s), n, -R_('mu2'), lambda k, s=s: fit(C_('delta2', s, w), k))
    call(at('spin_symmetrize'))
    for s in range(2):
        star(g, 'symmetrised, spin %d: ' % s, H(s), n, -R_('mu2'), lambda k: fit(C_('delta2', 0, w), k))
        g.array('symmetrised bath of spin %d' % s, g.do(lambda: g.I.getattr(item(g, o, s), 'x')), (2 * b,), lambda k: fit(C_('delta2', 0, w), k))
    # and the spins are independent again afterwards
    call(at('fit_update'), d, mu)
    for s in range(2):
        star(g, 'fitted again, spin %d: ' % s, H(s), n, -mu, lambda k, s=s: fit(C_('delta', s, w), k))
        g.array('bath of spin %d, fitted again' % s, g.do(lambda: g.I.getattr(item(g, o, s), 'x')), (2 * b,), lambda k, s=s: fit(C_('delta', s, w), k))


@vc('SpinGfimp: Dyson equation', D + ':SpinGfimp')
def _(g):
    n, m, o, fit, w, U = impurity(g, 'SpinGfimp')
    call = lambda f, *a, **kw: g.do(lambda: g.I.call(f, list(a), kw))
    mus = [R_('muu'), R_('mud')]
    for s in range(2):
        mem = item(g, o, s)
        call(g.I.getattr(mem, 'update'), mus[s])
        with_gf(g, mem, 'Delta%d' % s, 'gf%d' % s)
    for s in range(2):
        dyson(g, item(g, o, s), m, -mus[s], 'Delta%d' % s, 'gf%d' % s, 'spin %d: ' % s)
    S = call(g.I.getattr(o, 'Sigma'), zs(m))
    for s in range(2):
        g.array('self-energy of spin %d' % s, item(g, S, s), (m,), lambda k, s=s: zk(k) + mus[s] - C_('Delta%d' % s, zk(k)) - inv(C_('gf%d' % s, T.re_(zk(k)), T.im_(zk(k)))))


# ------------------------------------------------------------------ lattice

def lattice(g, cls, arg, scalar=False):
    m = T.var('m')
    g.pre(T.cmp_le(1, m))
    c = g.fnc(D, cls)
    o = g.do(lambda: g.I.call(c, [fun(arg)]))
    g.do(lambda: g.I.call(g.I.getattr(o, 'update'), [R_('mu')]))
    g.do(lambda: g.I.call(g.I.getattr(o, 'set_local'), [fun('Sigma')]))
    return m, o


def consistent(g, m, o, G, Gi, g0, g0i):
    mu = R_('mu')
    z = zs(m)
    at = lambda k: g.do(lambda: g.I.getattr(o, k))
    call = lambda f, *a, **kw: g.do(lambda: g.I.call(f, list(a), kw))
    Sg = lambda k: C_('Sigma', zk(k))
    g.array('interacting function', call(o, z), (m,), G)
    g.array('its inverse', call(o, z, inverse=True), (m,), Gi)
    g.array('free function', call(at('free'), z), (m,), g0)
    g.array('its inverse', call(at('free'), z, inverse=True), (m,), g0i)
    g.array('Weiss field: Sigma + 1/G', call(at('Weiss'), z), (m,), lambda k: Sg(k) + Gi(k))
    g.array('hybridisation: z + mu - Weiss field', call(at('Delta'), z), (m,), lambda k: zk(k) + mu - Sg(k) - Gi(k))
    g.unchanged('the frequencies are not modified', z, 'z')
    x = C_('z0')
    g.eq('one frequency: interacting function', call(o, x), subst(G, x))
    g.eq('one frequency: hybridisation', call(at('Delta'), x), x + mu - C_('Sigma', x) - subst(Gi, x))


def subst(f, x):
    global zk
    old = zk
    zk = lambda k: x
    try:
        return f(0)
    finally:
        zk = old


@vc('Gfhybrid', D + ':Gfhybrid')
def _(g):
    m, o = lattice(g, 'Gfhybrid', 'Hyb')
    mu = R_('mu')
    f0 = lambda k: zk(k) + mu - C_('Hyb', zk(k))
    f = lambda k: f0(k) - C_('Sigma', zk(k))
    consistent(g, m, o, lambda k: inv(f(k)), f, lambda k: inv(f0(k)), f0)
    v = g.do(lambda: g.I.call(g.I.getattr(o, 'Delta'), [zs(m)]))
    g.array('the hybridisation it returns is the one that defines it', v, (m,), lambda k: C_('Hyb', zk(k)))


@vc('Gfhilbert', D + ':Gfhilbert')
def _(g):
    m, o = lattice(g, 'Gfhilbert', 'Hil')
    mu = R_('mu')
    G, g0 = (lambda k: C_('Hil', zk(k) + mu - C_('Sigma', zk(k)))), (lambda k: C_('Hil', zk(k) + mu))
    consistent(g, m, o, G, lambda k: inv(G(k)), g0, lambda k: inv(g0(k)))


# ------------------------------------------------------------------ matrix lattice and several impurities

P_, Q_ = T.var('P'), T.var('Q')


def matrices(g, spins):
    """nano_dmft.Gfloc with an arbitrary Hamiltonian, overlap, hybridisation matrix and maps between sites and inequivalent sites; a matrix
    inverse is an arbitrary function of (an arbitrary entry (P, Q) of) the matrix"""
    n, q, m = [T.var(x) for x in 'nqm']
    g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_lt(Poly.atom(a), n if a.args[0] == 'neq' else q)] if a.kind == 'App' and a.args[0] in ('neq', 'inv') else [])
    g.pre(T.cmp_le(1, n), T.cmp_le(1, q), T.cmp_le(1, m), in_range((P_, Q_), (n, n)))
    c = g.fnc(N, 'Gfloc')
    H, S = sym('H', (n, n)), sym('S', (n, n))
    hyb = Native(lambda I, z: new((n, n), lambda i, j: C_('Hyb', I.num(z), i, j), 'C'))
    o = g.do(lambda: g.I.call(c, [H, S, hyb, sym('neq', (q,), 'I'), sym('inv', (n,), 'I')]))
    call = lambda f, *a, **kw: g.do(lambda: g.I.call(f, list(a), kw))
    call(g.I.getattr(o, 'update'), R_('mu'))
    sh = (q, 2, m) if spins else (q, m)
    sg = Native(lambda I, z: new(sh, lambda *i: C_('Sigma', i[0], *([i[1]] if spins else []), z.get(i[-1])), 'C'))
    call(g.I.getattr(o, 'set_local'), sg)

    def minv(I, a):
        if not isinstance(a, Arr) or a.ndim != 2:
            raise Unsupported('inverse of something else')
        e = lift(a.get(P_, Q_))
        return new(a.shape, lambda i, j: C_('Inv', e, i, j), 'C')
    g.I.load('numpy').ns['linalg'].ns['inv'] = Native(minv)
    return n, q, m, o, sh, call


for _sp in (False, True):
    @vc('nano_dmft.Gfloc%s' % (', two spins' if _sp else ''), N + ':Gfloc')
    def _(g, spins=_sp):
        n, q, m, o, sh, call = matrices(g, spins)
        mu = R_('mu')
        at = lambda k: g.do(lambda: g.I.getattr(o, k))
        z = zs(m)
        neq, iv = (lambda k: I_('neq', k)), (lambda k: I_('inv', k))
        f0 = lambda x, i, j: (x + mu) * T.app('S', i, j) - T.app('H', i, j) - C_('Hyb', x, i, j)
        x = C_('z0')
        g.array('inverse free function: (z + mu) S - H - Hybrid(z)', call(at('free'), x, inverse=True), (n, n), lambda i, j: f0(x, i, j))
        g.array('free function: its matrix inverse', call(at('free'), x), (n, n), lambda i, j: C_('Inv', f0(x, P_, Q_), i, j))

        def G(*i):
            s, k = i[0], i[-1]
            e = f0(zk(k), P_, Q_) - T.cmp_eq(P_, Q_).poly() * C_('Sigma', iv(P_), *i[1:-1], zk(k))
            return C_('Inv', e, neq(s), neq(s))
        Sg = lambda *i: C_('Sigma', i[0], *i[1:-1], zk(i[-1]))
        vals = [call(o, z), call(at('Weiss'), z), call(at('Delta'), z)]
        g.array('levels of the inequivalent sites', at('ed'), (q,), lambda s: T.app('H', neq(s), neq(s)))
        for v in vals:
            g.shape('one function per inequivalent site%s' % (' and spin' if spins else ''), v, sh)
        for sp in ((lift(0),), (lift(1),)) if spins else ((),):
            t = 'spin %s: ' % sp if spins else ''
            s, k = T.fresh('s'), T.fresh('k')
            rng = in_range((s, k), (q, m))
            g.eq(t + 'interacting function: diagonal, at the inequivalent sites, of the inverse of the free inverse minus the self-energy of the site of each orbital',
                 vals[0].get(s, *sp, k), G(s, *sp, k), rng)
            g.eq(t + 'Weiss field', vals[1].get(s, *sp, k), Sg(s, *sp, k) + inv(G(s, *sp, k)), rng)
            g.eq(t + 'hybridisation: z + mu - e_d - Weiss field', vals[2].get(s, *sp, k),
                 zk(k) + mu - T.app('H', neq(s), neq(s)) - Sg(s, *sp, k) - inv(G(s, *sp, k)), rng)
        g.unchanged('the Hamiltonian is not modified', at('H'), 'H')
        g.unchanged('the overlap is not modified', at('S'), 'S')

        def occ(I, f, a, kw):
            if a[0] is not o or not (lift(I.num(a[1])) - R_('mu2')).is_zero():
                raise Unsupported('occupation of something else')
            return new(sh[:-1], lambda *i: T.app('occ', *i), 'R')
        g.I.contracts['integrate_gf'] = g.I.contracts['matsum_gf'] = occ
        v = call(at('integrate'), R_('mu2'))
        g.array('occupation of every site, both spins', v, (n,),
                (lambda i: T.app('occ', iv(i), lift(0)) + T.app('occ', iv(i), lift(1))) if spins else (lambda i: 2 * T.app('occ', iv(i))))


class Member:
    """one impurity: records what it is given"""

    def __init__(self, g, k):
        self.k = k
        c = self.cls = Cls('Imp')
        self.obj = o = Obj(c)
        o.attrs.update(k=k, fitted=None, mu_=None, n_reset=0, n_solve=0, n_sym=0)

        def method(nm, f):
            c.ns[nm] = Native(f)
            c.ns[nm].method = True
        method('fit', lambda I, s, d: I.setattr(s, 'fitted', d))
        method('update', lambda I, s, mu: I.setattr(s, 'mu_', mu))
        for nm in ('reset_bath', 'solve', 'spin_symmetrize'):
            key = dict(reset_bath='n_reset', solve='n_solve', spin_symmetrize='n_sym')[nm]
            method(nm, lambda I, s, key=key: I.setattr(s, key, s.attrs[key] + 1))
        method('Sigma', lambda I, s, z: new(z.shape, lambda i: C_('sg%d' % k, z.get(i)), 'C'))


for _n in (1, 3):
    @vc('nano_dmft.Gfimp: %d impurities' % _n, N + ':Gfimp')
    def _(g, nn=_n):
        m = T.var('m')
        g.pre(T.cmp_le(1, m))
        mem = [Member(g, k).obj for k in range(nn)]
        g.bounded.append('nano_dmft.Gfimp with %d impurities' % nn)
        c = g.fnc(N, 'Gfimp')
        o = g.do(lambda: g.I.call(c, [list(mem)]))
        at = lambda k: g.do(lambda: g.I.getattr(o, k))
        call = lambda f, *a, **kw: g.do(lambda: g.I.call(f, list(a), kw))
        call(at('fit'), sym('delta', (nn, m), 'C'))
        call(at('update'), sym('mu', (nn,)))
        for k, x in enumerate(mem):
            d = x.attrs['fitted']
            if not isinstance(d, Arr):
                raise Unsupported('fit of something else')
            g.array('impurity %d fits its own hybridisation' % k, d, (m,), lambda i, k=k: C_('delta', k, i))
            g.eq('impurity %d has its own chemical potential' % k, I0(g, x.attrs['mu_']), T.app('mu', lift(k)))
        call(at('update'), R_('mu0'))
        for nm in ('reset_bath', 'solve', 'spin_symmetrize'):
            call(at(nm))
        for k, x in enumerate(mem):
            g.eq('impurity %d takes the common chemical potential' % k, I0(g, x.attrs['mu_']), R_('mu0'))
            for nm in ('n_reset', 'n_solve', 'n_sym'):
                g.eq('impurity %d: %s once' % (k, nm[2:]), lift(x.attrs[nm]), 1)
        S = call(at('Sigma'), zs(m))
        for k in range(nn):
            g.array('self-energy %d' % k, item(g, S, k), (m,), lambda i, k=k: C_('sg%d' % k, zk(i)))
