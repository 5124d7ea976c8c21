from pyvc.vc import *
from pyvc import npmodel as npm
from pyvc import fock

D = 'edpyt.dmft'
R_ = lambda x: T.var(x, 'R')
C_ = lambda f, *a: T.app(f, *[lift(x) for x in a], sort='C')
F_ = lambda f, *a: T.app(f, *[lift(x) for x in a])
at = lambda g, o, k: g.do(lambda: g.I.getattr(o, k))
call = lambda g, f, *a, **kw: g.do(lambda: g.I.call(f, list(a), kw))
MU0, ED, X0 = R_('mu0'), R_('ed'), R_('x0')


def method(f):
    n = Native(f)
    n.method = True
    return n


def impurity(w, names=('imp',)):
    """an impurity whose history is recorded: x the bath (a function of the previous bath and of the hybridisation fitted),
    mu the level, sol the solution (a function of both); the self-energy is a function of all three and of the frequency.
    w is an arbitrary position of the hybridisation"""
    def fit(I, s, delta):
        if not isinstance(delta, Arr) or delta.ndim != 1:
            raise Unsupported('fit of something else')
        v = delta.get(w)
        I.setattr(s, 'x', F_('fit', I.getattr(s, 'x'), T.re_(v), T.im_(v)))
        I.setattr(s, 'clamped', T.im_(v))

    def sigma(I, s, z):
        x, mu, sol = [I.num(I.getattr(s, k)) for k in ('x', 'mu', 'sol')]
        return new(z.shape, lambda *i: C_('Sigma', x, mu, sol, z.get(*i)), 'C')
    c = Cls('impurity')
    c.ns.update(fit=method(fit), update=method(lambda I, s, mu: I.setattr(s, 'mu', I.num(mu))),
                solve=method(lambda I, s: I.setattr(s, 'sol', F_('sol', I.num(I.getattr(s, 'x')), I.num(I.getattr(s, 'mu'))))),
                reset_bath=method(lambda I, s: I.setattr(s, 'x', T.app('xinit'))), Sigma=method(sigma))
    o = Obj(c)
    o.attrs.update(x=X0, mu=R_('m0'), sol=R_('s0'), nmats=T.var('nmats'), beta=R_('beta'))
    return o


def lattice(goals=None):
    """a lattice function: its hybridisation is a function of the chemical potential, of the self-energy installed (evaluated when it
    is asked for) and of the frequency; its occupation a function of the chemical potential given, of its own and of the self-energy"""
    def sig(I, s, z):
        S = I.getattr(s, 'S')
        v = I.call(S, [z])
        if not isinstance(v, Arr):
            raise Unsupported('self-energy of another kind')
        return v

    def hyb(I, s, z):
        mu = I.num(I.getattr(s, 'mu'))
        v = sig(I, s, z)
        if v.ndim != 1:
            raise Unsupported('frequencies of another shape')
        return new(v.shape, lambda k: C_('LDelta', mu, z.get(k), v.get(k)), 'C')

    def integrate(I, s, mu=0):
        own = I.num(I.getattr(s, 'mu'))
        v = sig(I, s, new((1,), lambda k: C_('anyz'), 'C')).get(0)
        return new((T.var('p'),), lambda k: F_('occ', k, I.num(mu), own, T.re_(v), T.im_(v)), 'R')
    c = Cls('lattice')
    c.ns.update(update=method(lambda I, s, mu: I.setattr(s, 'mu', I.num(mu))), set_local=method(lambda I, s, S: I.setattr(s, 'S', S)),
                Delta=method(hyb), integrate=method(integrate))
    o = Obj(c)
    o.attrs.update(mu=MU0, ed=ED, S=Native(lambda I, z: new(z.shape, lambda *i: C_('Sold', z.get(*i)), 'C')))
    return o


def xfit(x, d):
    return F_('fit', x, T.re_(d), T.im_(d))


def sig(x, mu, z):
    return C_('Sigma', x, mu, F_('sol', x, mu), z)


def start(g):
    w, m, p = T.var('w'), T.var('nmats'), T.var('p')
    g.pre(T.cmp_le(1, m), T.cmp_le(1, p), in_range((w,), (m,)), T.cmp_lt(0, R_('beta')))
    return w, m, p


def root(g, log=None):
    """root_scalar by contract: a zero of the function given"""
    g.assume('scipy.optimize.root_scalar returns a zero of the function it is given')
    M = g.I.load(D)

    def rs(I, f, *a, **kw):
        if log is not None:
            log.append(f)
        o = Obj(Cls('root'))
        r = R_('root')
        v = I.num(I.call(f, [r]))
        o.attrs.update(root=r, residual=v, converged=True)
        return o
    M.ns['root_scalar'] = Native(rs)


def occ(g, k, mu, own, S):
    return F_('occ', k, mu, own, T.re_(S), T.im_(S))


@vc('adjust_mu', D + ':adjust_mu')
def _(g):
    w, m, p = start(g)
    f = g.fnc(D, 'adjust_mu')
    log = []
    root(g, log)
    loc = lattice()
    goal = sym('goal', (T.var('q'),), 'R')
    g.pre(T.cmp_le(1, T.var('q')))
    r = call(g, f, loc, goal)
    g.eq('returns the zero found', g.I.num(r), R_('root'))
    S = C_('Sold', C_('anyz'))
    mu = R_('anymu')
    if not log:
        raise Unsupported('no root finding')
    v = call(g, log[-1], mu)
    g.eq('of the total occupation at a chemical potential minus the total goal', g.I.num(v),
         ssum(p, lambda k: occ(g, k, mu, MU0, S)) - ssum(T.var('q'), lambda k: T.app('goal', k)))
    g.eq('the lattice keeps its own chemical potential', at(g, loc, 'mu'), MU0)


def stepped(g, imp, loc, d, w, m, mu, mu_after, pre=''):
    """the impurity has been fitted to d, put at the level of the lattice and solved, in this order; its self-energy is the one of the lattice"""
    x = xfit(X0, d)
    e = mu - ED
    g.eq(pre + 'bath fitted to the hybridisation given', at(g, imp, 'x'), x)
    g.eq(pre + 'level of the impurity', at(g, imp, 'mu'), e)
    g.eq(pre + 'solved with this bath and this level', at(g, imp, 'sol'), F_('sol', x, e))
    z = sym('z', (m,), 'C')
    v = g.do(lambda: g.I.call(g.I.getattr(loc, 'S'), [z]))
    g.array(pre + 'the self-energy of the lattice is the one of the solved impurity', v, (m,), lambda k: sig(x, e, C_('z', k)))
    g.eq(pre + 'chemical potential of the lattice', at(g, loc, 'mu'), mu_after)


@vc('dmft_step', D + ':dmft_step')
def _(g):
    w, m, p = start(g)
    f = g.fnc(D, 'dmft_step')
    imp, loc = impurity(w), lattice()
    d = sym('d', (m,), 'C')
    call(g, f, d, imp, loc)
    stepped(g, imp, loc, C_('d', w), w, m, MU0, MU0)
    g.unchanged('the hybridisation is not modified', d, 'd')


@vc('dmft_step_adjust', D + ':dmft_step_adjust')
def _(g):
    w, m, p = start(g)
    f = g.fnc(D, 'dmft_step_adjust')
    imp, loc = impurity(w), lattice()
    d = sym('d', (m,), 'C')
    log = []
    root(g, log)
    goal = sym('goal', (T.var('q'),), 'R')
    g.pre(T.cmp_le(1, T.var('q')))
    call(g, f, d, imp, loc, goal)
    stepped(g, imp, loc, C_('d', w), w, m, MU0, R_('root'))
    S = sig(xfit(X0, C_('d', w)), MU0 - ED, C_('anyz'))
    if not log:
        raise Unsupported('no root finding')
    v = call(g, log[-1], R_('anymu'))
    g.eq('the zero is the one of the occupation, with the new self-energy, minus the goal', g.I.num(v) -
         ssum(p, lambda k: F_('occ', k, R_('anymu'), R_('root'), T.re_(S), T.im_(S))), -ssum(T.var('q'), lambda k: T.app('goal', k)))


def magnetic(g, w):
    imp = impurity(w)
    up, dw = impurity(w), impurity(w)
    dw.attrs['x'] = R_('x1')

    def symm(I, s):
        I.setattr(dw, 'x', I.getattr(up, 'x'))
        I.setattr(dw, 'mu', I.getattr(up, 'mu'))

    def solve(I, s):
        I.setattr(s, 'sol', F_('sol2', *[I.num(I.getattr(o, k)) for o in (up, dw) for k in ('x', 'mu')]))

    def sigma(I, s, z):
        if z.ndim != 1:
            raise Unsupported('frequencies of another shape')
        sol = I.num(I.getattr(s, 'sol'))
        return new((2,) + z.shape, lambda s, k: C_('Sigma2', s, sol, z.get(k)), 'C')
    c = Cls('spin impurity', [imp.cls]) if False else Cls('spin impurity')
    c.ns.update(imp.cls.ns)
    c.ns.update(spin_symmetrize=method(symm), solve=method(solve), Sigma=method(sigma))
    imp.cls = c
    imp.attrs.update(up=up, dw=dw)
    return imp, up, dw


@vc('dmft_step_magnetic', D + ':dmft_step_magnetic')
def _(g):
    w, m, p = start(g)
    f = g.fnc(D, 'dmft_step_magnetic')
    imp, up, dw = magnetic(g, w)
    loc = lattice()
    d = sym('d', (m,), 'C')
    sg, fd = R_('sgn'), R_('field')
    call(g, f, d, imp, loc, sg, fd)
    x = xfit(X0, C_('d', w))
    e = [MU0 + sg * fd - ED, MU0 - sg * fd - ED]
    for o, k, t in ((up, 0, 'up'), (dw, 1, 'down')):
        g.eq('bath of spin %s: the fit of spin up' % t, at(g, o, 'x'), x)
        g.eq('level of spin %s: the chemical potential shifted by the field' % t, at(g, o, 'mu'), e[k])
    g.eq('solved with both', at(g, imp, 'sol'), F_('sol2', x, e[0], x, e[1]))
    z = sym('z', (m,), 'C')
    v = g.do(lambda: g.I.call(g.I.getattr(loc, 'S'), [z]))
    g.array('the self-energy of the lattice is the one of the solved impurity', v, (2, m), lambda s, k: C_('Sigma2', s, F_('sol2', x, e[0], x, e[1]), C_('z', k)))
    g.eq('chemical potential of the lattice unchanged', at(g, loc, 'mu'), MU0)


def loop(g, adjust=False, goal=None, alpha=None):
    w, m, p = start(g)
    c = g.fnc(D, 'DMFT')
    imp, loc = impurity(w), lattice()
    kw = dict(tol=R_('tol'), max_iter=T.var('limit'), adjust_mu=adjust, alpha=R_('alpha') if alpha is None else alpha)
    if goal is not None:
        kw['occupancy_goal'] = goal
    o = call(g, c, imp, loc, **kw)
    g.I.setattr(o, 'it', T.var('it'))
    return w, m, p, imp, loc, o


wn = lambda k: (2 * lift(k) + 1) * T.var('pi', 'R') * inv(R_('beta'))
inv = T.inv
zn = lambda k: T.IU * wn(k)


@vc('DMFT: frequencies, weights and the initial guess', D + ':DMFT.__init__')
def _(g):
    w, m, p, imp, loc, o = loop(g)
    k = T.fresh('k')
    g.array('Matsubara frequencies', at(g, o, 'z'), (m,), zn)
    c = g.fnc(D, 'DMFT')
    for a in (0, 1, 2):
        o2 = call(g, c, imp, loc, alpha=a)
        g.array('weights: frequencies to the power -%d' % a, at(g, o2, 'weights'), (m,), lambda k: inv(wn(k)) ** a)
        g.eq('starts counting at zero', at(g, o2, 'it'), 0)
    S0 = Native(lambda I, z: new(z.shape, lambda *i: C_('Sgiven', z.get(*i)), 'C'))
    U = R_('U')
    for t, mu, kw in (('half filling', U * lift(Fraction(1, 2)), {}), ('chemical potential given', R_('mug'), dict(mu=R_('mug')))):
        d = call(g, at(g, o, 'initialize'), U, S0, **kw)
        g.array(t + ': lattice hybridisation at this self-energy', d, (m,), lambda k: C_('LDelta', mu, zn(k), C_('Sgiven', zn(k))))
        g.eq(t + ': chemical potential of the lattice', at(g, loc, 'mu'), mu)
        g.eq(t + ': level of the impurity', at(g, imp, 'mu'), mu - ED)
        g.eq(t + ': initial bath', at(g, imp, 'x'), T.app('xinit'))


@vc('DMFT: initial guess of the magnetic loop', D + ':DMFT.initialize_magnetic')
def _(g):
    w, m, p = start(g)
    c = g.fnc(D, 'DMFT')
    imp, up, dw = magnetic(g, w)
    loc = lattice()
    seen = []

    def hyb(I, s, z):
        mu = I.num(I.getattr(s, 'mu'))
        v = I.call(I.getattr(s, 'S'), [z])
        if v.ndim == 1:
            return new(v.shape, lambda k: C_('LDelta', mu, z.get(k), v.get(k)), 'C')
        return new(v.shape, lambda s, k: C_('LDelta2', mu, z.get(k), v.get(0, k), v.get(1, k), s), 'C')
    loc.cls.ns['Delta'] = method(hyb)
    o = call(g, c, imp, loc)
    S0 = Native(lambda I, z: new(z.shape, lambda *i: C_('Sgiven', z.get(*i)), 'C'))
    sg, fd, mu = R_('sgn'), R_('field'), R_('mug')
    d = call(g, at(g, o, 'initialize_magnetic'), R_('U'), S0, sg, fd, mu=mu)
    e = [mu + sg * fd - ED, mu - sg * fd - ED]
    x = xfit(X0, C_('LDelta', mu, zn(w), C_('Sgiven', zn(w))))
    for q, k, t in ((up, 0, 'up'), (dw, 1, 'down')):
        g.eq('level of spin ' + t, at(g, q, 'mu'), e[k])
    xs = [g.I.num(at(g, q, 'x')) for q in (up, dw)]
    g.eq('bath of spin up: fitted to the initial hybridisation', xs[0], x)
    g.eq('the same bath for spin down', xs[1], xs[0])
    S = lambda s, k: C_('Sigma2', s, F_('sol2', x, e[0], x, e[1]), zn(k))
    g.array('hybridisation of the lattice with the symmetry-broken self-energy', d, (2, m), lambda s, k: C_('LDelta2', mu, zn(k), S(0, k), S(1, k), s))


@vc('DMFT.step', D + ':DMFT.step')
def _(g):
    w, m, p, imp, loc, o = loop(g)
    d = sym('d', (m,), 'C')
    v = call(g, at(g, o, 'step'), d)
    stepped(g, imp, loc, C_('d', w), w, m, MU0, MU0)
    x = xfit(X0, C_('d', w))
    g.array('hands back the lattice hybridisation', item(g, v, 1), (m,), lambda k: C_('LDelta', MU0, zn(k), sig(x, MU0 - ED, zn(k))))
    g.unchanged('the hybridisation is not modified', d, 'd')


def item(g, o, k):
    return g.do(lambda: g.I.getitem(o, k))


@vc('DMFT.step, with a goal that is not pursued', D + ':DMFT.step')
def _(g):
    q = T.var('q')
    goal = sym('goal', (q,), 'R')
    w, m, p, imp, loc, o = loop(g, goal=goal)
    g.pre(T.cmp_le(1, q))
    d = sym('d', (m,), 'C')
    v = call(g, at(g, o, 'step'), d)
    stepped(g, imp, loc, C_('d', w), w, m, MU0, MU0)
    x = xfit(X0, C_('d', w))
    g.array('hands back the lattice hybridisation', item(g, v, 1), (m,), lambda k: C_('LDelta', MU0, zn(k), sig(x, MU0 - ED, zn(k))))


@vc('DMFT.step, chemical potential adjusted', D + ':DMFT.step')
def _(g):
    q = T.var('q')
    goal = sym('goal', (q,), 'R')
    w, m, p, imp, loc, o = loop(g, True, goal)
    g.pre(T.cmp_le(1, q))
    log = []
    root(g, log)
    d = sym('d', (m,), 'C')
    v = call(g, at(g, o, 'step'), d)
    stepped(g, imp, loc, C_('d', w), w, m, MU0, R_('root'))
    x = xfit(X0, C_('d', w))
    g.array('hands back the lattice hybridisation at the new chemical potential', item(g, v, 1), (m,),
            lambda k: C_('LDelta', R_('root'), zn(k), sig(x, MU0 - ED, zn(k))))
    S = sig(x, MU0 - ED, C_('anyz'))
    g.eq('occupation at the new chemical potential', g.I.num(item(g, v, 0)), ssum(p, lambda k: occ(g, k, R_('root'), R_('root'), S)))
    if not log:
        raise Unsupported('no root finding')
    u = call(g, log[-1], R_('anymu'))
    g.eq('the zero is the one of the occupation, with the new self-energy, minus the goal', g.I.num(u) -
         ssum(p, lambda k: F_('occ', k, R_('anymu'), R_('root'), T.re_(S), T.im_(S))), -ssum(q, lambda k: T.app('goal', k)))


def after(d):
    """the hybridisation as used: imaginary part never positive"""
    return d


def iteration(g, how, scale=1):
    w, m, p, imp, loc, o = loop(g)
    d0 = lambda k: C_('d', k) * lift(scale)
    d = new((m,), d0, 'C')
    g.fnc(D, 'Converged'), g.fnc(D, 'FailedToConverge')
    k = T.fresh('k')
    rng = in_range((k,), (m,))
    dk = d0(k)
    kinds = set()
    f = at(g, o, how)
    for pc, kind, v in g.run(lambda: g.I.call(f, [d])):
        u = d.get(k)                    # the hybridisation used, at an arbitrary position
        g.eq('real part kept', T.re_(u), T.re_(dk), rng)
        g.eq('imaginary part kept where it was not positive', T.im_(u), T.im_(dk), rng, T.cmp_le(T.im_(dk), 0))
        g.true('imaginary part not positive afterwards', T.cmp_le(T.im_(u), 0), rng)
        g.true('and small where it was positive', T.cmp_le(lift(Fraction(-1, 10 ** 8)), T.im_(u)), rng, T.cmp_lt(0, T.im_(dk)))
        stepped(g, imp, loc, d.get(w), w, m, MU0, MU0)
        x = xfit(X0, d.get(w))
        new_ = lambda k: C_('LDelta', MU0, zn(k), sig(x, MU0 - ED, zn(k)))
        n2 = ssum(m, lambda k: T.abs2(new_(k) - d.get(k)))
        err = npm.sqrt(n2)
        name = (getattr(getattr(v, 'cls', None), 'name', None) or getattr(v, 'name', str(v))) if kind == 'exc' else 'return'
        kinds.add(name)
        conv = T.cmp_lt(err, R_('tol'))
        over = T.cmp_lt(T.var('limit'), T.var('it') + 1)
        if name == 'Converged':
            g.true('convergence is signalled only below the tolerance', conv)
        elif name == 'FailedToConverge':
            g.true('failure is signalled only above the tolerance', bnot(conv))
            g.true('failure is signalled only beyond the limit', over)
        elif name == 'return':
            g.true('no convergence is missed', bnot(conv))
            g.true('no failure is missed', bnot(over))
            g.eq('one more iteration is counted', at(g, o, 'it'), T.var('it') + 1)
            if how == '__call__':
                g.array('returns the lattice hybridisation', v, (m,), new_)
            else:
                ws = at(g, o, 'weights')
                g.array('the weighted difference between the new and the old hybridisation', v, (m,), lambda k: ws.get(k) * (new_(k) - d.get(k)))
        else:
            g.true('no other exception (%s)' % (v,), bnot(T.TRUE))
    g.same('convergence, failure and another iteration all occur', kinds == {'Converged', 'FailedToConverge', 'return'}, str(kinds))


@vc('DMFT.__call__', D + ':DMFT.__call__')
def _(g):
    iteration(g, '__call__')


@vc('DMFT.__call__, a hybridisation close to zero', D + ':DMFT.__call__')
def _(g):
    iteration(g, '__call__', Fraction(1, 10 ** 5))


@vc('DMFT.distance', D + ':DMFT.distance')
def _(g):
    iteration(g, 'distance')


@vc('DMFT.solve', D + ':DMFT.solve')
def _(g):
    g.assume('broyden1 and linearmixing look for a zero of the function given, starting from the hybridisation given; what they do in between is not modelled')
    for meth in ('linear', 'broyden'):
        w, m, p, imp, loc, o = loop(g)
        M = g.I.load(D)
        log = []
        for nm in ('broyden1', 'linearmixing'):
            M.ns[nm] = Native(lambda I, f, x, *a, nm=nm, **kw: log.append((nm, f, x, kw)))
        d = sym('d', (m,), 'C')
        cb = Native(lambda I, *a: None)
        call(g, at(g, o, 'solve'), d, mixing_method=meth, alpha=R_('mix'), callback=cb)
        if len(log) != 1:
            raise Unsupported('another solver')
        nm, f, x, kw = log[0]
        g.same(meth + ': the method asked for', nm == ('linearmixing' if meth == 'linear' else 'broyden1'))
        g.array(meth + ': starts from the hybridisation given', x, (m,), lambda k: C_('d', k))
        g.eq(meth + ': mixing parameter', g.I.num(kw.get('alpha')), R_('mix'))
        g.same(meth + ': callback', kw.get('callback') is cb)
        fn = getattr(f, 'func', None)
        g.same(meth + ': the function whose zero is looked for is the weighted distance',
               hasattr(f, 'self_') and f.self_ is o and getattr(f.f, 'name', None) == 'distance')
