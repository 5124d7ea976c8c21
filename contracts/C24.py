from pyvc.vc import *
from pyvc import npmodel as npm
from pyvc.loops import Invariant

D, DD = 'edpyt.dedlib', 'edpyt.dedlib_dev'
A = T.app
inv = T.inv
R_ = lambda nm: T.var(nm, 'R')
MODS = ((D, 'dedlib'), (DD, 'dedlib_dev'))


for _m, _t in MODS:
    @vc('%s.cumsum' % _t, _m + ':cumsum')
    def _(g, m=_m):
        I, n = g.I, T.var('n')
        g.pre(T.cmp_le(2, n))
        a = sym('a', (n,))
        S = lambda k: A('S', k)         # the running sum: S(0) = a(0), S(k) = S(k-1) + a(k)
        unfold = lambda k: ite(T.cmp_le(k, 0), A('a', 0), S(lift(k) - 1) + A('a', k))
        done = lambda c: lambda k: ite(T.cmp_le(k, c), S(k), A('a', k))

        def check(I, fr, c):
            k = T.fresh('k')
            x = fr.vars['a'].get(k)
            spec = ite(T.cmp_lt(k, c), S(k), ite(T.cmp_eq(k, c), unfold(c), A('a', k)))
            return [('running sums up to here, the rest untouched', (x - spec) * in_range((k,), (n,)).poly())]

        def state(I, fr, c):
            I.store_all(a, done(c))
            return []
        I.invariants[('cumsum', 0)] = Invariant(g, 'running sum', state, check)
        fn = g.fnc(m, 'cumsum')
        for pc, kind, v in g.run(lambda: I.call(fn, [a])):
            if g.same('no exception', kind != 'exc', v):
                g.array('element k is the sum of the first k+1', a, (n,), lambda k: ite(T.cmp_lt(k, n - 1), S(k), unfold(n - 1)))


def gf0(g, m, n):
    """a non-interacting Green function of n poles"""
    I = g.I
    o = Obj(g.fnc(m, 'Gf0'))
    o.attrs.update(poles=sym('pole', (n,)), n=n)
    return o


w_ = lambda j: A('pole', j)

for _m, _t in MODS:
    @vc('%s.Gf0, Gfimp as functions' % _t, _m + ':Gf0')
    def _(g, m=_m):
        I, n, nz = g.I, T.var('n'), T.var('nz')
        g.pre(T.cmp_le(2, n), T.cmp_le(1, nz))
        z = sym('z', (nz,), 'C')
        z_ = lambda i: A('z', i, sort='C')
        G = gf0(g, m, n)
        g.array('the mean of 1/(z - pole)', g.call(G, z), (nz,), lambda i: inv(n) * ssum(n, lambda j: inv(z_(i) - w_(j))))
        x = R_('x')
        g.eq('its derivative', g.call(I.getattr(G, 'derivative'), x), -inv(n) * ssum(n, lambda j: inv(x - w_(j)) * inv(x - w_(j))))
        F = Obj(g.fnc(m, 'Gfimp'))
        F.attrs.update(ek=sym('ek', (n - 1,)), vk2=sym('vk2', (n - 1,)), e0=R_('e0'))
        hyb = lambda i: ssum(n - 1, lambda k: A('vk2', k) * inv(z_(i) - A('ek', k)))
        g.array('the hybridisation, level by level', g.call(I.getattr(F, 'delta'), z), (nz, n - 1), lambda i, k: A('vk2', k) * inv(z_(i) - A('ek', k)))
        g.array('1/(z - e0 - hybridisation)', g.call(F, z), (nz,), lambda i: inv(z_(i) - R_('e0') - hyb(i)))
        rs = Obj(Cls('rs'))
        rs.attrs['poles'] = sym('pole', (n,))
        o = g.call(g.fnc(m, 'Gf0'), rs)
        g.same('the poles are those of the sampler', o.attrs['poles'] is rs.attrs['poles'] and o.attrs['rs'] is rs)
        g.eq('as many as the sampler has', o.attrs['n'], n)

    @vc('%s.Gfimp.fit' % _t, _m + ':Gfimp.fit')
    def _(g, m=_m):
        I, n = g.I, T.var('n')
        g.pre(T.cmp_le(2, n))
        G = gf0(g, m, n)
        M = I.load(m)
        bad = []

        def root(I, f, x0, **kw):
            """the zero that scipy finds, a function of the function and of the starting point"""
            if f is not G or kw:
                raise Unsupported('another root search')
            return new((1,), lambda i: A('root', I.num(x0)), 'R')
        M.ns['fsolve'] = Native(root)
        o = g.call(M.ns['Gfimp'], n)
        g.call(I.getattr(o, 'fit'), G)
        e = lambda i: A('root', (w_(lift(i) + 1) + w_(i)) * Fraction(1, 2))
        d = lambda x: -inv(n) * ssum(n, lambda j: inv(x - w_(j)) * inv(x - w_(j)))
        g.array('bath energies: the zeros searched from the middle of consecutive poles', o.attrs['ek'], (n - 1,), e)
        g.array('squared couplings: minus one over the slope there', o.attrs['vk2'], (n - 1,), lambda i: -inv(d(e(i))))
        g.eq('level at the mean of the poles', o.attrs['e0'], inv(n) * ssum(n, w_))
        g.unchanged('the poles are left alone', G.attrs['poles'], 'pole')


def star(e0, ek, vk):
    """impurity at site 0, bath level k at site k + 1"""
    def h(i, j):
        return ite(T.cmp_eq(i, j), ite(T.cmp_eq(i, 0), e0, ek(lift(i) - 1)),
                   ite(T.cmp_eq(i, 0), -vk(lift(j) - 1), ite(T.cmp_eq(j, 0), -vk(lift(i) - 1), A('old', i, j))))
    return h


for _m, _t in MODS:
    @vc('%s.build_siam' % _t, _m + ':build_siam')
    def _(g, m=_m):
        I, n = g.I, T.var('n')
        g.pre(T.cmp_le(2, n))
        H, V = sym('old', (n, n)), sym('oldV', (n, n))
        F = Obj(Cls('gfimp'))
        F.attrs.update(ek=sym('ek', (n - 1,)), vk2=sym('vk2', (n - 1,)), e0=R_('e0'))
        if m == D:
            g.call(g.fnc(m, 'build_siam'), H, V, R_('U'), F)
            g.array('interaction on the impurity only', V, (n, n), lambda i, j: ite(band(T.cmp_eq(i, 0), T.cmp_eq(j, 0)), R_('U'), A('oldV', i, j)))
        else:
            g.call(g.fnc(m, 'build_siam'), H, F)
        g.array('star geometry', H, (n, n), star(R_('e0'), lambda k: A('ek', k), lambda k: npm.sqrt(A('vk2', k))))
        g.unchanged('the fit is left alone', F.attrs['ek'], 'ek')
        g.unchanged('the couplings are left alone', F.attrs['vk2'], 'vk2')


# ------------------------------------------------------------------ thermal averages of an eigen-space
def thermo(pre, ns, beta, egs):
    """(mean energy above egs, partition function)"""
    E = lambda k, j: A(pre + 'E', k, j) - egs
    tot = lambda f: ssum(ns, lambda k: ssum(A(pre + 'nev', k, sort='I'), lambda j: f(E(k, j))))
    Z = tot(lambda e: npm.exp(-beta * e))
    return tot(lambda e: e * npm.exp(-beta * e)) * inv(Z), Z


for _m, _t in MODS:
    @vc('%s: partition function, mean energy, entropy' % _t, _m + ':get_entropy')
    def _(g, m=_m):
        I = g.I
        ns, nb = T.var('ns'), T.var('nbs')
        g.pre(T.cmp_le(1, ns), T.cmp_le(1, nb))
        beta, egs, egb = R_('beta'), R_('egs'), R_('egb')
        g.pre(T.cmp_lt(0, beta))
        M = I.load(m)
        sp, spb = sym_espace(g, ns), sym_espace(g, nb, 'b')
        E, Z = thermo('', ns, beta, egs)
        r = g.call(M.ns['_get_entropy_params'], sp, egs, beta)
        g.eq('mean energy above the ground state', r[0], E)
        g.eq('partition function', r[1], Z)
        kB = M.ns['kB'] = R_('kB')         # the constant of scipy
        x, y, t = R_('x'), R_('y'), R_('t')
        log = I.load('numpy').ns['log']
        g.eq('k ln Z + E/T', g.call(M.ns['_calc_entropy'], x, y, t), lift(kB) * I.num(I.call(log, [x])) + y * inv(t))
        seen = []

        def free(I, ek):
            seen.append(ek)
            return (spb, egb)
        M.ns['build_non_interacting_espace'] = Native(free)
        F = Obj(Cls('gfimp'))
        F.attrs.update(ek=sym('ek', (T.var('nbath'),)))
        S = g.call(M.ns['get_entropy'], F, sp, egs, beta)
        g.same('the reference is the free bath of this sample', bool(seen) and all(s is F.attrs['ek'] for s in seen))
        Eb, Zb = thermo('b', nb, beta, egb)
        lg = lambda q: I.num(I.call(log, [q]))
        g.eq('entropy of the whole minus entropy of the bath', S, lift(kB) * (lg(Z) + beta * E - lg(Zb) - beta * Eb))


@vc('dedlib_dev.get_occupation', DD + ':get_occupation')
def _(g):
    I, ns = g.I, T.var('ns')
    g.pre(T.cmp_le(1, ns))
    beta, egs, pos = R_('beta'), R_('egs'), T.var('pos')
    M = I.load(DD)
    sp = sym_espace(g, ns)

    def one(I, evecs, exps, up, dw, p):
        """contract of get_evecs_occupation, decided under C14: linear in the weights"""
        k = evecs.buf
        j = T.fresh('j')
        kk = lift(evecs.get(0, j))
        return ssum(evecs.shape[1], lambda j: I.num(exps.get(j)) * A('occ', evecs.get(A('row'), j), up.get(0), dw.get(0), p))
    M.ns['get_evecs_occupation'] = Native(one)
    r = g.call(M.ns['get_occupation'], sp, egs, beta, pos)
    E = lambda k, j: A('E', k, j) - egs
    tot = lambda f: ssum(ns, lambda k: ssum(A('nev', k, sort='I'), lambda j: f(k, j) * npm.exp(-beta * E(k, j))))
    o = lambda k, j: A('occ', A('vec', k, A('row'), j), A('up', k, 0, sort='I'), A('dw', k, 0, sort='I'), pos)
    g.eq('thermal average over all states of all sectors', r, tot(o) * inv(tot(lambda k, j: lift(1))))


# ------------------------------------------------------------------ sampling
def bare(g, p, ctx):
    """p without its brackets where that makes no difference"""
    q = lift(0)
    for m, c in p.t.items():
        x = lift(c)
        for a, e in m:
            if a.kind != 'Iv':
                x = x * Poly.atom(a) ** e
        q = q + x
    return q if g.S.implied(ctx, T.cmp_eq(p, q)) else p


def deep(g, p, ctx):
    """p with the arguments of its functions simplified"""
    r = lift(0)
    for m, c in g.S.simp(lift(p), ctx).t.items():
        x = lift(c)
        for a, e in m:
            y = Poly.atom(a)
            if a.kind == 'App':
                y = A(a.args[0], *[bare(g, deep(g, z, ctx), ctx) for z in a.args[1:]], sort=y.sort)
            x = x * y ** e
        r = r + x
    return r


for _m, _t in MODS:
    @vc('%s.RandomSampler: the cumulative distribution' % _t, _m + ':RandomSampler.__init__')
    def _(g, m=_m):
        I, n, L = g.I, T.var('n'), T.var('L')
        lo, hi = R_('lo'), R_('hi')
        g.pre(T.cmp_le(1, n), T.cmp_lt(lo, hi), T.cmp_le(2, L))
        M = I.load(m)
        calls = []

        def grid(I, a, b, num, endpoint=True, **kw):
            calls.append((a, b, endpoint, kw))
            return npm.linspace(I, a, b, L, endpoint)
        I.load('numpy').ns['linspace'] = Native(grid)
        I.load('numpy').ns['diff'] = Native(lambda I, l: new((1,), lambda i: I.num(l[1]) - I.num(l[0]), 'R'))

        def run(I, a):
            """contract of cumsum, decided above"""
            f = a.snap()
            I.store_all(a, lambda k: ssum(lift(k) + 1, lambda l: f(l)))
        M.ns['cumsum'] = Native(run)
        p = Native(lambda I, x: new(x.shape, lambda k: A('dos', x.get(k)), 'R'))
        rng = Obj(Cls('rng'))
        s = g.call(M.ns['RandomSampler'], p, [lo, hi], n, rng)
        x = lambda k: lo + (hi - lo) * lift(k) * inv(L - 1)
        tot = ssum(L, lambda l: A('dos', x(l)))
        g.array('energies from one limit to the other', s.attrs['eners'], (L,), x)
        g.array('normalised running sum of the distribution', s.attrs['cdf'], (L,), lambda k: ssum(lift(k) + 1, lambda l: A('dos', x(l)) * inv(tot)))
        g.shape('room for the poles', s.attrs['poles'], (n,))
        g.same('its own random stream', s.attrs['rng'] is rng)

    @vc('%s.RandomSampler: sampling' % _t, _m + ':RandomSampler.__call__')
    def _(g, m=_m):
        I, n, L = g.I, T.var('n'), T.var('L')
        g.pre(T.cmp_le(1, n), T.cmp_le(2, L))
        M = I.load(m)
        s = Obj(M.ns['RandomSampler'])
        cdf, en = sym('cdf', (L,)), sym('ener', (L,))
        rng = Obj(Cls('rng'))
        rng.attrs['count'] = lift(0)

        def draw(I):
            c = rng.attrs['count']
            I.set(rng.attrs, 'count', lift(c) + 1)
            return A('draw', c)
        rng.attrs['random'] = Native(draw)
        s.attrs.update(cdf=cdf, eners=en, rng=rng, poles=sym('old', (n,)))
        srt = []

        def search(I, a, v, side='left', **kw):
            if a is not cdf or side != 'left' or kw:
                raise Unsupported('another search')
            return A('place', I.num(v), sort='I')
        I.load('numpy').ns['searchsorted'] = Native(search)
        # a draw is not above the last value of the distribution
        g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_lt(Poly.atom(a), L)] if a.kind == 'App' and a.args[0] == 'place' else [])
        po = s.attrs['poles']

        def order(I, a):
            if a is not po:
                raise Unsupported('another array is sorted')
            srt.append(a.snap())
            I.store_all(a, lambda i: A('sorted', i))
        I.array_sort = order
        g.call(s)
        x = T.fresh('x')
        if not srt:
            raise Unsupported('no sort')
        g.same('sorted once, in the array that the Green function reads', len(srt) == 1 and s.attrs['poles'] is po)
        g.eq('draw number i picks the first energy whose cumulative value is not below it', deep(g, srt[0](x), I.pc + [in_range((x,), (n,))]), A('ener', A('place', A('draw', x), sort='I')), in_range((x,), (n,)))
        g.array('the poles are the sorted draws', po, (n,), lambda i: A('sorted', i))
        g.unchanged('the distribution is left alone', cdf, 'cdf')
        g.unchanged('the energies are left alone', en, 'ener')


# ------------------------------------------------------------------ several impurities (1 to 3 of them, any number of bath levels)
for _m, _t in MODS:
    for _K in (1, 2, 3):
        @vc('%s.build_moam, %d impurities' % (_t, _K), _m + ':build_moam')
        def _(g, m=_m, K=_K):
            I, nb = g.I, T.var('nb')
            g.pre(T.cmp_le(1, nb))
            n = K + K * nb
            H = sym('old', (n, n))
            fits = []
            for i in range(K):
                F = Obj(Cls('gfimp'))
                F.attrs.update(ek=sym('ek%d' % i, (nb,)), vk2=sym('vk%d' % i, (nb,)), e0=R_('e%d' % i))
                fits.append(F)
            g.call(g.fnc(m, 'build_moam'), H, fits)
            k, l = T.fresh('k'), T.fresh('l')
            rng = band(in_range((k,), (nb,)), in_range((l,), (nb,)))
            at = lambda i, k: K + i * nb + k
            at_ = lambda r, c: H.get(lift(r), lift(c))
            for i in range(K):
                g.eq('level of impurity %d' % i, at_(i, i), R_('e%d' % i))
                for j in range(K):
                    if i != j:
                        g.eq('impurities %d and %d are left alone' % (i, j), at_(i, j), A('old', i, j))
                    v = -npm.sqrt(A('vk%d' % i, k)) if i == j else A('old', i, at(j, k))
                    w = -npm.sqrt(A('vk%d' % i, k)) if i == j else A('old', at(j, k), i)
                    g.eq('impurity %d and the bath of %d' % (i, j), at_(i, at(j, k)), v, rng)
                    g.eq('the bath of %d and impurity %d' % (j, i), at_(at(j, k), i), w, rng)
                    o = A('old', at(i, k), at(j, l))
                    g.eq('baths of %d and %d' % (i, j), at_(at(i, k), at(j, l)), ite(T.cmp_eq(k, l), A('ek%d' % i, k), o) if i == j else o, rng)
                g.unchanged('the fit of %d is left alone' % i, fits[i].attrs['ek'], 'ek%d' % i)
                g.unchanged('the couplings of %d are left alone' % i, fits[i].attrs['vk2'], 'vk%d' % i)
            g.shape('nothing is resized', H, (n, n))


# ------------------------------------------------------------------ averages over the samples
class Run:
    """everything a solver calls, as functions of the number t of the sample drawn last"""

    def __init__(self, g, m, N):
        self.g, self.I, self.m = g, g.I, m
        I = g.I
        self.n, self.nz, self.N = T.var('n'), T.var('nz'), N
        self.U, self.beta, self.mu = R_('U'), R_('beta'), R_('sigma0')
        g.pre(T.cmp_le(2, self.n), T.cmp_le(1, self.nz), T.cmp_le(1, N), bnot(T.cmp_eq(self.U, 0)))
        self.z = sym('z', (self.nz,), 'C')
        self.ghost = {'t': lift(0)}
        self.seen = {}
        M = self.M = I.load(m)
        self.rs, self.rng, self.dos = Obj(Cls('rs')), Obj(Cls('rng')), Native(lambda I, x: x)
        G, F = self.G, self.F = Obj(Cls('gf0')), Obj(Cls('gfimp'))
        G.attrs['sample'] = Native(lambda I: I.set(self.ghost, 't', self.t + 1))
        G.cls.ns['__call__'] = meth(lambda I, o, z: self.same_z(z) or new((self.nz,), lambda i, t=self.t: A('G0', t, i, sort='C'), 'C'))
        F.attrs['fit'] = Native(lambda I, gf: self.fit(gf))
        self.ok = []
        M.ns['RandomSampler'] = Native(self.sampler)
        M.ns['Gf0'] = Native(lambda I, r: self.want(r is self.rs, 'the sampled poles') and G)
        M.ns['Gfimp'] = Native(lambda I, k: self.want(True, '') and F)
        M.ns['build_espace'] = Native(self.espace)
        M.ns['build_gf_exact'] = Native(self.gf)
        M.ns['get_entropy'] = Native(self.entropy)
        M.ns['get_espace_dim'] = Native(lambda I, n, **kw: sym('neig', (n,), 'I'))
        M.ns['kB'] = R_('kB')
        M.ns['get_occupation'] = Native(self.occ if m == D else self.occ_dev)
        I.load('numpy').ns['allclose'] = Native(lambda I, a, b, **kw: band(*[T.cmp_eq(x, y) for x, y in zip(a, b)]))

    @property
    def t(self):
        return lift(self.ghost['t'])

    def want(self, ok, what):
        if not ok:
            raise Unsupported('a call that is not the expected one: ' + what)
        return True

    def same_z(self, z):
        i = T.fresh('i')
        self.g.eq('Green function of the poles on the given frequencies', z.get(i), A('z', i, sort='C'), in_range((i,), (self.nz,)))

    def sampler(self, I, dos, lims, n, rng, **kw):
        g = self.g
        g.same('the density of states and the random stream are handed over', dos is self.dos and rng is self.rng)
        g.eq('from the first frequency', I.num(lims[0]), T.re_(A('z', 0, sort='C')))
        g.eq('to the last frequency', I.num(lims[1]), T.re_(A('z', self.nz - 1, sort='C')))
        g.eq('as many poles as sites', n, self.n)
        return self.rs

    def fit(self, gf):
        self.want(gf is self.G, 'fit')
        t, F = self.t, self.F
        self.I.set(F.attrs, 'ek', new((self.n - 1,), lambda k: A('ek', t, k), 'R'))
        self.I.set(F.attrs, 'vk2', new((self.n - 1,), lambda k: A('vk2', t, k), 'R'))
        self.I.set(F.attrs, 'e0', A('e0', t))

    def model(self, what, H, V, w):
        """H and V are the model of sample t, with (w = 1) or without interaction"""
        g, n, t = self.g, self.n, self.t
        i, j = T.fresh('i'), T.fresh('j')
        r = in_range((i, j), (n, n))
        s = star(A('e0', t) - (self.mu if w else 0), lambda k: A('ek', t, k), lambda k: npm.sqrt(A('vk2', t, k)))
        on_star = bor(T.cmp_eq(i, j), T.cmp_eq(i, 0), T.cmp_eq(j, 0))
        g.eq(what + ': one-body part', H.get(i, j), ite(on_star, s(i, j), 0), r)
        g.eq(what + ': interaction', V.get(i, j), ite(band(T.cmp_eq(i, 0), T.cmp_eq(j, 0)), self.U if w else 0, 0), r)

    def espace(self, I, H, V, neig=None, **kw):
        w = 0 if lift(V.get(0, 0)).is_zero() else 1
        self.model('interacting model' if w else 'non-interacting model', H, V, w)
        t = self.t
        sp, egs = Obj(Cls('espace')), A('egs', w, t)
        E = [A('E0', w, t, s) for s in (0, 1)]
        for e in E:
            I.assume(T.cmp_le(egs, e))
        I.assume(bor(*[T.cmp_eq(egs, e) for e in E]))
        items = []
        for s in (0, 1):
            d, u = T.var('dim%d' % s), T.var('len%d' % s)
            sct, st = Obj(Cls('sector')), Obj(Cls('states'))
            st.attrs.update(up=new((u,), lambda i, s=s: A('up', w, t, s, i, sort='I'), 'U'), dw=new((u,), lambda i, s=s: A('dw', w, t, s, i, sort='I'), 'U'))
            sct.attrs.update(eigvals=new((d,), lambda j, s=s: ite(T.cmp_eq(j, 0), E[s], A('E', w, t, s, j)), 'R'),
                             eigvecs=new((u * u, d), lambda i, j, s=s: A('vec', w, t, s, i, j), 'R'), states=st)
            items.append(((A('qu', w, t, s, sort='I'), A('qd', w, t, s, sort='I')), sct))
        sp.attrs['items'] = Native(lambda I: list(items))
        sp.attrs['w'], sp.attrs['t'] = w, t

        def get(I, o, k):
            r, v = Obj(Cls('sector')), Obj(Cls('eigvals'))
            v.attrs['min'] = Native(lambda I: A('emin', w, t, *k))
            r.attrs['eigvals'] = v
            return r
        sp.cls.ns['__getitem__'] = meth(get)
        I.set(self.ghost, 'sp%d' % w, sp)
        return sp, egs

    def occ(self, I, evec, up, dw, pos):
        return A('occ', evec.get(A('row', sort='I')), up.get(0), dw.get(0), pos)

    def occ_dev(self, I, sp, egs, beta, pos):
        g = self.g
        g.eq('occupation: inverse temperature', beta, self.beta)
        g.eq('occupation: ground energy of the same spectrum', egs, A('egs', sp.attrs['w'], sp.attrs['t']))
        return A('occ', sp.attrs['w'], sp.attrs['t'], pos)

    def gf(self, I, H, V, sp, beta, egs, *a, **kw):
        g, t = self.g, self.t
        self.want(not a and not kw, 'build_gf_exact')
        self.model('model of the Green function', H, V, 1)
        g.same('Green function of the interacting spectrum', sp.attrs['w'] == 1 and (sp.attrs['t'] - t).is_zero())
        g.eq('Green function: ground energy', egs, A('egs', 1, t))
        g.eq('Green function: inverse temperature', beta, self.beta)

        def call(I, x, y):
            i = T.fresh('i')
            z = A('z', i, sort='C')
            g.eq('real part of the frequency', x.get(i), T.re_(z), in_range((i,), (self.nz,)))
            g.eq('broadening', y.get(i), T.im_(z), in_range((i,), (self.nz,)))
            return new((self.nz,), lambda i: A('G1', t, i, sort='C'), 'C')
        return Native(call)

    def entropy(self, I, F, sp, egs, beta):
        g, t = self.g, self.t
        g.same('entropy of this sample', F is self.F and sp.attrs['w'] == 1 and (sp.attrs['t'] - t).is_zero())
        g.eq('entropy: ground energy', egs, A('egs', 1, t))
        g.eq('entropy: inverse temperature', beta, self.beta)
        return A('ent', t)

    def term(self, i):
        return inv(A('G0', self.t, i, sort='C')) - inv(A('G1', self.t, i, sort='C'))

    def scramble(self, fr):
        """H, V and the number of the sample are whatever earlier samples left: the star of another one"""
        I, n = self.I, self.n
        t = T.fresh('t')
        I.set(self.ghost, 't', t)
        s = star(R_('oldH'), lambda k: A('oldek', k), lambda k: A('oldvk', k))
        I.store_all(fr.vars['H'], lambda i, j: ite(bor(T.cmp_eq(i, j), T.cmp_eq(i, 0), T.cmp_eq(j, 0)), s(i, j), 0))
        I.store_all(fr.vars['V'], lambda i, j: ite(band(T.cmp_eq(i, 0), T.cmp_eq(j, 0)), R_('oldV'), 0))


def meth(f):
    n = Native(f)
    n.method = True
    return n


ACC = ('imp_occp0', 'imp_occp1', 'imp_entropy')

for _buf in (False, True):
    @vc('siam_solve, %s' % ('into a given buffer' if _buf else 'new self-energy'), D + ':siam_solve')
    def _(g, buf=_buf):
        I, N = g.I, T.var('N')
        r = Run(g, D, N)
        nz = r.nz
        out = sym('junk', (nz,), 'C')
        mem = r.ghost
        I.split = 1
        I.maxdec = 24
        arr = lambda fr: fr.vars['sigma']
        num = lambda fr, x: lift(I.num(fr.vars[x]))

        def keep(fr):
            f = arr(fr).snap()
            I.set(mem, 'sigma', f)
            for x in ACC:
                I.set(mem, x, num(fr, x))

        def outer(I, fr, c):
            i = T.fresh('i')
            rg = in_range((i,), (nz,)).poly()
            if lift(c).is_zero():
                return [('nothing is left from before', arr(fr).get(i) * rg)] + [(x + ' starts from nothing', num(fr, x)) for x in ACC]
            res = [('each sample counted adds the difference of the inverse Green functions', (arr(fr).get(i) - mem['sigma'](i) - r.term(i)) * rg)]
            for x in ACC:
                res.append(('each sample counted adds to ' + x, num(fr, x) - mem[x] - contribution(x)))
            return res + [('a sample counted has equal particle numbers', same_numbers(r))]

        def contribution(x):
            if x == 'imp_entropy':
                return A('ent', r.t)
            w = 0 if x == 'imp_occp0' else 1
            s = mem['sector%d' % w]
            return A('occ', A('vec', w, r.t, s, A('row', sort='I'), 0), A('up', w, r.t, s, 0, sort='I'), A('dw', w, r.t, s, 0, sort='I'), 0)

        def same_numbers(r):
            q = lambda w: [A(x, w, r.t, mem['sector%d' % w], sort='I') for x in ('qu', 'qd')]
            return band(*[T.cmp_eq(a, b) for a, b in zip(q(0), q(1))])

        def fresh(fr):
            for x in ACC:
                I.set(fr.vars, x, T.fresh(x, 'R'))
            nm = str(T.fresh('sig', 'R')).replace('!', '_')
            I.store_all(arr(fr), lambda i: A(nm, i, sort='C'))
            r.scramble(fr)
            keep(fr)

        def inner(I, fr, c):
            i = T.fresh('i')
            return [('a sample that is not counted changes nothing', (arr(fr).get(i) - mem['sigma'](i)) * in_range((i,), (nz,)).poly())] + [
                ('nor ' + x, num(fr, x) - mem[x]) for x in ACC]

        def again(I, fr, c):
            for x in ACC:
                I.set(fr.vars, x, mem[x])
            f = mem['sigma']
            I.store_all(arr(fr), f)
            r.scramble(fr)
            return []

        def occ(I, evec, up, dw, pos):
            (m, _), = lift(evec.get(0)).t.items()
            a = m[0][0]
            w, s = int(a.args[1].cval()), int(a.args[3].cval())
            I.set(mem, 'sector%d' % w, s)
            g.same('occupation of a state of this sample, in its own basis', (a.args[2] - r.t).is_zero())
            return r.occ(I, evec, up, dw, pos)
        r.M.ns['get_occupation'] = Native(occ)
        I.invariants[('siam_solve', 0)] = Invariant(g, 'samples', lambda I, fr, c: fresh(fr) or [], outer)
        I.invariants[('siam_solve', 1)] = Invariant(g, 'search', again, inner)
        fn = g.fnc(D, 'siam_solve')
        k = 0
        for pc, kind, v in g.run(lambda: I.call(fn, [r.dos, r.z], dict(sigma=out if buf else None, sigma0=r.mu, n=r.n, N=N, U=r.U, beta=r.beta, rng=r.rng))):
            if not g.same('no exception', kind != 'exc', v):
                continue
            k += 1
            i = T.fresh('i')
            rg = in_range((i,), (nz,))
            g.same('self-energy, occupations and entropy', len(v) == (3 if buf else 4))
            if buf:
                v = (out,) + tuple(v)
            g.eq('self-energy: mean over exactly N samples', v[0].get(i), (mem['sigma'](i) + r.term(i)) * inv(N), rg)
            for x, y in zip(ACC, v[1:]):
                g.eq(x + ': mean over exactly N samples', y, (mem[x] + contribution(x)) * inv(N) * (inv(R_('kB')) if x == 'imp_entropy' else 1))
            g.true('the last sample has equal particle numbers', same_numbers(r))
            g.unchanged('the frequencies are left alone', r.z, 'z')
        g.same('reaches the end', k > 0)


for _buf in (False, True):
    @vc('ded_solve, %s' % ('into a given buffer' if _buf else 'new self-energy'), DD + ':ded_solve')
    def _(g, buf=_buf):
        """every sample counts with the weight of its particle-number mismatch; N of them match"""
        I, N = g.I, T.var('N')
        r = Run(g, DD, N)
        nz = r.nz
        out = sym('junk', (nz,), 'C')
        mem = r.ghost
        I.split = 1
        I.maxdec = 24
        arr = lambda fr: fr.vars['sigma']
        num = lambda fr, x: lift(I.num(fr.vars[x]))
        ALL = ACC + ('Q',)

        def key(w):
            s = mem['sector%d' % w]
            return [A(x, w, r.t, s, sort='I') for x in ('qu', 'qd')]

        def weight():
            d = A('emin', 1, r.t, *key(1)) - A('emin', 1, r.t, *key(0))
            return npm.exp(-r.beta * npm.abs_(d))

        def gain(x):
            q = weight()
            return {'Q': q, 'imp_occp0': q * A('occ', 0, r.t, 0), 'imp_occp1': q * A('occ', 1, r.t, 0), 'imp_entropy': q * A('ent', r.t)}[x]

        def moved():
            d = r.t - mem['t0']
            if d.is_zero():
                return False
            if (d - 1).is_zero():
                return True
            raise Unsupported('samples drawn but not counted')

        def added(fr):
            i = T.fresh('i')
            rg = in_range((i,), (nz,)).poly()
            mv = moved()
            return [('a sample adds its weighted difference of inverse Green functions', (arr(fr).get(i) - mem['sigma'](i) - (weight() * r.term(i) if mv else 0)) * rg)] + [
                ('a sample adds to %s with its weight' % x, num(fr, x) - mem[x] - (gain(x) if mv else 0)) for x in ALL]

        def match():
            return band(*[T.cmp_eq(a, b) for a, b in zip(key(0), key(1))])

        def outer(I, fr, c):
            i = T.fresh('i')
            if lift(c).is_zero():
                return [('nothing is left from before', arr(fr).get(i) * in_range((i,), (nz,)).poly())] + [(x + ' starts from nothing', num(fr, x)) for x in ALL]
            return added(fr) + [('the search ends with equal particle numbers', match())]

        def inner(I, fr, c):
            return added(fr) + ([('the search goes on while they differ', bnot(match()))] if moved() else [])

        def fresh(I, fr, c):
            for x in ALL:
                I.set(fr.vars, x, T.fresh(x, 'R'))
                I.set(mem, x, num(fr, x))
            nm = str(T.fresh('sig', 'R')).replace('!', '_')
            I.store_all(arr(fr), lambda i: A(nm, i, sort='C'))
            I.set(mem, 'sigma', arr(fr).snap())
            r.scramble(fr)
            I.set(mem, 't0', r.t)
            return []
        I.invariants[('ded_solve', 0)] = Invariant(g, 'samples', fresh, outer)
        I.invariants[('ded_solve', 1)] = Invariant(g, 'search', fresh, inner)

        def nxt(I, it):
            """the ground sector: the first one within the tolerance"""
            k, sct = npm.b_next(I, it)
            (m, _), = lift(k[0]).t.items()
            a = m[0][0]
            g.same('the ground sector of this sample', (a.args[2] - r.t).is_zero())
            I.set(mem, 'sector%d' % int(a.args[1].cval()), int(a.args[3].cval()))
            return k, sct
        r.M.ns['next'] = Native(nxt)
        fn = g.fnc(DD, 'ded_solve')
        k = 0
        for pc, kind, v in g.run(lambda: I.call(fn, [r.dos, r.z], dict(sigma=out if buf else None, sigma0=r.mu, n=r.n, N=N, U=r.U, beta=r.beta, rng=r.rng))):
            if not g.same('no exception', kind != 'exc', v):
                continue
            k += 1
            i = T.fresh('i')
            g.same('self-energy, occupations and entropy', len(v) == (3 if buf else 4))
            if buf:
                v = (out,) + tuple(v)
            Q = inv(mem['Q'] + gain('Q'))
            g.eq('self-energy: weighted mean', v[0].get(i), (mem['sigma'](i) + weight() * r.term(i)) * Q, in_range((i,), (nz,)))
            for x, y in zip(ACC, v[1:]):
                g.eq(x + ': weighted mean', y, (mem[x] + gain(x)) * Q * (inv(R_('kB')) if x == 'imp_entropy' else 1))
            g.true('the last sample has equal particle numbers', match())
            g.unchanged('the frequencies are left alone', r.z, 'z')
        g.same('reaches the end', k > 0)
