from pyvc.vc import *

P = 'edpyt.fit_cg'
C = 'C:edpyt_backend'
inv = T.inv
A = T.app


def dims(g):
    nb, m = T.var('nb'), T.var('m')
    g.pre(T.cmp_le(1, nb), T.cmp_le(1, m))
    return nb, m, sym('p', (2 * nb,)), sym('z', (m,), 'C'), sym('t', (m,), 'C')


e_ = lambda j: A('p', j)
z_ = lambda i: A('z', i, sort='C')
t_ = lambda i: A('t', i, sort='C')


def delta(nb, i, z=z_):
    return ssum(nb, lambda j: A('p', nb + j) * A('p', nb + j) * inv(z(i) - A('p', j)))


def ddelta(nb, i, k, z=z_):
    d = lambda j: inv(z(i) - A('p', j))
    en = A('p', nb + k) * A('p', nb + k) * d(k) * d(k)
    hop = 2 * A('p', k) * d(k - nb)
    return ite(T.cmp_lt(k, nb), en, hop)


def resid(nb, i, z=z_):
    F = t_(i) - delta(nb, i, z)
    return T.re_(F), T.im_(F)


def chi2(nb, m, z=z_):
    def one(i):
        a, b = resid(nb, i, z)
        return a * a + b * b
    return ssum(m, one) * inv(m)


def grad(nb, m, k, z=z_):
    def one(i, en):
        a, b = resid(nb, i, z)
        d = inv(z(i) - A('p', k if en else k - nb))
        D = A('p', nb + k) * A('p', nb + k) * d * d if en else 2 * A('p', k) * d
        return a * T.re_(D) + b * T.im_(D)
    return -2 * inv(m) * ite(T.cmp_lt(k, nb), ssum(m, lambda i: one(i, True)), ssum(m, lambda i: one(i, False)))


def kept(g, p, z, t):
    g.unchanged('the parameters are not modified', p, 'p')
    js = T.fresh('x')
    g.eq('the frequencies are not modified', z.get(js), z_(js), in_range((js,), z.shape))
    g.eq('the target is not modified', t.get(js), t_(js), in_range((js,), t.shape))


@vc('derivatives', 'lemma')
def _(g):
    lean(g, 'BathFit.lean', {
        'd_energy': 'v^2/(z-e)^2 is the derivative of v^2/(z-e) with respect to e',
        'd_hopping': '2v/(z-e) is the derivative of v^2/(z-e) with respect to v',
        'd_chi2': '-2/M sum_i (Re F_i Re D_i + Im F_i Im D_i) is the derivative of the mean squared distance when D_i is that of the model'})


@vc('Delta', P + ':_delta')
def _(g):
    nb, m, p, z, t = dims(g)
    f = g.call(g.fnc(P, 'Delta'), z)
    r = g.do(lambda: g.I.call(f, [p]))
    g.array('sum_k V_k^2/(z - e_k)', r, (m,), lambda i: delta(nb, i))
    r = g.do(lambda: g.I.call(f, [p]))
    g.array('the same when evaluated again', r, (m,), lambda i: delta(nb, i))
    kept(g, p, z, t)


@vc('DDelta', P + ':_ddelta')
def _(g):
    nb, m, p, z, t = dims(g)
    f = g.call(g.fnc(P, 'DDelta'), z, 2 * nb)
    r = g.do(lambda: g.I.call(f, [p]))
    g.array('partial derivatives', r, (m, 2 * nb), lambda i, k: ddelta(nb, i, k))
    r = g.do(lambda: g.I.call(f, [p]))
    g.array('the same when evaluated again', r, (m, 2 * nb), lambda i, k: ddelta(nb, i, k))
    kept(g, p, z, t)


@vc('Chi2 over Delta', P + ':Chi2')
def _(g):
    nb, m, p, z, t = dims(g)
    d = g.call(g.fnc(P, 'Delta'), z)
    f = g.call(g.fnc(P, 'Chi2'), d, t)
    r = g.do(lambda: g.I.call(f, [p]))
    g.eq('mean squared distance', r, chi2(nb, m))
    kept(g, p, z, t)


@vc('dChi2 over Delta and DDelta', P + ':dChi2')
def _(g):
    nb, m, p, z, t = dims(g)
    d = g.call(g.fnc(P, 'Delta'), z)
    dd = g.call(g.fnc(P, 'DDelta'), z, 2 * nb)
    f = g.call(g.fnc(P, 'dChi2'), d, dd, t)
    r = g.do(lambda: g.I.call(f, [p]))
    g.array('gradient', r, (2 * nb,), lambda k: grad(nb, m, k))
    kept(g, p, z, t)


def matsubara(beta):
    pi = T.app('pi', sort='R')
    return lambda i: T.IU * (2 * i + 1) * PI() * inv(beta)


def PI():
    from pyvc import npmodel
    return lift(PIV[0])


PIV = [0]


@vc('fit_hybrid minimises the objective on the Matsubara frequencies', P + ':fit_hybrid')
def _(g):
    nb, m, p, z, t = dims(g)
    beta = T.var('beta', 'R')
    M = g.I.load(P)
    seen = {}
    PIV[0] = g.I.load('numpy').ns['pi']

    def cg(I, f, x0, fprime=None, **kw):
        seen['f'], seen['x0'], seen['fp'] = f, x0, fprime
        seen['c'] = I.call(f, [x0])
        seen['g'] = I.call(fprime, [x0])
        return sym('best', (2 * nb,))
    M.ns['fmin_cg'] = Native(cg)
    g.call(g.fnc(P, 'fit_hybrid'), p, m, t, beta)
    zm = matsubara(beta)
    # the objective was evaluated while p still held the start values
    g.eq('objective handed to the minimiser', seen['c'], chi2(nb, m, zm))
    g.array('gradient handed to the minimiser', seen['g'], (2 * nb,), lambda k: grad(nb, m, k, zm))
    g.same('started from the given parameters', seen['x0'] is p)
    g.array('the minimiser found is stored in place', p, (2 * nb,), lambda k: A('best', k))


def cmod(g, nb, m, z, t):
    M = g.I.load(C)
    M.ns.update(nbath=nb, nmats=m, z=z, vals_true=t, delta=sym('dl', (m,), 'C'), ddelta=sym('dd', (m, 2 * nb), 'C'))
    return M


@vc('C eval_delta', C + '/bath.c:eval_delta')
def _(g):
    nb, m, p, z, t = dims(g)
    M = cmod(g, nb, m, z, t)
    g.call(M.ns['eval_delta'], p)
    g.array('sum_k V_k^2/(z - e_k)', M.ns['delta'], (m,), lambda i: delta(nb, i))
    kept(g, p, z, t)


@vc('C eval_ddelta', C + '/bath.c:eval_ddelta')
def _(g):
    nb, m, p, z, t = dims(g)
    M = cmod(g, nb, m, z, t)
    g.call(M.ns['eval_ddelta'], p)
    g.array('partial derivatives', M.ns['ddelta'], (m, 2 * nb), lambda i, k: ddelta(nb, i, k))
    kept(g, p, z, t)


@vc('C eval_chi2', C + '/bath.c:eval_chi2')
def _(g):
    nb, m, p, z, t = dims(g)
    M = cmod(g, nb, m, z, t)
    r = g.call(M.ns['eval_chi2'], p)
    g.eq('mean squared distance', r, chi2(nb, m))
    kept(g, p, z, t)


@vc('C eval_dchi2', C + '/bath.c:eval_dchi2')
def _(g):
    nb, m, p, z, t = dims(g)
    M = cmod(g, nb, m, z, t)
    dx = sym('dx', (2 * nb,))
    g.call(M.ns['eval_dchi2'], p, dx)
    g.array('gradient', dx, (2 * nb,), lambda k: grad(nb, m, k))
    kept(g, p, z, t)


@vc('C fit: objective and gradient on the Matsubara frequencies', C + '/fit.c:fit')
def _(g):
    nb, m, p, z, t = dims(g)
    beta = T.var('beta', 'R')
    M = g.I.load(C)
    seen = {}
    it, fret = sym('it', (1,), 'I'), sym('fr', (1,))

    def fr(I, x, n, ftol, iter_, fret_, func, dfunc):
        seen['ok'] = x is p and iter_ is it and fret_ is fret
        seen['n'] = n
        seen['c'] = I.call(func, [x])
        dx = sym('dx', (2 * nb,))
        I.call(dfunc, [x, dx])
        seen['g'] = dx.snap()
        return None
    M.ns['frprmn'] = Native(fr)
    g.call(M.ns['fit'], p, it, fret, nb, m, t, beta)
    PIV[0] = T.lift(3.14159265358979323846)
    zm = matsubara(beta)
    g.same('the arguments are handed to the minimiser', seen.get('ok'))
    g.eq('all 2 nbath parameters are varied', seen['n'], 2 * nb)
    g.eq('objective handed to the minimiser', seen['c'], chi2(nb, m, zm))
    k = T.fresh('k')
    g.eq('gradient handed to the minimiser', seen['g'](k), grad(nb, m, k, zm), in_range((k,), (2 * nb,)))
    g.unchanged('parameters are left to the minimiser', p, 'p')
    js = T.fresh('x')
    g.eq('the target is not modified', t.get(js), t_(js), in_range((js,), t.shape))
