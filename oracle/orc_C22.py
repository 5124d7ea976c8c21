import io
import contextlib
import numpy as np
from common import *

quiet = lambda: contextlib.redirect_stdout(io.StringIO())


class Imp:
    """impurity stand-in that records the history"""
    def __init__(self, log, nmats, beta, k=0):
        self.log, self.nmats, self.beta, self.k = log, nmats, beta, k
        self.state = {}

    def fit(self, d):
        self.state['fit'] = np.array(d)
        self.log.append(('fit', self.k, np.array(d)))

    def update(self, mu):
        self.state['mu'] = mu
        self.log.append(('update', self.k, np.array(mu, float)))

    def solve(self):
        self.log.append(('solve', self.k, dict(self.state)))

    def reset_bath(self):
        self.log.append(('reset', self.k))

    def Sigma(self, z):
        return 0 * z


class Spin(Imp):
    def __init__(self, log, nmats, beta):
        Imp.__init__(self, log, nmats, beta, 'both')
        self.up, self.dw = Imp(log, nmats, beta, 'up'), Imp(log, nmats, beta, 'dw')

    def spin_symmetrize(self):
        self.log.append(('sym',))


class Loc:
    """lattice stand-in: delta(z) is scripted, integrate(mu) a chosen monotone function"""
    def __init__(self, log, script, ed=0.2, f=None):
        self.log, self.script, self.ed = log, list(script), ed
        self.f = f or (lambda mu: np.array([1 + np.tanh(mu)]))
        self.mu = None
        self.Sig = None

    def update(self, mu):
        self.mu = mu
        self.log.append(('lupdate', float(mu)))

    def set_local(self, S):
        self.Sig = S
        self.log.append(('local', S))

    def Delta(self, z):
        self.z = z
        d = self.script.pop(0)
        self.log.append(('delta', self.mu))
        return d.copy()

    def integrate(self, mu=0.):
        return self.f(mu)


def mk(script, spin=False, nmats=5, beta=4., **kw):
    D = get('edpyt.dmft', 'DMFT')
    log = []
    imp = Spin(log, nmats, beta) if spin else Imp(log, nmats, beta)
    loc = Loc(log, script)
    return D(imp, loc, **kw), imp, loc, log


def rd(rs, n=5):
    return rs.uniform(-1, 1, n) - 1j * rs.uniform(0.1, 1, n)


def one(T, seed, tol, lim, size, goal, ncz=0, sc=1.):
    """one history: the loop is called on a scripted sequence of hybridisations"""
    rs = np.random.RandomState(seed)
    base = rd(rs) * sc
    size, tol = [x * sc for x in size], tol * sc
    outs, d = [], base
    for s in size:
        u = rs.uniform(-1, 1, 5) + 1j * rs.uniform(-1, 1, 5)
        d = d + u / np.linalg.norm(u) * s
        d = d.real - 1j * np.abs(d.imag)
        outs.append(d)
    dm, imp, loc, log = mk(outs, max_iter=lim, tol=tol, **({} if goal is None else dict(occupancy_goal=np.array([goal]))))
    loc.update(0.7)
    del log[:]
    cur = base.copy()
    if ncz:
        cur[:ncz] = cur[:ncz].real + 1j * rs.uniform(.1, 1, ncz)
    Conv, Fail = get('edpyt.dmft', 'Converged'), get('edpyt.dmft', 'FailedToConverge')
    for k, nxt in enumerate(outs):
        del log[:]
        given = cur.copy()
        used = given.real + 1j * np.where(given.imag > 0, -1e-20, given.imag)
        ev = None
        try:
            with quiet():
                r = dm(cur)
        except Conv as e:
            ev = 'conv'
        except Fail as e:
            ev = 'fail'
        kinds = [q[0] for q in log]
        same(kinds, ['fit', 'update', 'solve', 'local', 'delta'], 'order of the step')
        f = log[0][2]
        ok((f.imag <= 0).all(), 'step %d used a hybridisation with positive imaginary part (%s)' % (k, short(f)))
        close(f.real, given.real, 'real part of the hybridisation', 0, 0)
        m = given.imag <= 0
        close(f[m], given[m], 'causal part of the hybridisation is left alone', 0, 0)
        close(f.imag[~m], np.zeros((~m).sum()), 'non-causal part', 0, 1e-8)
        close(log[1][2], 0.7 - 0.2, 'impurity level', 1e-14, 1e-14)
        ok(log[3][1] == imp.Sigma, 'self-energy installed in the lattice')
        close(loc.z, 1j * (2 * np.arange(5) + 1) * np.pi / 4., 'frequencies', 1e-13, 1e-13)
        close(loc.mu, 0.7, 'mu untouched without adjust_mu', 0, 0)
        eps = np.linalg.norm(nxt - used)
        want = 'conv' if eps < tol else ('fail' if k + 1 > lim else None)
        same(ev, want, 'end of iteration %d (change %.3g, tolerance %.3g, limit %d)' % (k, eps, tol, lim))
        if ev:
            return
        close(r, nxt, 'returned hybridisation', 0, 0)
        same(dm.it, k + 1, 'iteration count')
        cur = r


def resid(T, seed, alpha):
    rs = np.random.RandomState(seed)
    a, b = rd(rs), rd(rs)
    kw = {} if alpha is None else dict(alpha=alpha)
    dm, imp, loc, log = mk([b], max_iter=5, tol=1e-9, **kw)
    loc.update(0.1)
    wn = (2 * np.arange(5) + 1) * np.pi / 4.
    with quiet():
        e = dm.distance(a.copy())
    close(e, wn ** -(alpha or 0.) * (b - a), 'residual', 1e-12, 1e-13)


def adjusted(T, seed, goal, spin_goal):
    rs = np.random.RandomState(seed)
    a, b = rd(rs), rd(rs)
    g = np.array([goal / 2, goal / 2]) if spin_goal else np.array([goal])
    dm, imp, loc, log = mk([b], max_iter=5, tol=1e-9, adjust_mu=True, occupancy_goal=g)
    loc.update(0.3)
    del log[:]
    occ, d = None, None
    with quiet():
        occ, d = dm.step(a.copy())
    mu = np.arctanh(goal - 1)
    close(loc.mu, mu, 'adjusted chemical potential', 1e-8, 1e-8)
    close(occ, goal, 'occupation returned', 1e-8, 1e-8)
    close(d, b, 'hybridisation returned', 0, 0)
    same([q[0] for q in log], ['fit', 'update', 'solve', 'local', 'lupdate', 'delta'], 'order of the adjusting step')
    close(log[1][2], 0.3 - 0.2, 'impurity level (old mu)', 1e-14, 1e-14)
    close(log[-1][1], mu, 'hybridisation taken at the new mu', 1e-8, 1e-8)


def direct(T, seed, which):
    rs = np.random.RandomState(seed)
    a = rd(rs)
    log = []
    imp = Spin(log, 5, 4.)
    loc = Loc(log, [])
    loc.mu = 0.9
    if which == 'step':
        get('edpyt.dmft', 'dmft_step')(a, imp, loc)
        same([q[0] for q in log], ['fit', 'update', 'solve', 'local'], 'dmft_step')
        close(log[0][2], a, 'fit', 0, 0)
        close(log[1][2], 0.7, 'update', 1e-14, 1e-14)
    elif which == 'adjust':
        get('edpyt.dmft', 'dmft_step_adjust')(a, imp, loc, np.array([1.5]))
        same([q[0] for q in log], ['fit', 'update', 'solve', 'local', 'lupdate'], 'dmft_step_adjust')
        close(loc.mu, np.arctanh(.5), 'mu', 1e-8, 1e-8)
    else:
        for sign in (1, -1):
            del log[:]
            get('edpyt.dmft', 'dmft_step_magnetic')(a, imp, loc, sign, 0.25)
            same([q[:2] for q in log if q[0] != 'local'], [('fit', 'up'), ('sym',), ('update', 'up'), ('update', 'dw'), ('solve', 'both')], 'magnetic step')
            u = [q[2] for q in log if q[0] == 'update']
            close(u, [0.7 + sign * .25, 0.7 - sign * .25], 'levels of the magnetic step', 1e-14, 1e-14)
    ok(log[-1][0] == 'lupdate' or log[-1][1] == imp.Sigma, 'self-energy')


def start(T, seed, U, mu, mag):
    rs = np.random.RandomState(seed)
    a, b = rd(rs), rd(rs)
    dm, imp, loc, log = mk([a, b], spin=True)
    S0 = lambda z: 0 * z
    kw = {} if mu is None else dict(mu=mu)
    if mag:
        r = dm.initialize_magnetic(U, S0, 1, 0.1, **kw)
    else:
        r = dm.initialize(U, S0, **kw)
    m = U / 2 if mu is None else mu
    close(loc.mu, m, 'initial mu', 1e-14, 1e-14)
    heads = [q for q in log]
    ok(('local', S0) in log, 'initial self-energy installed')
    ok(('reset', 'both') in log, 'bath reset')
    u = [q for q in log if q[0] == 'update' and q[1] == 'both']
    close(u[0][2], m - 0.2, 'impurity level', 1e-14, 1e-14)
    k = [q[0] for q in log].index('delta')
    ok(any(q[0] == 'local' for q in log[:k]) and any(q[0] == 'lupdate' for q in log[:k]), 'guess taken before the lattice is set')
    close(r, b if mag else a, 'initial hybridisation', 0, 0)
    if mag:
        same([q[:2] for q in log[k:] if q[0] in ('fit', 'sym', 'update', 'solve')],
             [('fit', 'up'), ('sym',), ('update', 'up'), ('update', 'dw'), ('solve', 'both')], 'magnetic start')
        close([q for q in log if q[0] == 'fit'][0][2], a, 'fitted hybridisation', 0, 0)


def mu(T, seed, goal):
    A = get('edpyt.dmft', 'adjust_mu')
    rs = np.random.RandomState(seed)
    e = rs.uniform(-3, 3, 6)
    w = rs.uniform(.1, 1, 6)
    w = 2 * w / w.sum()

    class G:
        def integrate(self, m=0.):
            return np.array([(w[:3] / (1 + np.exp(-(m - e[:3])))).sum(), (w[3:] / (1 + np.exp(-(m - e[3:])))).sum()])
    g = np.array([goal * .3, goal * .7])
    m = A(G(), g)
    close(G().integrate(m).sum(), goal, 'occupation at the adjusted chemical potential', 1e-8, 1e-8)


def real(T, seed, U):
    """a real loop: the non-interacting fixed point is reached at once with the exact bath"""
    set_params()
    D, G = get('edpyt.dmft', 'DMFT'), get('edpyt.dmft', 'Gfimp')
    H = get('edpyt.dmft', 'Gfhybrid')
    g = G(2, nmats=6, U=U, beta=50.)
    e, v = 0.3, 0.6
    loc = H(lambda z: v ** 2 / (z - e))
    loc.ed = 0.1
    loc.update(U / 2)
    loc.set_local(lambda z: 0 * z)
    dm = D(g, loc, max_iter=3, tol=1e-2)
    g.reset_bath()
    d0 = loc.Delta(dm.z)
    close(d0, v ** 2 / (dm.z - e), 'hybridisation of the lattice', 1e-10, 1e-12)
    Conv = get('edpyt.dmft', 'Converged')
    try:
        with quiet():
            dm(d0.copy())
    except Conv:
        return
    raise Violation('a fixed hybridisation did not converge')


def mixing(T, which):
    """the mixers drive the residual function until the loop ends itself"""
    rs = np.random.RandomState(3)
    d = rd(rs)
    D = get('edpyt.dmft', 'DMFT')
    log = []

    class L(Loc):
        def Delta(self, z):
            self.log.append(('delta',))
            return 0.5 * log_last(self.log) + 0.5 * d

    def log_last(lg):
        return [q for q in lg if q[0] == 'fit'][-1][2]
    imp = Imp(log, 5, 4.)
    loc = L(log, [])
    loc.mu = 0.
    dm = D(imp, loc, max_iter=200, tol=1e-6)
    Conv = get('edpyt.dmft', 'Converged')
    try:
        with quiet():
            dm.solve(d - 0.3j, mixing_method=which, **(dict(iter=150, alpha=0.5) if which == 'linear' else dict(alpha=0.5)))
    except Conv:
        close(dm.delta, d, 'converged hybridisation', 1e-5, 1e-5)
        return
    raise Violation('the mixer ended without convergence')


def main(T):
    s = 0
    for tol, lim, size in ((1e-2, 5, [1, .5, .1, 5e-3, 1]), (1e-2, 2, [1, 1, 1, 1]), (1e-3, 0, [1, 1]), (1e-3, 0, [1e-5, 1]),
                           (.5, 3, [.6, .51, .49, .1]), (1e-3, 3, [1, 1, 1, 5e-4, 1]), (1e-3, 1, [.2, .2, .2]), (2., 4, [1.])):
        for goal in (None, 1.):
            for ncz in (0, 2, 5):
                T.run(one, seed=s, tol=tol, lim=lim, size=size, goal=goal, ncz=ncz)
                s += 1
    for sc in (1e-5, 1e-3, 1e4):
        for tol, lim, size in ((1e-2, 5, [1, .5, .1, .005, 1]), (.3, 3, [2, 1, 1, 1, 1])):
            T.run(one, seed=s, tol=tol, lim=lim, size=size, goal=None, ncz=0, sc=sc)
    for s in range(3):
        for al in (None, 0., 1., 0.5, -0.5, 2.):
            T.run(resid, seed=s, alpha=al)
    for goal in (.4, 1., 1.7):
        T.run(adjusted, seed=int(10 * goal), goal=goal, spin_goal=False)
        T.run(adjusted, seed=int(10 * goal), goal=goal, spin_goal=True)
    for w in ('step', 'adjust', 'magnetic'):
        T.run(direct, seed=1, which=w)
    for U, m in ((3., None), (1., .2), (2., 0.)):
        for mag in (0, 1):
            T.run(start, seed=2, U=U, mu=m, mag=mag)
    for s, goal in ((0, .5), (1, 1.), (2, 1.6), (3, 1.95)):
        T.run(mu, seed=s, goal=goal)
    T.run(real, seed=0, U=0.)
    T.run(mixing, which='linear')
    T.run(mixing, which='broyden')
    if T.thorough:
        for s in range(100, 300):
            rs = np.random.RandomState(s)
            T.run(one, seed=s, tol=float(10 ** rs.uniform(-3, 0)), lim=int(rs.randint(0, 6)),
                  size=[float(10 ** rs.uniform(-4, 0.5)) for _ in range(7)], goal=[None, 1.][s % 2], ncz=s % 6)
