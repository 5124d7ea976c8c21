import numpy as np
from common import *

Z = np.array([-1.7, -0.45, 0.02, 0.6, 2.3]) + 1j * np.array([0.3, 0.8, 0.11, 1.4, 0.25])


def bath(x, z):
    nb = x.size // 2
    return (x[None, nb:] ** 2 / (z[:, None] - x[None, :nb])).sum(1)


def fakegf(s):
    """an arbitrary causal function of (e, eta)"""
    rs = np.random.RandomState(s)
    e, w = rs.uniform(-2, 2, 4), rs.uniform(0.1, 1, 4)
    return lambda a, b: (w[None, :] / ((a + 1j * b)[:, None] - e[None, :])).sum(1)


def gfs(s):
    f = fakegf(s)
    return lambda z: f(np.real(z), np.imag(z))


def star(H, x, mu, what):
    n = H.shape[0]
    nb = n - 1
    W = np.zeros((n, n))
    W[0, 0] = -mu
    W[0, 1:] = W[1:, 0] = x[nb:]
    W[range(1, n), range(1, n)] = x[:nb]
    close(H, W, what, 0, 1e-13)


def impurity(T, n, seed, mu):
    G = get('edpyt.dmft', 'Gfimp')
    rs = np.random.RandomState(seed)
    g = G(n, nmats=12, U=1.3, beta=6.)
    close(g.V, np.diag([1.3] + [0.] * (n - 1)), 'interaction matrix', 0, 0)
    g.reset_bath()
    x0 = get('edpyt.fit_cg', 'get_initial_bath')(nbath=n - 1)
    close(g.Delta.x, x0, 'reset_bath', 0, 0)
    wn = (2 * np.arange(12) + 1) * np.pi / 6.
    tgt = bath(np.concatenate([rs.uniform(-1, 1, n - 1), rs.uniform(0.2, 0.8, n - 1)]), 1j * wn)
    keep = tgt.copy()
    if seed % 2:
        g.fit_update(tgt, mu)
    else:
        g.fit(tgt)
        g.update(mu)
    close(tgt, keep, 'target hybridisation', 0, 0)
    x = np.array(g.Delta.x)
    ok(np.abs(bath(x, 1j * wn) - tgt).max() <= np.abs(bath(x0, 1j * wn) - tgt).max() + 1e-9, 'the fit did not fit')
    star(g.H, x, mu, 'H after fit and update')
    close(g.mu, mu, 'mu', 0, 0)
    close(g.ek, x[:n - 1], 'ek', 0, 0)
    close(g.vk, x[n - 1:], 'vk', 0, 0)
    close(g.Delta(Z), bath(x, Z), 'Delta(z)', 1e-12, 1e-12)
    g0i = Z + mu - bath(x, Z)
    close(g.free(Z, inverse=True), g0i, 'inverse free function', 1e-12, 1e-12)
    close(g.free(Z), 1 / g0i, 'free function', 1e-12, 1e-12)
    g.gf = fakegf(seed + 5)
    gz = g.gf(Z.real, Z.imag)
    close(g.Sigma(Z), g0i - 1 / gz, 'self-energy', 1e-11, 1e-11)
    close(g(Z), gz, 'G = 1/(g0^-1 - Sigma)', 1e-10, 1e-10)
    same([q is g for q in g], [True], 'iteration over one impurity')
    # update only touches the level
    g.update(mu + 0.7)
    star(g.H, x, mu + 0.7, 'H after update')


def solved(T, n, seed, U, mu):
    """the function installed by solve() is the one of the model (H, V)"""
    from orc_C11 import lehmann
    set_params()
    rs = np.random.RandomState(seed)
    g = get('edpyt.dmft', 'Gfimp')(n, nmats=8, U=U, beta=4000.)
    x = np.concatenate([rs.uniform(-1, 1, n - 1), rs.uniform(0.3, 0.8, n - 1)])
    g.Delta.x[:] = x
    g.H[1:, 0] = g.H[0, 1:] = x[n - 1:]
    g.H[range(1, n), range(1, n)] = x[:n - 1]
    g.update(mu)
    g.solve()
    w = 1j * np.array([0.4, 1.3, 3.])
    want = lehmann(g.H, g.V, 4000., 0, 0, 0, w, {})
    close(g.gf(w.real, w.imag), want, 'solved Green function', 1e-6, 1e-6)
    close(g(w), want, 'G(z) after solve', 1e-6, 1e-6)
    if U == 0:
        close(g.Sigma(w), 0 * w, 'self-energy without interaction', 1e-6, 1e-3)
    close(g.egs, np.linalg.eigvalsh(full_h(g.H, g.V)).min(), 'ground energy', 1e-9, 1e-9)


def spins(T, n, seed):
    S = get('edpyt.dmft', 'SpinGfimp')
    rs = np.random.RandomState(seed)
    g = S(n, nmats=10, U=0.9, beta=5.)
    g.reset_bath()
    x0 = get('edpyt.fit_cg', 'get_initial_bath')(nbath=n - 1)
    for q in g:
        close(q.Delta.x, x0, 'reset_bath', 0, 0)
    wn = (2 * np.arange(10) + 1) * np.pi / 5.
    tgt = np.stack([bath(np.concatenate([rs.uniform(-1, 1, n - 1), rs.uniform(0.2, 0.8, n - 1)]), 1j * wn) for s in range(2)])
    if seed % 2:
        g.fit(tgt)
        g.update(0.4)
        mus = [0.4, 0.4]
    else:
        g.fit_update(tgt, 0.4)
        mus = [0.4, 0.4]
    ref = []
    for s in range(2):
        r = get('edpyt.dmft', 'Gfimp')(n, nmats=10, U=0.9, beta=5.)
        r.reset_bath()
        r.fit(tgt[s])
        ref.append(np.array(r.Delta.x))
    for s, q in enumerate((g.up, g.dw)):
        ok(q is g[s], 'up/dw')
        close(q.Delta.x, ref[s], 'bath of spin %d' % s, 1e-9, 1e-9)
        star(g.H[s], np.array(q.Delta.x), mus[s], 'H of spin %d' % s)
        star(q.H, np.array(q.Delta.x), mus[s], 'H seen by spin %d' % s)
    close(g.mu, 0.4, 'mu', 0, 0)
    for s in range(2):
        g[s].gf = fakegf(seed + 7 + s)
    close(g.Sigma(Z), np.stack([Z + 0.4 - bath(np.array(g[s].Delta.x), Z) - 1 / fakegf(seed + 7 + s)(Z.real, Z.imag)
                                for s in range(2)]), 'Sigma, one row per spin', 1e-10, 1e-10)
    g.up.update(0.9)
    g.dw.update(-0.3)
    close(g.H[:, 0, 0], [-0.9, 0.3], 'per-spin update', 0, 0)
    xu = np.array(g.up.Delta.x)
    g.spin_symmetrize()
    close(g.dw.Delta.x, xu, 'symmetrised bath', 0, 0)
    star(g.H[1], xu, 0.9, 'symmetrised H')
    star(g.H[0], xu, 0.9, 'H of the up spin')


def spin_solved(T, n, seed):
    from orc_C11 import lehmann
    set_params()
    rs = np.random.RandomState(seed)
    g = get('edpyt.dmft', 'SpinGfimp')(n, nmats=8, U=1.1, beta=4000.)
    for s in range(2):
        x = np.concatenate([rs.uniform(-1, 1, n - 1), rs.uniform(0.3, 0.8, n - 1)])
        g[s].Delta.x[:] = x
        g.H[s, 1:, 0] = g.H[s, 0, 1:] = x[n - 1:]
        g.H[s][range(1, n), range(1, n)] = x[:n - 1]
    g.up.update(0.7)
    g.dw.update(0.2)
    g.solve()
    w = 1j * np.array([0.5, 1.3, 3.])
    V = np.diag([1.1] + [0.] * (n - 1))
    for s in range(2):
        want = lehmann(g.H, V, 4000., s, 0, 0, w, {})
        close(g[s].gf(w.real, w.imag), want, 'solved Green function, spin %d' % s, 1e-6, 1e-6)
    # zero-temperature-like integral of both spins
    n0 = g.integrate()
    ok(np.isfinite(n0) and -0.05 <= n0 <= 2.05, 'integrate() = %r' % n0)
    close(n0, g.integrate(0.), 'integrate default', 1e-12, 1e-12)


def hyb(T, seed, mu):
    f = gfs(seed)
    S = gfs(seed + 1)
    g = get('edpyt.dmft', 'Gfhybrid')(f)
    g.set_local(S)
    g.update(mu)
    g0 = Z + mu - f(Z)
    close(g.free(Z, inverse=True), g0, 'inverse free', 1e-12, 1e-12)
    close(g.free(Z), 1 / g0, 'free', 1e-12, 1e-12)
    close(g(Z, inverse=True), g0 - S(Z), 'inverse G', 1e-12, 1e-12)
    close(g(Z), 1 / (g0 - S(Z)), 'G', 1e-12, 1e-12)
    close(g.Weiss(Z), g0, 'Weiss = Sigma + G^-1', 1e-11, 1e-11)
    close(g.Delta(Z), f(Z), 'Delta = z + mu - Weiss', 1e-11, 1e-11)
    Zc = Z.conj()
    close(g.Delta(Zc), f(Zc), 'Delta in the lower half plane', 1e-11, 1e-11)
    close(g(Zc), 1 / (Zc + mu - f(Zc) - S(Zc)), 'G in the lower half plane', 1e-11, 1e-11)


def hil(T, seed, mu):
    f = gfs(seed)
    S = gfs(seed + 1)
    g = get('edpyt.dmft', 'Gfhilbert')(f)
    g.set_local(S)
    g.update(mu)
    G = f(Z + mu - S(Z))
    close(g.free(Z), f(Z + mu), 'free', 1e-12, 1e-12)
    close(g.free(Z, inverse=True), 1 / f(Z + mu), 'inverse free', 1e-12, 1e-12)
    close(g(Z), G, 'G', 1e-12, 1e-12)
    close(g(Z, inverse=True), 1 / G, 'inverse G', 1e-12, 1e-12)
    close(g.Weiss(Z), S(Z) + 1 / G, 'Weiss = Sigma + G^-1', 1e-11, 1e-11)
    close(g.Delta(Z), Z + mu - S(Z) - 1 / G, 'Delta', 1e-11, 1e-11)


def bethe(T):
    ht = get('edpyt.dmft', 'ht')
    e = np.linspace(-1, 1, 200001)[1:-1]
    d = 2 / np.pi * np.sqrt(1 - e ** 2)
    for z in (0.3 + 0.5j, -1.4 + 0.2j, 2. + 1j, 0.1 + 3j):
        z = np.complex128(z)
        close(ht(z), (d / (z - e)).sum() * (e[1] - e[0]), 'Bethe Hilbert transform at %s' % z, 1e-4, 1e-4)


def lattice(seed, n, nneq):
    rs = np.random.RandomState(seed)
    lab = np.concatenate([np.arange(nneq), rs.randint(0, nneq, n - nneq)])
    lab = lab[rs.permutation(n)] if seed % 2 else lab
    _, neq, inv = np.unique(lab, return_index=True, return_inverse=True)
    H = rmat(rs, n, 0.)
    if seed % 3 == 0:
        H = H[inv][:, inv] * 1.
        H = (H + H.T) / 2
    S = np.eye(n) + 0.05 * (lambda a: (a + a.T))(rs.uniform(-1, 1, (n, n)))
    A = rs.uniform(-.5, .5, (n, n))
    A = A.dot(A.T)
    Hy = lambda z: A / (z + 3j)
    return H, S, Hy, neq, inv


def local(z, H, S, Hy, mu, sig, neq):
    """reference, one frequency: diagonal of [(z+mu)S - H - Hybrid - diag(sigma)]^-1"""
    return np.linalg.inv((z + mu) * S - H - Hy(z) - np.diag(sig)).diagonal()[neq]


def matrix(T, seed, n, nneq, spin, mu, size=1):
    G = get('edpyt.nano_dmft', 'Gfloc')
    H, S, Hy, neq, inv = lattice(seed, n, nneq)
    shape = (nneq, 2) if spin else (nneq,)
    ss = [gfs(seed + 11 + k) for k in range(int(np.prod(shape)))]
    full = lambda z: np.array([0.3 * s(z) for s in ss]).reshape(shape + (z.size,))
    sg = full(Z)
    want = np.empty_like(sg)
    for k in range(Z.size):
        if spin:
            for s in range(2):
                want[:, s, k] = local(Z[k], H, S, Hy, mu, sg[inv, s, k], neq)
        else:
            want[:, k] = local(Z[k], H, S, Hy, mu, sg[inv, k], neq)
    ed = H.diagonal()[neq]
    ed_ = ed.reshape((nneq,) + (1,) * (sg.ndim - 1))

    def one(comm, r):
        st = nneq // size
        mine = slice(r * st, (r + 1) * st)
        g = G(H.copy(), S.copy(), Hy, neq, inv, *([] if comm is None else [comm]))
        g.update(mu)
        g.set_local(lambda z: np.ascontiguousarray(full(z)[mine]))
        close(g.ed, ed[mine], 'level energies', 0, 0)
        close(g(Z), want[mine], 'local Green function', 1e-9, 1e-9)
        close(g.Weiss(Z), (sg + 1 / want)[mine], 'Weiss field', 1e-9, 1e-9)
        close(g.Delta(Z), (Z + mu - ed_ - sg - 1 / want)[mine], 'hybridisation', 1e-9, 1e-9)
        z0 = Z[1]
        f0 = (z0 + mu) * S - H - Hy(z0)
        close(g.free(z0, inverse=True), f0, 'inverse free matrix', 1e-12, 1e-12)
        close(g.free(z0), np.linalg.inv(f0), 'free matrix', 1e-10, 1e-10)
        close(g(Z[:1]), want[mine][..., :1], 'one frequency', 1e-9, 1e-9)
        close(g.H, H, 'H unchanged', 0, 0)
    if size == 1:
        one(None, 0)
    else:
        run_ranks(size, one)


class Log:
    def __init__(self, k, log):
        self.k, self.log = k, log
        self.tag = 'tag%d' % k

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        if n in ('up', 'dw'):
            return Log(self.k + (100 if n == 'up' else 200), self.log)

        def f(*a):
            self.log.append((self.k, n, a))
            return np.full(3, self.k + 0.5) if n == 'Sigma' else None
        return f


def container(T, m):
    C = get('edpyt.nano_dmft', 'Gfimp')
    log = []
    mem = [Log(k, log) for k in range(m)]
    g = C(mem)
    same(len(g), m, 'len')
    ok([q is mem[k] for k, q in enumerate(g)] == [True] * m and all(g[k] is mem[k] for k in range(m)), 'members in order')
    same(g.tag, 'tag0', 'default attribute')
    g.reset_bath(); same(log, [(k, 'reset_bath', ()) for k in range(m)], 'reset_bath'); del log[:]
    mu = np.arange(m) + 0.25
    g.update(mu); same(log, [(k, 'update', (mu[k],)) for k in range(m)], 'update, one per member'); del log[:]
    g.update(0.5); same(log, [(k, 'update', (0.5,)) for k in range(m)], 'update, one for all'); del log[:]
    d = np.arange(m * 4.).reshape(m, 4)
    g.fit(d)
    same([(a, b) for a, b, c in log], [(k, 'fit') for k in range(m)], 'fit')
    for k in range(m):
        close(log[k][2][0], d[k], 'fit data of member %d' % k, 0, 0)
    del log[:]
    g.solve(); same(log, [(k, 'solve', ()) for k in range(m)], 'solve'); del log[:]
    close(g.Sigma(Z), np.stack([np.full(3, k + .5) for k in range(m)]), 'Sigma', 0, 0); del log[:]
    g.spin_symmetrize(); same(log, [(k, 'spin_symmetrize', ()) for k in range(m)], 'spin_symmetrize'); del log[:]
    g.up.solve(); same(log, [(k + 100, 'solve', ()) for k in range(m)], 'up'); del log[:]
    g.dw.update(mu); same(log, [(k + 200, 'update', (mu[k],)) for k in range(m)], 'dw')


def moments(T, seed):
    """local moments: n_up - n_dw of the impurity site of each member"""
    set_params()
    C = get('edpyt.nano_dmft', 'Gfimp')
    S = get('edpyt.dmft', 'SpinGfimp')
    mem = []
    want = []
    rs = np.random.RandomState(seed)
    for k in range(2):
        g = S(2, nmats=4, U=1.5, beta=4000.)
        for s in range(2):
            x = np.array([rs.uniform(-1, 1), rs.uniform(.3, .8)])
            g[s].Delta.x[:] = x
            g.H[s] = [[-0.7 - 0.5 * s - k, x[1]], [x[1], x[0]]]
        g.solve()
        mem.append(g)
        Hf = full_h(g.H, np.diag([1.5, 0.]))
        E, X = np.linalg.eigh(Hf)
        w = np.exp(-4000. * (E - E.min()))
        nup = np.array([s & 1 for s in range(16)]); ndw = np.array([(s >> 2) & 1 for s in range(16)])
        want.append(((X ** 2 * (nup - ndw)[:, None]).sum(0) * w).sum() / w.sum())
    close(C(mem).get_local_moments(), want, 'local moments', 1e-6, 1e-6)


def main(T):
    for n in (2, 3, 4):
        for s in range(3):
            T.run(impurity, n=n, seed=s, mu=[0.3, -1.1, 0.][s])
    for n, s, U, mu in ((2, 0, 0., 0.2), (2, 1, 1.5, 0.75), (3, 2, 2., 0.4), (3, 3, 0., -0.3)):
        T.run(solved, n=n, seed=s, U=U, mu=mu)
    for n in (2, 3):
        for s in range(2):
            T.run(spins, n=n, seed=s)
    for n, s in ((2, 0), (3, 1)):
        T.run(spin_solved, n=n, seed=s)
    for s in range(4):
        T.run(hyb, seed=s, mu=[0., 0.7, -0.4, 2.][s])
        T.run(hil, seed=s, mu=[0., 0.7, -0.4, 2.][s])
    T.run(bethe)
    for n, q in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 2), (4, 3), (4, 4), (5, 3)):
        for s in range(3):
            for spin in (0, 1):
                T.run(matrix, seed=s, n=n, nneq=q, spin=spin, mu=[0.2, -0.8, 0.][s])
    for n, q, size in ((3, 2, 2), (4, 4, 2), (5, 4, 4), (6, 4, 2), (5, 3, 3)):
        for spin in (0, 1):
            T.run(matrix, seed=n, n=n, nneq=q, spin=spin, mu=0.3, size=size)
    for m in (1, 2, 4):
        T.run(container, m=m)
    T.run(moments, seed=1)
    if T.thorough:
        for s in range(3, 40):
            n = 2 + s % 5
            T.run(matrix, seed=s, n=n, nneq=1 + s % n, spin=s % 2, mu=0.1 * s - 1)
            T.run(impurity, n=2 + s % 4, seed=s, mu=0.1 * s)
            T.run(spins, n=2 + s % 3, seed=s)
