import numpy as np
from common import *

KT = 8.617333262e-5 * 300.


def cf_tanh(x, M):
    """M levels of the continued fraction of tanh(x/2)"""
    x = np.asarray(x, float)
    t = np.zeros_like(x)
    for k in range(M, 1, -1):
        t = (x / 2) ** 2 / ((2 * k - 1) + t)
    return (x / 2) / (1 + t)


def poles(T, N):
    zp, Rp = get('edpyt.integrate_gf', 'zero_fermi')(N)
    same((np.size(zp), np.size(Rp)), (N, N), 'number of Fermi poles')
    ok((zp > 0).all(), 'a Fermi pole is not positive')
    ok((np.diff(zp) > 0).all(), 'Fermi poles out of order')
    ok((Rp < 0).all(), 'a residue has the wrong sign')
    x = np.concatenate([[0.], np.linspace(-30, 30, 41), [-300., 250., 4. * N, 40. * N]])
    got = -(Rp[None, :] * 2 * x[:, None] / (x[:, None] ** 2 + zp[None, :] ** 2)).sum(1)
    close(got, cf_tanh(x, 2 * N) / 2, 'partial fractions of the Fermi function, %d poles' % N, 1e-9, 1e-9)
    close(-Rp.sum(), N * (2 * N + 1) / 2., 'sum of the residues', 1e-9, 1e-9)
    k = np.arange(max(0, N // 2 - 1))
    if k.size and N > 6:
        k = k[:N // 3]
        close(zp[k], (2 * k + 1) * np.pi, 'leading poles are Matsubara frequencies', 1e-6, 1e-6)


def gfn(e, w):
    def g(z):
        z = np.asarray(z)
        return (w / (z[..., None] - e)).sum(-1)
    return g


def contour(T, seed, mu, npoles, wide=3., nzp=None):
    f = get('edpyt.integrate_gf', 'integrate_gf')
    rs = np.random.RandomState(seed)
    e, w = rs.uniform(-wide, wide, npoles), rs.uniform(0.05, 1, npoles)
    w /= w.sum()
    kw = {} if nzp is None else dict(nzp=nzp)
    N = nzp or 100
    m = np.asarray(mu, float)
    if np.ndim(mu) == 0:
        got = f(gfn(e, w), float(mu), **kw)
    else:
        m0 = m.copy()
        got = f(gfn(e, w), m, **kw)
        close(m, m0, 'chemical potentials unchanged', 0, 0)
    x = (e - m[..., None]) / KT
    close(np.asarray(got), (w * (0.5 - cf_tanh(x, 2 * N) / 2)).sum(-1), 'contour integral', 1e-6, 1e-6)
    if np.abs(x).max() < 100 and N >= 100:
        close(np.asarray(got), (w * fermi(x)).sum(-1), 'occupation from the contour integral', 1e-6, 1e-6)


def default(T, seed):
    f = get('edpyt.integrate_gf', 'integrate_gf')
    rs = np.random.RandomState(seed)
    e, w = rs.uniform(-2, 2, 3), np.array([.2, .3, .5])
    close(f(gfn(e, w)), f(gfn(e, w), 0.), 'default chemical potential', 1e-12, 1e-12)
    close(f(gfn(e, w)), (w * (e < 0)).sum(), 'occupation', 1e-3 + 2e-2 * (np.abs(e).min() < .2), 1e-3)


class Mu:
    def __init__(self, e, w, mu, lead):
        self.e, self.w, self.mu, self.lead = e, w, mu, lead
        self.calls = 0

    def __call__(self, z):
        self.calls += 1
        m = np.asarray(self.mu, float)
        m = m.reshape(m.shape + (1,) * (self.e.ndim + 1 - m.ndim)) if m.ndim else m
        return (self.w[..., None] / (np.asarray(z) + m - self.e[..., None])).sum(-2)


def tail(e, m, beta):
    """remainder of the summation beyond 3000 frequencies with its 1/z, 1/z^2 (and self-consistent 1/z^3) tail"""
    k = 2 * np.arange(3000, 400000) + 1
    w = k * np.pi / beta
    x = m - e
    return (2 / beta) * ((x / (w ** 2 + x ** 2))).sum()


def matsubara(T, seed, shape, npoles, mu, beta=None, own=0.37):
    f = get('edpyt.integrate_gf', 'matsum_gf')
    rs = np.random.RandomState(seed)
    e = rs.uniform(-3, 3, tuple(shape) + (npoles,))
    w = rs.uniform(0.05, 1, tuple(shape) + (npoles,))
    w /= w.sum(-1, keepdims=True)
    own = np.array(own) if isinstance(own, list) else own
    mu = np.array(mu) if isinstance(mu, list) else mu
    g = Mu(e, w, own, None)
    kw = {} if beta is None else dict(beta=beta)
    b = beta or 70.
    got = f(g, mu, **kw)
    close(g.mu, own, 'chemical potential of the function afterwards', 0, 0)
    same(np.shape(got), tuple(shape), 'shape')
    want = (w * fermi(b * (e - (mu[..., None] if np.ndim(mu) else mu)))).sum(-1)
    close(got, want, 'Matsubara sum', 1e-5, 2e-6)
    if seed == 0:
        close(f(g, **kw), (w * fermi(b * e)).sum(-1), 'default chemical potential', 1e-5, 2e-6)


def single(T, e, beta, nmats):
    """one pole: the tail-corrected sum is exact whatever the cut-off"""
    f = get('edpyt.integrate_gf', 'matsum_gf')
    E, W = np.array([[e]]), np.array([[1.]])
    g = Mu(E, W, 0., None)
    got = f(g, 0.2, nmats=nmats, beta=beta)
    wl = (2 * nmats - 1) * np.pi / beta
    # the tail position estimated at the last frequency: -Re G w^2 = -(0.2-e) w^2/(w^2+(0.2-e)^2)
    mm = -(0.2 - e) * wl ** 2 / (wl ** 2 + (0.2 - e) ** 2)
    om = (2 * np.arange(nmats) + 1) * np.pi / beta
    s = ((0.2 - e) / (om ** 2 + (0.2 - e) ** 2) + mm / (mm ** 2 + om ** 2)).sum()
    want = s * 2 / beta - 1 / (1 + np.exp(-beta * mm)) + 1
    close(got, [want], 'Matsubara sum with %d frequencies' % nmats, 1e-9, 1e-9)


def impurity(T, seed, mu):
    """the impurity helper counts both spins"""
    g = get('edpyt.dmft', 'Gfimp')(3, nmats=4, U=1., beta=10.)
    rs = np.random.RandomState(seed)
    e, w = rs.uniform(-2, 2, 4), rs.uniform(.1, 1, 4)
    w /= w.sum()
    g.reset_bath()
    g.gf = lambda a, b: gfn(e, w)(np.atleast_1d(a + 1j * b))
    got = g.integrate(mu)
    want = 2 * (w * (0.5 - cf_tanh((e - mu) / KT, 200) / 2)).sum()
    close(np.ravel(got), [want], 'Gfimp.integrate', 1e-6, 1e-6)
    s = get('edpyt.dmft', 'SpinGfimp')(3, nmats=4, U=1., beta=10.)
    s.reset_bath()
    e2 = e + np.array([.4, -.3, .2, .1])
    for q, ee in zip(s, (e, e2)):
        q.gf = lambda a, b, ee=ee: gfn(ee, w)(np.atleast_1d(a + 1j * b))
    want = sum((w * (0.5 - cf_tanh((ee - mu) / KT, 200) / 2)).sum() for ee in (e, e2))
    close(np.ravel(s.integrate(mu)), [want], 'SpinGfimp.integrate', 1e-6, 1e-6)


def nano(T, seed, n, nneq, spin, mu, size=1):
    """filling of the matrix lattice function, every site, routed through idx_inv"""
    from orc_C21 import lattice
    H, S, Hy, neq, inv = lattice(seed, n, nneq)
    H = H[neq][:, neq][inv][:, inv]
    H = np.diag(H.diagonal()) if nneq < n else H
    S = np.eye(n)
    G = get('edpyt.nano_dmft', 'Gfloc')
    rs = np.random.RandomState(seed)
    shift = rs.uniform(-1, 1, (nneq, 2) if spin else (nneq,))

    def one(comm, r):
        st = nneq // size
        mine = slice(r * st, (r + 1) * st)
        g = G(H, S, lambda z: np.zeros((n, n)), neq, inv, *([] if comm is None else [comm]))
        g.update(0.11)
        g.set_local(lambda z: np.ascontiguousarray((shift[..., None] + 0 * np.asarray(z))[mine]))
        want = []
        for s in range(2 if spin else 1):
            d = (shift[inv, s] if spin else shift[inv])
            E, X = np.linalg.eigh(H + np.diag(d))
            nn = (X ** 2 * fermi(70. * (E - mu))[None, :]).sum(1)
            want.append(nn[neq][inv])
        want = sum(want) if spin else 2 * want[0]
        close(np.ravel(g.integrate(mu)), want, 'occupations per site', 1e-4, 5e-5)
        close(g.mu, 0.11, 'chemical potential of the lattice afterwards', 0, 0)
    if size == 1:
        one(None, 0)
    else:
        run_ranks(size, one)


def main(T):
    for N in (1, 2, 3, 4, 5, 8, 13, 20, 40, 100):
        T.run(poles, N=N)
    s = 0
    for mu in (0., 0.4, -1.3, [0.2], [0.1, -0.5], [0., 1., -1., .3], [[.1, .2, .3], [-.1, -.2, -.3]]):
        for k in (1, 4, 9):
            T.run(contour, seed=s, mu=mu, npoles=k)
            T.run(contour, seed=s, mu=mu, npoles=k, wide=0.3)
            T.run(contour, seed=s, mu=mu, npoles=k, wide=0.3, nzp=[7, 30, 150][s % 3])
            s += 1
    for s in range(4):
        T.run(default, seed=s)
    s = 0
    for shape in ([1], [3], [2, 2]):
        for k in (1, 5):
            for mu, b in ((0., None), (0.6, None), (-1.2, 40.), (0.3, 100.)):
                T.run(matsubara, seed=s, shape=shape, npoles=k, mu=mu, beta=b)
                s += 1
    for own in ([0.4], [0.1, -0.6]):
        for mu in (0.3, [.2] * len(own), [-.4, .5][:len(own)]):
            T.run(matsubara, seed=40, shape=[len(own)], npoles=3, mu=mu, own=own)
    for e in (-1.3, 0.2, 0.9):
        for b, nm in ((10., 50), (70., 300), (35., 1000)):
            T.run(single, e=e, beta=b, nmats=nm)
    for s in range(4):
        T.run(impurity, seed=s, mu=[0., .3, -.8, 1.][s])
    for n, q, spin in ((2, 2, 0), (3, 2, 0), (3, 2, 1), (2, 1, 0), (4, 4, 1)):
        T.run(nano, seed=n, n=n, nneq=q, spin=spin, mu=.15)
    T.run(nano, seed=5, n=4, nneq=4, spin=0, mu=.15, size=2)
    if T.thorough:
        for N in range(6, 90, 3):
            T.run(poles, N=N)
        for s in range(100, 160):
            T.run(contour, seed=s, mu=[0.01 * s, -.01 * s], npoles=1 + s % 7)
            T.run(matsubara, seed=s, shape=[1 + s % 3], npoles=1 + s % 6, mu=0.01 * (s - 130))
