import numpy as np
from common import *
import backend


def params(nb, seed):
    rs = np.random.RandomState(seed)
    p = np.concatenate([rs.uniform(-2, 2, nb), rs.uniform(-1, 1, nb)])
    if seed % 4 == 1:
        p[nb] = 0.
    if seed % 4 == 2 and nb > 1:
        p[1] = p[0]
    if seed % 4 == 3:
        p[0] = 0.
    return p


def freqs(m, seed, kind):
    rs = np.random.RandomState(seed + 100)
    if kind == 'mats':
        return 1j * (2 * np.arange(m) + 1) * np.pi / rs.uniform(1, 70)
    return rs.uniform(-3, 3, m) + 1j * rs.uniform(0.05, 1, m) * rs.choice([-1, 1], m)


def ref(p, z):
    nb = p.size // 2
    e, v = p[:nb], p[nb:]
    x = z[:, None] - e
    return (v ** 2 / x).sum(1), np.hstack([v ** 2 / x ** 2, 2 * v / x])


def objective(p, z, t):
    d, dd = ref(p, z)
    F = t - d
    return (np.abs(F) ** 2).mean(), -2 * (F.real[:, None] * dd.real + F.imag[:, None] * dd.imag).mean(0)


def python(T, nb, m, seed, kind):
    p, z = params(nb, seed), freqs(m, seed, kind)
    rs = np.random.RandomState(seed + 9)
    t = rs.uniform(-1, 1, m) + 1j * rs.uniform(-1, 1, m)
    d, dd = ref(p, z)
    p0, t0, z0 = p.copy(), t.copy(), z.copy()
    dl = get('edpyt.fit_cg', 'Delta')(z)
    dg = get('edpyt.fit_cg', 'DDelta')(z, p.size)
    # a stale content of the output buffers must not matter: evaluate elsewhere first
    dl(p + 0.3); dg(p + 0.3)
    close(dl(p), d, 'Delta', 1e-9, 1e-10)
    close(dg(p), dd, 'DDelta', 1e-9, 1e-10)
    c, g = objective(p, z, t)
    ch = get('edpyt.fit_cg', 'Chi2')(dl, t)
    gr = get('edpyt.fit_cg', 'dChi2')(dl, dg, t)
    close(ch(p), c, 'Chi2', 1e-9, 1e-10)
    close(gr(p), g, 'dChi2', 1e-9, 1e-10)
    close(gr(p), g, 'dChi2 (second evaluation)', 1e-9, 1e-10)
    close(ch(p), c, 'Chi2 (second evaluation)', 1e-9, 1e-10)
    close(p, p0, 'parameters', 0, 0); close(t, t0, 'target', 0, 0); close(z, z0, 'frequencies', 0, 0)


def cbackend(T, nb, m, seed, kind):
    p, z = params(nb, seed), freqs(m, seed, kind)
    rs = np.random.RandomState(seed + 9)
    t = rs.uniform(-1, 1, m) + 1j * rs.uniform(-1, 1, m)
    L = backend.lib(T.root)
    G = backend.Globals(L, nb, z, t)
    d, dd = ref(p, z)
    p0 = p.copy()
    L.eval_delta(backend.dp(p))
    close(G.d[:m], d, 'eval_delta', 1e-9, 1e-10)
    L.eval_ddelta(backend.dp(p))
    close(G.dd[:, :2 * nb], dd, 'eval_ddelta', 1e-9, 1e-10)
    c, g = objective(p, z, t)
    G.d[:m] = 3.; G.dd[:, :2 * nb] = 3.
    close(L.eval_chi2(backend.dp(p)), c, 'eval_chi2', 1e-9, 1e-10)
    G.d[:m] = 3.; G.dd[:, :2 * nb] = 3.
    o = np.full(2 * nb + 2, 5.)
    L.eval_dchi2(backend.dp(p), backend.dp(o))
    close(o[:2 * nb], g, 'eval_dchi2', 1e-9, 1e-10)
    close(o[2 * nb:], [5., 5.], 'memory behind the gradient', 0, 0)
    ok(G.guard(), 'memory behind delta/ddelta was written')
    close(p, p0, 'parameters', 0, 0)
    close(G.t, t, 'target', 0, 0); close(G.z, z, 'frequencies', 0, 0)


def entry_python(T, nb, m, beta, seed):
    """fit_hybrid minimises the objective on z = i(2n+1)pi/beta: the functions handed to the minimiser"""
    import importlib
    M = importlib.import_module('edpyt.fit_cg')
    p = params(nb, seed)
    rs = np.random.RandomState(seed + 9)
    t = rs.uniform(-1, 1, m) + 1j * rs.uniform(-1, 1, m)
    z = 1j * (2 * np.arange(m) + 1) * np.pi / beta
    seen = {}

    def fake(f, x0, fprime=None, **k):
        for d in (0., 0.21, -0.4):
            c, g = objective(x0 + d, z, t)
            close(f(x0 + d), c, 'objective of fit_hybrid', 1e-9, 1e-10)
            close(fprime(x0 + d), g, 'gradient of fit_hybrid', 1e-9, 1e-10)
        close(x0, p0, 'start point', 0, 0)
        seen['x'] = 1
        return x0 + 0.5
    p0 = p.copy()
    keep = getattr(M, 'fmin_cg', None)
    if keep is None:
        raise NotHere('fit_cg.fmin_cg')
    M.fmin_cg = fake
    try:
        M.fit_hybrid(p, m, t, beta)
    finally:
        M.fmin_cg = keep
    if not seen:
        raise NotHere('fit_hybrid does not call fmin_cg')
    close(p, p0 + 0.5, 'parameters returned in place', 1e-14, 1e-14)


def entry_c(T, nb, m, beta, seed):
    """fit() minimises on z = i(2n+1)pi/beta: its reported minimum is the objective there"""
    import ctypes as ct
    L = backend.lib(T.root)
    p = params(nb, seed)
    z = 1j * (2 * np.arange(m) + 1) * np.pi / beta
    q = params(nb, seed + 50)
    t = ref(q, z)[0]
    it, fr = ct.c_int(0), ct.c_double(0)
    L.fit(backend.dp(p), ct.byref(it), ct.byref(fr), nb, m, t.ctypes.data_as(backend.P), beta)
    close(fr.value, objective(p, z, t)[0], 'reported minimum', 1e-7, 1e-13)


def main(T):
    s = 0
    for nb in (1, 2, 3, 5, 8):
        for m in (1, 2, 7, 40):
            for kind in ('mats', 'cplx'):
                s += 1
                T.run(python, nb=nb, m=m, seed=s, kind=kind)
                T.run(cbackend, nb=nb, m=m, seed=s, kind=kind)
    for nb, m, beta in ((1, 5, 3.), (2, 1, 10.), (3, 30, 0.7), (4, 200, 70.), (8, 60, 20.), (7, 3000, 90.), (24, 500, 40.), (1, 1100, 15.)):
        T.run(entry_python, nb=nb, m=m, beta=beta, seed=nb)
        T.run(entry_c, nb=nb, m=m, beta=beta, seed=nb)
    if T.thorough:
        for s in range(100, 600):
            rs = np.random.RandomState(s)
            a = dict(nb=int(rs.randint(1, 12)), m=int(rs.randint(1, 300)), seed=s, kind=['mats', 'cplx'][s % 2])
            T.run(python, **a)
            T.run(cbackend, **a)
