import ctypes as ct
import os
import subprocess
import numpy as np
from common import *
import backend

# one-dimensional objectives with derivative; all have a bounded-below minimum
ONE = {
    'quad': (lambda x: (x - 1.3) ** 2, lambda x: 2 * (x - 1.3)),
    'quadneg': (lambda x: 0.5 * (x + 7.) ** 2 + 3, lambda x: x + 7.),
    'flat': (lambda x: (x - 0.4) ** 4, lambda x: 4 * (x - 0.4) ** 3),
    'cosh': (lambda x: np.cosh(0.3 * (x - 5)), lambda x: 0.3 * np.sinh(0.3 * (x - 5))),
    'far': (lambda x: np.sqrt(1 + (x - 900.) ** 2), lambda x: (x - 900.) / np.sqrt(1 + (x - 900.) ** 2)),
    'wavy': (lambda x: 0.05 * x * x + np.sin(3 * x), lambda x: 0.1 * x + 3 * np.cos(3 * x)),
    'lorentz': (lambda x: -1 / (1 + (x - 2) ** 2), lambda x: 2 * (x - 2) / (1 + (x - 2) ** 2) ** 2),
    'const': (lambda x: 1.0, lambda x: 0.0),
    'steep': (lambda x: 1e4 * (x - 0.01) ** 2, lambda x: 2e4 * (x - 0.01)),
    'kink': (lambda x: abs(x - 0.37), lambda x: float(np.sign(x - 0.37))),
    'steps': (lambda x: (x - 2.2) ** 2 + 0.3 * np.cos(9 * x), lambda x: 2 * (x - 2.2) - 2.7 * np.sin(9 * x)),
    'exp': (lambda x: np.exp(-min(x, 500.)) + 0.01 * max(x, -300), lambda x: -np.exp(-min(x, 500.)) + 0.01),
}


def bracket(T, name, a0, b0):
    L = backend.lib(T.root)
    f = ONE[name][0]
    calls = []

    def cb(x):
        v = float(f(x))
        calls.append((x, v))
        return v
    a, b, c, fa, fb, fc = [np.array([v], float) for v in (a0, b0, 0, 0, 0, 0)]
    L.mnbrak(*[backend.dp(v) for v in (a, b, c, fa, fb, fc)], backend.F1(cb))
    a, b, c, fa, fb, fc = [float(v[0]) for v in (a, b, c, fa, fb, fc)]
    ok(fb <= fa and fb <= fc, 'middle point higher than a neighbour: %r' % ((a, b, c, fa, fb, fc),))
    ok(min(a, c) <= b <= max(a, c), 'middle point not between: %r' % ((a, b, c),))
    for x, v in ((a, fa), (b, fb), (c, fc)):
        ok(float(f(x)) == v, 'reported value is not the objective at %r' % x)
    ok(fb <= min(float(f(a0)), float(f(b0))), 'bracket lost the better of the two given points')


def line(T, name, a0, b0, tol):
    L = backend.lib(T.root)
    f, df = ONE[name]
    a, b, c, fa, fb, fc = [np.array([v], float) for v in (a0, b0, 0, 0, 0, 0)]
    L.mnbrak(*[backend.dp(v) for v in (a, b, c, fa, fb, fc)], backend.F1(lambda x: float(f(x))))
    best = []

    def cb(x):
        v = float(f(x))
        best.append((v, x))
        return v
    xm = np.array([np.nan])
    r = L.dbrent(a[0], b[0], c[0], backend.F1(cb), backend.F1(lambda x: float(df(x))), tol, backend.dp(xm))
    ok(r == float(f(xm[0])), 'reported value %r is not the objective at the returned point %r (%r)' % (r, xm[0], float(f(xm[0]))))
    ok(r <= min(v for v, _ in best), 'returned %r although %r was evaluated' % (r, min(best)))
    lo, hi = min(a[0], c[0]), max(a[0], c[0])
    ok(lo <= xm[0] <= hi, 'returned point %r outside the bracket' % xm[0])
    if name in ('quad', 'quadneg', 'cosh', 'steep', 'lorentz', 'far'):
        g = abs(float(df(xm[0])))
        t1 = 4 * (tol * abs(xm[0]) + 1e-10)
        ok(float(df(xm[0] - t1)) <= 0 <= float(df(xm[0] + t1)), 'not at the minimum: %r (gradient %r)' % (xm[0], g))


def multi(name, n, seed):
    rs = np.random.RandomState(seed)
    if name == 'quad':
        A = rs.uniform(-1, 1, (n, n)); A = A.dot(A.T) + 0.3 * np.eye(n); b = rs.uniform(-2, 2, n)
        return (lambda x: float(x.dot(A).dot(x) / 2 - b.dot(x))), (lambda x: A.dot(x) - b)
    if name == 'rosen':
        def f(x):
            return float((100 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2).sum())

        def g(x):
            r = np.zeros(n)
            t = x[1:] - x[:-1] ** 2
            r[:-1] += -400 * x[:-1] * t - 2 * (1 - x[:-1])
            r[1:] += 200 * t
            return r
        return f, g
    if name == 'waves':
        k = rs.uniform(0.5, 2, n)
        return (lambda x: float((0.1 * x ** 2 - np.cos(k * x)).sum())), (lambda x: 0.2 * x + k * np.sin(k * x))
    if name == 'zero':
        return (lambda x: 2.5), (lambda x: np.zeros(n))
    raise KeyError(name)


def wrapn(f, n):
    return backend.FN(lambda p: float(f(np.array([p[i] for i in range(n)]))))


def wrapg(g, n):
    def cb(p, o):
        v = g(np.array([p[i] for i in range(n)]))
        for i in range(n):
            o[i] = float(v[i])
    return backend.GN(cb)


def linmin(T, name, n, seed):
    L = backend.lib(T.root)
    f, g = multi(name, n, seed)
    rs = np.random.RandomState(seed + 5)
    p = np.concatenate([rs.uniform(-2, 2, n), [9., 9.]])
    x = np.concatenate([-np.asarray(g(p[:n]), float), [8., 8.]])
    if seed % 3 == 2:
        x[:n] = rs.uniform(-1, 1, n)
    p0, x0 = p.copy(), x.copy()
    fr = np.array([np.nan])
    L.dlinmin(backend.dp(p), backend.dp(x), n, backend.dp(fr), wrapn(f, n), wrapg(g, n))
    close(p[n:], [9, 9], 'memory behind the point', 0, 0)
    close(x[n:], [8, 8], 'memory behind the direction', 0, 0)
    close(p[:n], p0[:n] + x[:n], 'point moved by the returned displacement', 1e-12, 1e-12)
    i = int(np.argmax(np.abs(x0[:n]))) if np.abs(x0[:n]).max() > 0 else 0
    s = x[i] / x0[i] if x0[i] else 0.
    close(x[:n], s * x0[:n], 'displacement along the search direction', 1e-9, 1e-12)
    f0, f1 = f(p0[:n]), f(p[:n])
    ok(f1 <= f0, 'line minimisation raised the objective from %r to %r' % (f0, f1))
    close(fr[0], f1, 'reported value', 1e-10, 1e-12)
    if np.abs(x0[:n]).max() > 0 and name == 'quad':
        d = x0[:n] / np.linalg.norm(x0[:n])
        sl = abs(d.dot(g(p[:n])))
        ok(sl <= 1e-2 * max(1., abs(d.dot(g(p0[:n])))), 'slope along the line left at %r' % sl)


def cg(T, name, n, seed):
    L = backend.lib(T.root)
    f, g = multi(name, n, seed)
    rs = np.random.RandomState(seed + 5)
    p = np.concatenate([rs.uniform(-2, 2, n), [9., 9.]])
    p0 = p.copy()
    fr, it = np.array([np.nan]), ct.c_int(0)
    L.frprmn(backend.dp(p), n, 1e-10, ct.byref(it), backend.dp(fr), wrapn(f, n), wrapg(g, n))
    close(p[n:], [9, 9], 'memory behind the point', 0, 0)
    f0, f1 = f(p0[:n]), f(p[:n])
    ok(np.isfinite(p).all(), 'point not finite')
    ok(f1 <= f0, 'objective raised from %r to %r' % (f0, f1))
    close(fr[0], f1, 'reported minimum', 1e-10, 1e-12)
    ok(it.value >= 1, 'iteration count')
    if name == 'quad':
        ok(np.abs(g(p[:n])).max() < 0.1, 'quadratic not minimised: gradient %r' % np.abs(g(p[:n])).max())


def bathfit(T, nb, m, beta, seed):
    L = backend.lib(T.root)
    rs = np.random.RandomState(seed)
    z = 1j * (2 * np.arange(m) + 1) * np.pi / beta
    e, v = rs.uniform(-2, 2, nb), rs.uniform(0.2, 1, nb)
    t = (v ** 2 / (z[:, None] - e)).sum(1) if seed % 2 else 2 * (z - np.sqrt(z ** 2 - 1))
    p = np.concatenate([rs.uniform(-2, 2, nb), rs.uniform(-1, 1, nb), [9., 9.]])
    p0 = p.copy()

    def obj(x):
        return float((np.abs(t - (x[nb:2 * nb] ** 2 / (z[:, None] - x[:nb])).sum(1)) ** 2).mean())
    it, fr = ct.c_int(0), np.array([np.nan])
    t0 = t.copy()
    L.fit(backend.dp(p), ct.byref(it), backend.dp(fr), nb, m, t.ctypes.data_as(backend.P), beta)
    close(p[2 * nb:], [9, 9], 'memory behind the parameters', 0, 0)
    close(t, t0, 'target', 0, 0)
    ok(obj(p) <= obj(p0) * (1 + 1e-10) + 1e-15, 'objective raised from %r to %r' % (obj(p0), obj(p)))
    close(fr[0], obj(p), 'reported minimum', 1e-7, 1e-13)


def wrapper(T, nb, m, beta):
    f = get('edpyt_backend.fit_wrap', 'fit_hybrid')
    init = get('edpyt.fit_cg', 'get_initial_bath')
    z = 1j * (2 * np.arange(m) + 1) * np.pi / beta
    t = 2 * (z - np.sqrt(z ** 2 - 1))

    def obj(x):
        return float((np.abs(t - (x[nb:2 * nb] ** 2 / (z[:, None] - x[:nb])).sum(1)) ** 2).mean())
    # whatever the allocator hands out, the fit starts from the initial bath
    for fill in (0., 1e3):
        junk = [np.full(2 * nb, fill) for _ in range(64)]
        del junk
        x = f(nb, m, t, beta)
        same(x.size, 2 * nb, 'number of parameters')
        ok(np.isfinite(x).all(), 'parameters not finite')
        ok(obj(x) <= obj(init(nbath=nb)) * (1 + 1e-10), 'fit is worse than the initial bath: %r > %r' % (obj(x), obj(init(nbath=nb))))


def memory(T, seed, nb, m):
    """the whole fit under the address sanitizer"""
    exe = os.path.join(T.root, 'edpyt_backend', 'asan_fit')
    if not os.path.exists(exe):
        raise NotHere('sanitizer build')
    r = subprocess.run([exe, str(seed), str(nb), str(m)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120,
                       env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    ok(r.returncode == 0, 'sanitizer run failed: ' + r.stdout.decode(errors='replace')[-1500:])


def main(T):
    for name in ONE:
        for a0, b0 in ((0., 1.), (0., -1.), (3., 2.), (-4., 1.), (0., 1e-3), (10., 12.)):
            if name == 'const' and a0 == b0:
                continue
            T.run(bracket, name=name, a0=a0, b0=b0)
            for tol in (2e-4, 1e-6):
                T.run(line, name=name, a0=a0, b0=b0, tol=tol)
    for name in ('quad', 'waves', 'rosen', 'zero'):
        for n in ((2, 3, 6) if name == 'rosen' else (1, 2, 3, 6)):
            for seed in range(6):
                T.run(linmin, name=name, n=n, seed=seed)
            for seed in range(3):
                T.run(cg, name=name, n=n, seed=seed)
    for nb, m, beta, seed in ((1, 5, 3., 1), (2, 30, 10., 2), (3, 50, 20., 3), (4, 60, 70., 4), (5, 60, 30., 5), (8, 50, 70., 6)):
        T.run(bathfit, nb=nb, m=m, beta=beta, seed=seed)
        T.run(wrapper, nb=nb, m=m, beta=beta)
    for seed, nb, m in ((1, 1, 1), (2, 2, 9), (3, 3, 20), (4, 8, 40)):
        T.run(memory, seed=seed, nb=nb, m=m)
    if T.thorough:
        for seed in range(10, 60):
            for name in ('quad', 'waves', 'rosen'):
                T.run(linmin, name=name, n=2 + seed % 6, seed=seed)
                T.run(cg, name=name, n=2 + seed % 6, seed=seed)
            T.run(bathfit, nb=1 + seed % 8, m=40, beta=20. + seed, seed=seed)
            T.run(memory, seed=seed, nb=1 + seed % 8, m=25)
