import numpy as np
from common import *


def tri(a, b2):
    """T with couplings sqrt(b2[1:])"""
    n = len(a)
    T = np.diag(np.asarray(a, complex))
    for i in range(1, n):
        T[i - 1, i] = T[i, i - 1] = np.sqrt(complex(b2[i]))
    return T


def res00(a, b2, z):
    T = tri(a, b2)
    return np.array([b2[0] * np.linalg.inv(zz * np.eye(len(a)) - T)[0, 0] for zz in np.ravel(z)])


def cf(T, n, seed, kind, sc=1.):
    rs = np.random.RandomState(seed)
    a = rs.uniform(-2, 2, n) * sc
    b = rs.uniform(0, 2, n) * sc
    if kind == 'chain':
        a, b = np.zeros(n), np.full(n, .5)
    if kind == 'cut' and n > 2:
        b[n // 2] = 0.
    z = {'up': rs.uniform(-3, 3, 7) + 1j * rs.uniform(0.1, 2, 7),
         'low': rs.uniform(-3, 3, 7) - 1j * rs.uniform(0.1, 2, 7),
         'mats': 1j * np.pi / 20 * (2 * np.arange(9) + 1),
         'real': rs.uniform(4, 9, 5) * sc * 3 + 0j,
         'big': (rs.uniform(-1, 1, 4) + 1j) * 1e6,
         'cut': rs.uniform(-3, 3, 600) + 0.3j, 'one': np.array([0.3 + 0.2j]), 'chain': np.array([0.1, -.4, .8]) + 1e-3j}[kind]
    a0, b0 = a.copy(), b.copy()
    want = res00(a, b, z)
    f = get('edpyt._continued_fraction', 'continued_fraction')
    close(np.atleast_1d(f(z, a, b)), want, 'compiled continued fraction', 1e-8, 1e-11)
    k = get('edpyt.gf_lanczos', 'continued_fraction')(a, b)
    close(np.atleast_1d(k(z.real, z.imag)), want, 'continued_fraction kernel', 1e-8, 1e-11)
    for zz, w in list(zip(z, want))[:3]:
        got = f(zz, a, b)
        same(np.ndim(got), 0, 'scalar argument: result dimension')
        close(np.ravel(got), [w], 'scalar argument', 1e-8, 1e-11)
    close(a, a0, 'a after the call', 0, 0)
    close(b, b0, 'b after the call', 0, 0)


def sp(T, n, seed):
    rs = np.random.RandomState(seed)
    l, q = rs.uniform(-2, 2, n), rs.uniform(-1, 2, n)
    z = rs.uniform(-3, 3, 6) + 1j * rs.uniform(-1, 2, 6)
    f = get('edpyt.gf_lanczos', 'spectral')(l, q)
    close(f(z.real, z.imag), sum(q[r] / (z - l[r]) for r in range(n)), 'spectral kernel')
    close(np.ravel(f(z[0].real, z[0].imag)), [sum(q[r] / (z[0] - l[r]) for r in range(n))], 'spectral kernel, scalar')
    g = get('edpyt.gf_exact', 'Gf')(list(q), list(l), 3.)
    close(g(z.real, z.imag), sum(q[r] / (z - l[r]) for r in range(n)) / 3., 'gf_exact.Gf')


def coeff(T, n, seed, sign, Ei, ex):
    rs = np.random.RandomState(seed)
    a, b = rs.uniform(-2, 2, n), rs.uniform(0.2, 2, n)
    z = rs.uniform(-3, 3, 6) + 1j * rs.uniform(0.2, 2, 6)
    b2 = b ** 2
    Tm = np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)
    want = np.array([ex * b2[0] * np.linalg.inv(zz * np.eye(n) - sign * (Tm - Ei * np.eye(n)))[0, 0] for zz in z])
    for rep, bn, kn in (('cf', 'build_gf_coeff_cf', 'continued_fraction'), ('sp', 'build_gf_coeff_sp', 'spectral')):
        bld, ker = get('edpyt.gf_lanczos', bn), get('edpyt.gf_lanczos', kn)
        k = ker(*bld(a.copy(), b.copy(), Ei, ex, sign))
        close(np.atleast_1d(k(z.real, z.imag)), want, '%s coefficients, n=%d sign=%d' % (rep, n, sign), 1e-7, 1e-10)
    bld = get('edpyt.gf_lanczos', 'build_gf_coeff_cf')
    if sign == 1:
        k = get('edpyt.gf_lanczos', 'continued_fraction')(*bld(a.copy(), b.copy(), Ei, ex))
        close(np.atleast_1d(k(z.real, z.imag)), want, 'default sign')


def composite(T, seed, Z, scalar):
    rs = np.random.RandomState(seed)
    z = rs.uniform(-3, 3, 5) + 1j * rs.uniform(0.2, 2, 5)
    if scalar:
        z = z[0]
    g = get('edpyt.gf_lanczos', 'Gf')()
    want = 0.
    for m in range(seed % 4 + 1):
        n = m + 1
        a, b = rs.uniform(-1, 1, n), rs.uniform(0, 1, n)
        g.add(get('edpyt.gf_lanczos', 'continued_fraction'), a, b)
        want = want + res00(a, b, z)
        if m % 2:
            g.add(get('edpyt.gf_lanczos', 'spectral'), a, b)
            want = want + sum(b[i] / (np.ravel(z) - a[i]) for i in range(n))
    g.Z = Z
    close(np.ravel(g(np.real(z), np.imag(z))).astype(complex), want / Z, 'sum of kernels over Z')


def main(T):
    set_params()
    s = 0
    for n in (1, 2, 3, 5, 12, 40, 130) + ((90, 7, 4) if T.thorough else ()):
        for kind in ('up', 'low', 'mats', 'real', 'big', 'cut', 'one'):
            s += 1
            T.run(cf, n=n, seed=s, kind=kind)
    for n in (3, 60, 300):
        T.run(cf, n=n, seed=n, kind='chain')
    for n in (1, 2, 3, 5, 20, 150):
        for k in range(3):
            T.run(sp, n=n, seed=n + k)
            for sign in (1, -1):
                for Ei, ex in ((0., 1.), (-1.3, 0.37), (2.5, 1e-3)):
                    T.run(coeff, n=n, seed=n + 10 * k, sign=sign, Ei=Ei, ex=ex)
    for k in range(8):
        T.run(composite, seed=k, Z=1.5 + k, scalar=False)
        T.run(composite, seed=k, Z=1.5 + k, scalar=True)
