import numpy as np
from common import *
from trans import *
from orc_C19 import nsys, zsys, paths, SP, sz_spin


def f(x):
    """complex Fermi function, no overflow"""
    e = np.exp(-np.abs(x.real) * 1. - 1j * np.sign(x.real) * x.imag)
    return np.where(x.real >= 0, e / (1 + e), 1 / (1 + e))


def finite_part(C, eps, mu, beta):
    """Hadamard finite part of int (sum C/(x-eps))^2 f(x-mu0)(1-f(x-mu1)) dx: real part along a shifted contour"""
    d = 0.5 * np.pi / beta
    lo, hi = min(list(mu)), max(list(mu))
    x = np.linspace(lo - 50 / beta, hi + 50 / beta, int(2000 + 400 * beta * (hi - lo))) + 1j * d
    a = sum(c / (x - e) for c, e in zip(C, eps))
    y = a ** 2 * f(beta * (x - mu[0])) * f(-beta * (x - mu[1]))
    return float((y.sum() * (x[1] - x[0])).real)


def num(v):
    return float(np.real(complex(v)))


def poles(m, seed):
    rs = np.random.RandomState(seed)
    return rs.uniform(-1.5, 1.5, m), rs.uniform(-2, 2, m)


def call(m, C, e, mu, beta):
    g = {1: 'Gamma1', 2: 'Gamma2', 4: 'Gamma4'}[m]
    return num(get('edpyt.integrals', g)(*[float(c) for c in C], *[float(x) for x in e], list(mu), beta))


def gamma(T, m, seed, mu, beta):
    C, e = poles(m, seed)
    want = finite_part(C, e, mu, beta)
    g = call(m, C, e, mu, beta)
    sc = (np.abs(C).sum() ** 2) * max(1., beta)
    close(g, want, 'closed form with %d poles' % m, 1e-6, 1e-9 * sc)
    # quadratic in the residues
    close(call(m, 1.7 * C, e, mu, beta), 1.7 ** 2 * g, 'scaling of the residues', 1e-8, 1e-10 * sc)
    close(call(m, -C, e, mu, beta), g, 'sign of the residues', 1e-8, 1e-10 * sc)
    p = np.random.RandomState(seed + 1).permutation(m)
    close(call(m, C[p], e[p], mu, beta), g, 'exchange of pole/residue pairs', 1e-8, 1e-10 * sc)
    r = call(m, C, e, mu[::-1], beta)
    close(g, np.exp(beta * (mu[0] - mu[1])) * r, 'detailed balance', 1e-6, 1e-9 * sc)
    if m == 4:
        tot = 0.
        for i in range(4):
            for j in range(i + 1, 4):
                tot += call(2, C[[i, j]], e[[i, j]], mu, beta)
        tot -= 2 * sum(call(1, C[[i]], e[[i]], mu, beta) for i in range(4))
        close(g, tot, 'expansion into pole pairs', 1e-7, 1e-9 * sc)


def coincide(T, m, seed, mu, beta, same_mu, same_pole):
    C, e = poles(m, seed)
    mu = list(mu)
    if same_mu:
        mu[1] = mu[0] + (same_mu - 1) * 1e-7
    if same_pole and m > 1:
        e[1] = e[0] + (same_pole - 1) * 1e-8
    sc = (np.abs(C).sum() ** 2) * max(1., beta)
    close(call(m, C, e, mu, beta), finite_part(C, e, mu, beta), 'closed form, coinciding arguments', 1e-5, 1e-7 * sc)


def elements(kind, n, seed, N=None):
    """(sigma object, (residues, poles) from the reference for given leads, dE)"""
    if kind == 'N':
        es, egs, st = nsys(n, seed)
        sd = get('edpyt.cotnl', 'build_transition_elements')(n, es, n if N is None else N)
    else:
        es, egs, st = zsys(n, seed)
        sd = get('edpyt.cotunneling', 'build_transition_elements')(n, egs, es)
    F = fock(2 * n)
    for (a, b), sl in sd.items():
        fi, ii = key(a), key(b)
        sp = [tuple(s.spins) for s in sl] if kind == 'N' else sz_spin(fi, ii)
        for s, (so, si) in zip(sl, sp):
            def ref(A, ext, inj, so=so, si=si, fi=fi, ii=ii):
                e, h = paths(F, n, st, ii, fi, A, ext, inj, so, si)
                # stored sign: amplitude = y/(E - z)
                return [r for r, _ in e + h], [E for _, E in e + h]
            yield s, ref, st[fi][0] - st[ii][0], (fi, ii, so, si)


def approximate(T, kind, n, seed, mu, beta):
    A = couplings(n, seed)
    for s, ref, dE, nm in elements(kind, n, seed):
        for ext, inj in SP:
            C, E = ref(A, ext, inj)
            z = 0.5 * (mu[ext] + mu[inj] - dE)
            w = thermal(beta, dE - mu[ext] + mu[inj]) * sum(c / (e - z) for c, e in zip(C, E)) ** 2
            close(num(np.ravel(s.approximate(A, ext, inj, beta, list(mu)))[0]), w, 'approximate rate %r leads %d,%d' % (nm, ext, inj), 1e-6, 1e-10)


def exact(T, kind, n, seed, mu, beta):
    A = couplings(n, seed)
    done = 0
    for s, ref, dE, nm in elements(kind, n, seed):
        for ext, inj in SP:
            C, E = ref(A, ext, inj)
            try:
                g = num(s.exact(A, ext, inj, beta, list(mu)) if kind == 'N' else s.integrate(A, ext, inj, beta, list(mu)))
            except NotImplementedError:
                continue
            done += 1
            w = finite_part(C, E, [mu[ext] - dE, mu[inj]], beta) if C else 0.
            close(g, w, 'integral %r leads %d,%d' % (nm, ext, inj), 1e-5, 1e-7)
    ok(done > 0, 'no element could be integrated')


def numeric(T, n, seed, mu, beta):
    """integrate(): the same window with a finer grid, where the integrand is smooth"""
    A = couplings(n, seed)
    for s, ref, dE, nm in elements('N', n, seed):
        for ext, inj in SP:
            C, E = ref(A, ext, inj)
            m0, m1 = mu[ext] - dE, mu[inj]
            lo, hi = sorted((m0, m1))
            if any(lo - 8 / beta < e < hi + 8 / beta for e in E):
                continue
            x = np.linspace(lo - 4 / beta, hi + 4 / beta, 20001)
            a = sum(c / (e - x) for c, e in zip(C, E)) if C else 0 * x
            y = a ** 2 * fermi(beta * (x - m0)) * fermi(-beta * (x - m1))
            w = ((y[1:] + y[:-1]) * 0.5).sum() * (x[1] - x[0])
            # the discretisation and the cut tails are the method's own
            close(num(s.integrate(A, ext, inj, beta, list(mu))), w, 'numerical integral %r leads %d,%d' % (nm, ext, inj), 2e-2, 1e-9)


def windowfn(T, beta, x, where):
    if where == 'cotnl':
        G = get('edpyt.cotnl', 'G')
    else:
        G = get('edpyt.cotunneling', '_Sigma').G
    close(num(G(beta, x)), thermal(beta, x), 'thermal window', 1e-6, 1e-12)


def main(T):
    s = 0
    for m in (1, 2, 4):
        for mu in ((0.3, -0.2), (-0.4, 0.5), (0.01, 0.), (1.2, -1.)):
            for beta in (0.8, 3., 15.):
                s += 1
                T.run(gamma, m=m, seed=s, mu=mu, beta=beta)
    for m in (1, 2, 4):
        for sm in (0, 1, 2):
            for spo in (0, 1, 2):
                T.run(coincide, m=m, seed=5 + m, mu=(0.2, -0.3), beta=3., same_mu=sm, same_pole=spo)
    for where in ('cotnl', 'cotunneling'):
        for beta in (0.5, 1., 40., 1000.):
            for x in (0., 1e-19, 1e-13, -1e-13, 1e-9, 1e-4, 0.3, -0.3, 5., -5.):
                T.run(windowfn, beta=beta, x=x, where=where)
    for n in (1, 2):
        for kind in ('N', 'sz'):
            T.run(approximate, kind=kind, n=n, seed=n, mu=(0.3, -0.2), beta=3.)
            T.run(approximate, kind=kind, n=n, seed=n + 1, mu=(0.1, 0.1), beta=6.)
    for kind in ('N', 'sz'):
        T.run(exact, kind=kind, n=1, seed=1, mu=(0.3, -0.2), beta=3.)
        T.run(exact, kind=kind, n=1, seed=2, mu=(0.1, 0.1), beta=6.)
    T.run(exact, kind='sz', n=2, seed=2, mu=(0.3, -0.1), beta=3.)
    for n in (1, 2):
        T.run(numeric, n=n, seed=n, mu=(0.3, -0.2), beta=12.)
        T.run(numeric, n=n, seed=n + 1, mu=(0.1, 0.1), beta=12.)
    if T.thorough:
        for s in range(100, 260):
            rs = np.random.RandomState(s)
            T.run(gamma, m=[1, 2, 4][s % 3], seed=s, mu=tuple(rs.uniform(-1, 1, 2)), beta=float(rs.uniform(0.5, 20)))
        for seed in range(3, 8):
            T.run(exact, kind='sz', n=2, seed=seed, mu=(0.3, -0.1), beta=3.)
            T.run(numeric, n=2, seed=seed, mu=(0.3, -0.2), beta=12.)
