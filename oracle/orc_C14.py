import numpy as np
from common import *
from orc_C11 import system


def occ_table(n, nup, ndw):
    ix = spin_index(n, nup, ndw)
    return np.array([[(int(s) >> k) & 1 for k in range(2 * n)] for s in ix], float)


def evecs(T, n, nup, ndw, nev, seed, layout, wt, norm=True):
    rs = np.random.RandomState(seed)
    d = binom(n, nup) * binom(n, ndw)
    big = rs.uniform(-1, 1, (d, nev + 2))
    v = {'C': lambda: np.ascontiguousarray(big[:, :nev]), 'F': lambda: np.asfortranarray(big[:, :nev]),
         'slice': lambda: big[:, :nev], 'fancy': lambda: big[:, np.arange(nev)],
         'rev': lambda: np.asfortranarray(big[:, :nev])[:, ::-1]}[layout]()
    if norm:
        v = v / np.linalg.norm(v, axis=0) if layout in ('C', 'F') else v
        v = np.asfortranarray(v) if layout == 'F' else v
    cf = rs.uniform(0, 1, nev) if wt else None
    p = (v ** 2) * (1. if cf is None else cf)
    o = occ_table(n, nup, ndw)
    want = o.T.dot(p)
    keep, shape = v.copy(), v.shape
    up, dw = np.array(words(n, nup), np.uint32), np.array(words(n, ndw), np.uint32)
    f = get('edpyt.observs', 'get_evecs_occupation')
    a, b = f(v, up, dw, n, cf) if wt else f(v, up, dw, n)
    same(v.shape, shape, 'shape of the eigenvectors after the call')
    close(v, keep, 'eigenvectors after the call', 0, 0)
    close(a, want[:n], 'up occupations (%s layout)' % layout)
    close(b, want[n:], 'down occupations (%s layout)' % layout)
    close(a.sum(0), nup * p.sum(0), 'up particle number')
    close(b.sum(0), ndw * p.sum(0), 'down particle number')
    # single-site helpers
    D = 'edpyt.dedlib_dev'
    g = get(D, 'get_evecs_occupation')
    sup, sdw = up, dw
    for pos in range(n):
        e = np.ones(nev) if cf is None else cf
        x = g(v, e, sup, sdw, pos)
        close(x, want[pos].sum() + want[n + pos].sum(), 'single-site helper, site %d (%s layout)' % (pos, layout))
        for k in range(nev):
            y = get('edpyt.dedlib', 'get_occupation')(v[:, k], up, dw, pos) * e[k]
            close(y, want[pos, k] + want[n + pos, k], 'single-vector helper, site %d (%s layout)' % (pos, layout))
        same(v.shape, shape, 'shape of the eigenvectors after the helper')


def thermal(T, n, seed, spin, beta, keep, U=2.):
    set_params()
    H, V = system(n, seed, spin, U)
    es, egs = get('edpyt.espace', 'build_espace')(H, V)
    if keep:
        get('edpyt.espace', 'screen_espace')(es, egs, beta, keep)
    Z = 0.
    acc = np.zeros(2 * n)
    for (a, b), s in es.items():
        w = np.exp(-beta * (s.eigvals - egs))
        Z += w.sum()
        acc += occ_table(n, a, b).T.dot((s.eigvecs ** 2).dot(w))
    want = acc / Z
    before = {k: (s.eigvals.copy(), s.eigvecs.copy()) for k, s in es.items()}
    for rep in range(2):
        u, d = get('edpyt.observs', 'get_occupation')(es, egs, beta, n)
        close(u, want[:n], 'thermal up occupation')
        close(d, want[n:], 'thermal down occupation')
        ok((u >= -1e-12).all() and (u <= 1 + 1e-12).all() and (d >= -1e-12).all() and (d <= 1 + 1e-12).all(), 'outside [0,1]')
    for k, s in es.items():
        ok(s.eigvecs.shape == before[k][1].shape and np.array_equal(s.eigvecs, before[k][1]), 'eigenvectors of %r changed' % (k,))
        ok(np.array_equal(s.eigvals, before[k][0]), 'energies of %r changed' % (k,))
    for pos in range(n):
        x = get('edpyt.dedlib_dev', 'get_occupation')(es, egs, beta, pos)
        close(x, want[pos] + want[n + pos], 'single-site thermal occupation, site %d' % pos)
    close(get('edpyt.dedlib_dev', 'get_occupation_full')(es, egs, beta, n), want[:n] + want[n:], 'spin-summed occupation')


def grand(T, n, beta):
    """the full trace over Fock space"""
    set_params()
    H, V = system(n, 7, True)
    Hf = full_h(H, V)
    F = fock(2 * n)
    e, X = np.linalg.eigh(Hf)
    w = np.exp(-beta * (e - e.min()))
    occ = np.array([[(s >> k) & 1 for k in range(2 * n)] for s in range(F.D)], float)
    want = ((X ** 2).dot(w)).dot(occ) / w.sum()
    es, egs = get('edpyt.espace', 'build_espace')(H, V)
    u, d = get('edpyt.observs', 'get_occupation')(es, egs, beta, n)
    close(np.r_[u, d], want, 'grand-canonical occupations')


def main(T):
    set_params()
    s = 0
    for n in (1, 2, 3, 4, 5):
        for a in range(n + 1):
            for b in range(n + 1):
                if n == 5 and (a + b) % 3:
                    continue
                for lay in ('C', 'F', 'slice', 'fancy', 'rev'):
                    s += 1
                    T.run(evecs, n=n, nup=a, ndw=b, nev=(1, 3, 2)[s % 3], seed=s, layout=lay, wt=s % 2 == 0)
    for n, a, b, nev in ((6, 3, 3, 9), (7, 6, 3, 4), (8, 2, 1, 12), (10, 1, 2, 5), (12, 1, 1, 30), (16, 1, 1, 2), (8, 8, 5, 3), (9, 0, 2, 7)):
        for lay in ('C', 'F'):
            s += 1
            T.run(evecs, n=n, nup=a, ndw=b, nev=nev, seed=s, layout=lay, wt=s % 2 == 0)
    for n in (1, 2, 3):
        for seed in range(3):
            for beta, keep in ((1., None), (6., None), (3., 1e-2), (1e5, 1e-6)):
                T.run(thermal, n=n, seed=seed, spin=bool(seed % 2), beta=beta, keep=keep)
        T.run(grand, n=n, beta=1.4)
    T.run(thermal, n=2, seed=1, spin=False, beta=1e4, keep=1e-6, U=0.)
