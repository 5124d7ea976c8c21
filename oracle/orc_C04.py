import numpy as np
from common import *


def energies(H, V, mu, hf, z, ups, dws):
    """statement formula; arrays of words"""
    n = V.shape[0]
    if z is None:
        z = np.ones(n) if hf else np.zeros(n)
    h = 0.5 if hf else 0.
    bit = lambda ws: np.array([[(w >> i) & 1 for i in range(n)] for w in ws], float).reshape(len(ws), n)
    nu, nd = bit(ups), bit(dws)
    e = (nu * (np.diagonal(H[0]) + mu)).sum(1) + (nd * (np.diagonal(H[1]) + mu)).sum(1)
    e = e + ((nu - h) * (nd - h) * np.diagonal(V)).sum(1)
    q = nu + nd - z
    return e + 0.5 * (q.dot(V - np.diag(np.diagonal(V))) * q).sum(1)


def model(n, seed, spin, symV):
    rs = np.random.RandomState(seed)
    H = rs.uniform(-2, 2, (2, n, n))
    if not spin:
        H[1] = H[0]
    V = rmat(rs, n, 0.3, symV, 2.)
    return rs, H, V


def diag_sz(T, n, nup, ndw, seed, hf, mu, zmode, spin, symV=True):
    rs, H, V = model(n, seed, spin, symV)
    z = rs.uniform(0, 2, n) if zmode else None
    s = make_sector(n, nup, ndw)
    H0, V0, z0 = H.copy(), V.copy(), None if z is None else z.copy()
    got = get('edpyt.ham_local', 'build_ham_local')(H, V, s, hfmode=hf, mu=mu, z=z)
    dw = words(n, ndw)
    up = words(n, nup)
    want = energies(H, V, mu, hf, z, [u for d in dw for u in up], [d for d in dw for u in up])
    close(np.asarray(got), want, 'diagonal of sector (%d,%d)' % (nup, ndw))
    close(H, H0, 'H after the call', 0, 0)
    close(V, V0, 'V after the call', 0, 0)
    if z is not None:
        close(z, z0, 'z after the call', 0, 0)
    x = rs.uniform(-1, 1, want.size)
    close(np.asarray(got.matvec(x)), want * x, 'application of the diagonal')
    close(np.asarray(got.todense()), np.diag(want), 'dense diagonal')


def diag_n(T, n, N, seed, hf, mu, zmode, spin, symV=True):
    rs, H, V = model(n, seed, spin, symV)
    z = rs.uniform(0, 2, n) if zmode else None
    s = make_sector(n, N)
    got = get('edpyt.ham_local', 'build_ham_local')(H, V, s, hfmode=hf, mu=mu, z=z)
    w = words(2 * n, N)
    m = (1 << n) - 1
    want = energies(H, V, mu, hf, z, [x & m for x in w], [x >> n for x in w])
    close(np.asarray(got), want, 'diagonal of sector N=%d' % N)


def onsites(T, n, nup, ndw, seed, shift):
    rs = np.random.RandomState(seed)
    e, u = rs.uniform(-2, 2, (2, n)), rs.uniform(-1, 3, n)
    a, b = np.array(words(n, nup), np.uint32), np.array(words(n, ndw), np.uint32)
    v = np.full(a.size * b.size, np.nan)
    e0, u0 = e.copy(), u.copy()
    get('edpyt.build_mb_ham', 'add_onsites')(e, u, a, b, v, shift)
    bit = lambda w: np.array([(int(w) >> k) & 1 for k in range(n)], float)
    want = [e[0].dot(bit(x)) + e[1].dot(bit(y)) + u.dot(bit(int(x) & int(y))) + shift for y in b for x in a]
    close(v, want, 'onsite energies')
    close(e, e0, 'input', 0, 0); close(u, u0, 'input', 0, 0)


def sumdiag(T, n, word, seed):
    d = np.random.RandomState(seed).uniform(-1, 1, n)
    close(get('edpyt.build_mb_ham', 'sum_diags_contrib')(d, np.uint32(word)),
          sum(d[k] for k in range(n) if (word >> k) & 1), 'sum of occupied levels')


def free_espace(T, n, seed):
    ek = np.random.RandomState(seed).uniform(-2, 2, n)
    e0 = ek.copy()
    es, egs = get('edpyt.espace', 'build_non_interacting_espace')(ek)
    same(sorted(tuple(map(int, k)) for k in es), [(a, b) for a in range(n + 1) for b in range(n + 1)], 'sectors')
    low = []
    for (a, b), s in es.items():
        want = sorted(sum(ek[k] for k in range(n) if (x >> k) & 1) + sum(ek[k] for k in range(n) if (y >> k) & 1)
                      for x in words(n, a) for y in words(n, b))
        close(s.eigvals, want, 'free spectrum of (%d,%d)' % (a, b))
        low.append(min(want))
    close(egs, min(low), 'ground-state energy')
    close(ek, e0, 'input', 0, 0)


def from_params(T, n, nup, ndw, seed, hf, mu, zmode):
    """the assembled Hamiltonian takes mode, mu and z from the shared parameters"""
    rs, H, V = model(n, seed, True, True)
    z = rs.uniform(0, 2, n) if zmode else None
    H = H + H.transpose(0, 2, 1)
    try:
        set_params(hf, mu, z)
        ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, V, make_sector(n, nup, ndw))
    finally:
        set_params()
    dw, up = words(n, ndw), words(n, nup)
    want = energies(H, V, mu, hf, z, [u for d in dw for u in up], [d for d in dw for u in up])
    got = [o for o in ops if np.asarray(o).ndim == 1 and not hasattr(o, 'indptr')]
    ok(len(got) == 1, 'one diagonal operator expected')
    close(np.asarray(got[0]), want, 'diagonal of the assembled Hamiltonian')


def main(T):
    set_params()
    rs = np.random.RandomState(T.seed)
    for n in range(1, 5):
        for a in range(n + 1):
            for b in range(n + 1):
                T.run(diag_sz, n=n, nup=a, ndw=b, seed=n, hf=bool((a + b) % 2), mu=0.3 * (a - b), zmode=bool(a % 2), spin=True)
        for N in range(2 * n + 1):
            if binom(2 * n, N) <= 70:
                T.run(diag_n, n=n, N=N, seed=n, hf=bool(N % 2), mu=0.4, zmode=bool(N % 3), spin=True)
    for k in range(200 if T.thorough else 60):
        n = int(rs.randint(1, 5 if k % 4 else 6))
        kw = dict(n=n, seed=int(rs.randint(1e6)), hf=bool(rs.randint(2)), mu=float(rs.choice([0., 0.7, -1.3])),
                  zmode=bool(rs.randint(2)))
        a, b = [int(x) for x in rs.randint(0, n + 1, 2)]
        T.run(diag_sz, nup=a, ndw=b, spin=bool(rs.randint(2)), symV=bool(rs.randint(2)), **kw)
        N = int(rs.randint(0, 2 * n + 1))
        if binom(2 * n, N) <= 250:
            T.run(diag_n, N=N, spin=bool(rs.randint(2)), symV=bool(rs.randint(2)), **kw)
        T.run(onsites, n=n, nup=a, ndw=b, seed=kw['seed'], shift=kw['mu'])
        if n <= 3:
            T.run(from_params, nup=a, ndw=b, **kw)
        T.run(sumdiag, n=n, word=int(rs.randint(0, 1 << n)), seed=k)
    # many orbitals, few electrons or few holes
    for n, a, b in ((8, 1, 1), (9, 8, 0), (12, 1, 2), (16, 1, 1), (17, 1, 16), (24, 1, 0), (31, 0, 1), (32, 32, 31)):
        for hf in (False, True):
            T.run(diag_sz, n=n, nup=a, ndw=b, seed=n, hf=hf, mu=0.2, zmode=hf, spin=True)
    for n, N in ((6, 2), (7, 2), (8, 15), (9, 2), (10, 19), (13, 1), (16, 1), (16, 31)):
        for hf in (False, True):
            T.run(diag_n, n=n, N=N, seed=n, hf=hf, mu=0.2, zmode=hf, spin=True)
    T.run(onsites, n=14, nup=1, ndw=13, seed=3, shift=0.1)
    for n in (1, 2, 3, 4, 5):
        T.run(free_espace, n=n, seed=n)
