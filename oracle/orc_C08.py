import numpy as np
from common import *


def ham(n, seed, two=False, deg=False):
    rs = np.random.RandomState(seed)
    if deg:
        H = np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1)
        return H, np.eye(n) * 2.
    H = rmat(rs, n, 0.2)
    if two:
        H = np.stack([H, rmat(rs, n, 0.2)])
    return H, np.diag(rs.uniform(0, 2, n))


def check_pairs(Hd, w, v, k, tag, tol=1e-7):
    full = np.linalg.eigvalsh(Hd)
    same(int(w.size), k, tag + ': number of eigenvalues')
    close(w, full[:k], tag + ': lowest eigenvalues in ascending order', tol, tol)
    same(tuple(v.shape), (Hd.shape[0], k), tag + ': eigenvector shape')
    close(v.T.dot(v), np.eye(k), tag + ': orthonormality', tol, tol)
    close(Hd.dot(v), v * w[None, :], tag + ': eigenvectors', 10 * tol, 10 * tol)


def espace_sz(T, n, seed, two, mode):
    H, U = ham(n, seed, two)
    rs = np.random.RandomState(seed + 1)
    F = full_h(H, U)
    dims = {(a, b): binom(n, a) * binom(n, b) for a in range(n + 1) for b in range(n + 1)}
    if mode == 'all':
        want, neig = dict(dims), None
    elif mode == 'subset':
        neig = np.array([0 if rs.uniform() < 0.4 else rs.randint(1, dims[a, b] + 1)
                         for a in range(n + 1) for b in range(n + 1)])
        if not neig.any():
            neig[-1] = 1
        want = {k: int(neig[k[0] * (n + 1) + k[1]]) for k in dims if neig[k[0] * (n + 1) + k[1]]}
    else:
        m = int(mode)
        neig = get('edpyt.espace', 'get_espace_dim')(n, m)
        want = {k: min(m, dims[k]) for k in dims}
    nk = None if neig is None else neig.copy()
    es, egs = get('edpyt.espace', 'build_espace')(H, U, *(() if neig is None else (neig,)))
    same(sorted(es.keys()), sorted(want.keys()), 'sectors solved')
    same(list(es.keys()), sorted(es.keys()), 'sector order')
    lo = min(sct.eigvals.min() for sct in es.values())
    close(egs, lo, 'reported ground-state energy', 0, 1e-12)
    for (a, b), k in want.items():
        s = es[a, b]
        same(int(s.d), dims[a, b], 'dimension of (%d,%d)' % (a, b))
        ok(np.array_equal(np.asarray(s.states.up, int), words(n, a)) and
           np.array_equal(np.asarray(s.states.dw, int), words(n, b)), 'basis of (%d,%d)' % (a, b))
        check_pairs(sector(F, n, a, b), s.eigvals, s.eigvecs, k, 'sector (%d,%d)' % (a, b))
    if nk is not None:
        ok(np.array_equal(nk, neig), 'requested counts changed by build_espace')


def espace_n(T, n, seed, mode):
    rs = np.random.RandomState(seed)
    H = np.diag(rs.uniform(-1, 1, n))
    U = rmat(rs, n, 0.2, True, 2.)
    J = rmat(rs, n, 0.)
    np.fill_diagonal(J, 0)
    V, Jx = (dict(U=U, Jx=J, Jp=J), J) if mode != 'diag' else (U, None)
    F = full_h(H, U, Jx, Jx)
    kw = {}
    want = {N: binom(2 * n, N) for N in range(2 * n + 1)}
    if mode == 'clip':
        neig = get('edpyt.espace', 'get_espace_dim')(n, 2, 'N')
        neig[1] = 0
        want = {N: min(2, want[N]) for N in want if N != 1}
        kw = dict(neig_sector=neig)
    es, egs = get('edpyt.espace', 'build_espace')(H, V, symmetry='N', **kw)
    same(sorted(es.keys()), [(N,) for N in sorted(want)], 'sectors solved')
    for N, k in want.items():
        check_pairs(nsector(F, n, N), es[N,].eigvals, es[N,].eigvecs, k, 'sector N=%d' % N)
    close(egs, min(s.eigvals.min() for s in es.values()), 'reported ground-state energy', 0, 1e-12)


def big_h(n, nup, ndw, H, U):
    F = fock(n)
    off = H * (1 - np.eye(n))
    wu, wd = words(n, nup), words(n, ndw)
    A, B = F.onebody(off)[np.ix_(wu, wu)], F.onebody(off)[np.ix_(wd, wd)]
    D = np.kron(np.eye(len(wd)), A) + np.kron(B, np.eye(len(wu)))
    ou = np.array([[(s >> k) & 1 for k in range(n)] for s in wu], float)
    od = np.array([[(s >> k) & 1 for k in range(n)] for s in wd], float)
    e = (od.dot(np.diag(H))[:, None] + ou.dot(np.diag(H))[None, :] + (od * np.diag(U)).dot(ou.T)).reshape(-1)
    return D + np.diag(e)


def iterative(T, n, nup, ndw, k, seed):
    """sectors above the dense limit"""
    rs = np.random.RandomState(seed)
    H = rmat(rs, n, 0.3)
    U = np.diag(rs.uniform(0, 2, n))
    s = make_sector(n, nup, ndw)
    w, v = get('edpyt.espace', 'solve_sector')(H, U, s, k)
    Hd = big_h(n, nup, ndw, H, U)
    check_pairs(Hd, np.asarray(w), np.asarray(v), k, 'iterative sector (%d,%d)' % (nup, ndw), 1e-6)


def many(T, n, seed, mu):
    """many sectors, the lowest in a late one, more states wanted than the dense limit has halves"""
    rs = np.random.RandomState(seed)
    H = rmat(rs, n, 0.3) * 0.3
    H[np.arange(n), np.arange(n)] = -mu + rs.uniform(-.1, .1, n)
    U = np.diag(rs.uniform(0, 1, n))
    neig = np.ones((n + 1) ** 2, int)
    neig[(n // 2) * (n + 2)] = 300
    es, egs = get('edpyt.espace', 'build_espace')(H, U, neig)
    same(len(es), (n + 1) ** 2, 'sectors solved')
    close(egs, min(s.eigvals.min() for s in es.values()), 'reported ground-state energy', 0, 1e-12)
    for (a, b) in ((n // 2, n // 2), (n, n), (n, n - 1), (1, n - 1)):
        s = es[a, b]
        check_pairs(big_h(n, a, b, H, U), s.eigvals, s.eigvecs, min(s.d, neig[a * (n + 1) + b]),
                    'sector (%d,%d)' % (a, b))


def arpack(T, n, k, seed, v0):
    rs = np.random.RandomState(seed)
    A = rs.uniform(-1, 1, (n, n))
    A = A + A.T
    kw = dict(v0=rs.uniform(-1, 1, n)) if v0 else {}
    w, v = get('edpyt.eigh_arpack', 'eigsh')(n, k, lambda x: A.dot(x), **kw)
    check_pairs(A, np.asarray(w), np.asarray(v), k, 'eigsh', 1e-6)


def screen(T, n, seed, beta, cutoff, sub):
    rs = np.random.RandomState(seed)
    H, U = ham(n, seed)
    es, egs = get('edpyt.espace', 'build_espace')(H, U)
    if sub:
        for k in list(es):
            if rs.uniform() < 0.3:
                del es[k]
        if not es:
            return
    ref = {k: (s.eigvals.copy(), s.eigvecs.copy()) for k, s in es.items()}
    get('edpyt.espace', 'screen_espace')(es, egs, beta, cutoff)
    want = {}
    for k, (w, v) in ref.items():
        keep = [i for i in range(w.size) if np.exp(-beta * (w[i] - egs)) > cutoff]
        near = [i for i in range(w.size) if abs(np.exp(-beta * (w[i] - egs)) / cutoff - 1) < 1e-6]
        if near:
            return
        if keep:
            want[k] = keep
    same(sorted(es.keys()), sorted(want.keys()), 'sectors kept')
    for k, keep in want.items():
        close(es[k].eigvals, ref[k][0][keep], 'kept eigenvalues of %s' % (k,), 0, 0)
        close(es[k].eigvecs, ref[k][1][:, keep], 'kept eigenvectors of %s' % (k,), 0, 0)


def screen_fake(T, seed):
    """kept states need not be a prefix"""
    rs = np.random.RandomState(seed)
    Sct = get('edpyt.espace', 'Sector')
    es, ref = {}, {}
    for k in range(5 if seed % 2 else 90):
        d = rs.randint(1, 6)
        w = rs.uniform(0, 4 if seed % 2 else 2.5, d)
        v = rs.uniform(-1, 1, (7, d))
        es[0, k] = Sct(None, 7, w.copy(), v.copy())
        ref[0, k] = (w, v)
    beta, cut = 2., 0.02
    get('edpyt.espace', 'screen_espace')(es, 0., beta, cut)
    for k, (w, v) in ref.items():
        keep = np.where(np.exp(-beta * w) > cut)[0]
        same(k in es, bool(keep.size), 'sector %s kept' % (k,))
        if keep.size:
            close(es[k].eigvals, w[keep], 'eigenvalues', 0, 0)
            close(es[k].eigvecs, v[:, keep], 'eigenvectors', 0, 0)


def adjust(T, n, seed, density):
    rs = np.random.RandomState(seed)
    Sct = get('edpyt.espace', 'Sector')
    neig = np.zeros((n + 1) ** 2, int)
    es, want = {}, None
    for a in range(n + 1):
        for b in range(n + 1):
            d = binom(n, a) * binom(n, b)
            neig[a * (n + 1) + b] = rs.randint(1, d + 1) if rs.uniform() < 0.8 else d
    want = neig.copy()
    for a in range(n + 1):
        for b in range(n + 1):
            i, d = a * (n + 1) + b, binom(n, a) * binom(n, b)
            if rs.uniform() < density:
                m = neig[i] if rs.uniform() < 0.6 else rs.randint(0, neig[i] + 1)
                es[a, b] = Sct(None, d, np.zeros(m), None)
                if m == neig[i]:
                    want[i] = min(d, neig[i] + 1)
                else:
                    want[i] = max(1, neig[i] - 1)
            else:
                want[i] = max(1, neig[i] - 1)
    get('edpyt.espace', 'adjust_neigsector')(es, neig, n)
    same(neig.tolist(), want.tolist(), 'adjusted counts (present: %s)' % sorted(es))


def history(T, n, seed, beta, steps):
    """solve, screen, adjust, repeat"""
    H, U = ham(n, seed)
    F = full_h(H, U)
    neig = np.ones((n + 1) ** 2, int)
    for _ in range(steps):
        es, egs = get('edpyt.espace', 'build_espace')(H, U, neig)
        close(egs, min(np.linalg.eigvalsh(sector(F, n, a, b))[0] for a in range(n + 1) for b in range(n + 1)),
              'ground-state energy', 1e-8, 1e-8)
        get('edpyt.espace', 'screen_espace')(es, egs, beta, 1e-3)
        old = neig.copy()
        get('edpyt.espace', 'adjust_neigsector')(es, neig, n)
        for a in range(n + 1):
            for b in range(n + 1):
                i = a * (n + 1) + b
                d = binom(n, a) * binom(n, b)
                w = np.linalg.eigvalsh(sector(F, n, a, b))[:old[i]]
                m = int(np.sum(np.exp(-beta * (w - egs)) > 1e-3))
                same(int(neig[i]), int(min(d, old[i] + 1) if m == old[i] and m else max(1, old[i] - 1)),
                     'count of sector (%d,%d)' % (a, b))


def neighbours(T, n):
    err = get('edpyt.sector', 'OutOfHilbertError')
    cdg, c = get('edpyt.sector', 'get_cdg_sector'), get('edpyt.sector', 'get_c_sector')
    for a in range(n + 1):
        for b in range(n + 1):
            for s in (0, 1):
                for f, args, d in ((cdg, (n, a, b, s), 1), (c, (a, b, s), -1)):
                    w = [a, b]
                    w[s] += d
                    valid = 0 <= w[s] <= n
                    try:
                        r = tuple(f(*args))
                    except err:
                        ok(not valid, 'neighbour %s of %s refused' % (w, (a, b)))
                        continue
                    ok(valid, 'neighbour outside the Hilbert space accepted: %r from %r' % (r, (a, b)))
                    same(r, tuple(w), 'neighbour of (%d,%d) spin %d' % (a, b, s))


def badspin(T, s):
    for f, args in (('get_cdg_sector', (3, 1, 1, s)), ('get_c_sector', (1, 1, s))):
        try:
            get('edpyt.sector', f)(*args)
        except RuntimeError:
            continue
        except ValueError:
            continue
        raise Violation('spin index %r accepted by %s' % (s, f))


def main(T):
    set_params()
    rs = np.random.RandomState(T.seed)
    for n in (1, 2, 3):
        for k in range(2):
            for mode in ('all', 'subset', '1', '2', '3', '100'):
                T.run(espace_sz, n=n, seed=k, two=bool(k), mode=mode)
    for n in (1, 2):
        for mode in ('diag', 'all', 'clip'):
            T.run(espace_n, n=n, seed=n, mode=mode)
    T.run(arpack, n=30, k=3, seed=1, v0=False)
    T.run(arpack, n=60, k=1, seed=2, v0=True)
    T.run(arpack, n=25, k=11, seed=3, v0=False)
    T.run(iterative, n=6, nup=3, ndw=3, k=4, seed=1)
    T.run(iterative, n=7, nup=3, ndw=2, k=2, seed=2)
    T.run(iterative, n=6, nup=2, ndw=3, k=5, seed=3)
    T.run(many, n=6, seed=1, mu=2.)
    if T.thorough:
        T.run(iterative, n=7, nup=4, ndw=3, k=6, seed=4)
    for n in range(1, 7):
        T.run(neighbours, n=n)
    for s in (2, -1, 5):
        T.run(badspin, s=s)
    for k in range(12):
        T.run(screen, n=int(rs.randint(1, 4)), seed=k, beta=float(rs.choice([0.5, 2., 10., 1e3])),
              cutoff=float(rs.choice([1e-9, 1e-3, 0.2, 0.99])), sub=bool(k % 2))
        T.run(screen_fake, seed=k)
    for k in range(150):
        T.run(adjust, n=int(rs.randint(1, 5)), seed=k, density=float(rs.choice([0., .2, .6, .9, 1.])))
    for k in range(3):
        T.run(history, n=2 + k % 2, seed=k, beta=3., steps=4)
    for k in range(20 if T.thorough else 3):
        T.run(espace_sz, n=int(rs.randint(1, 4)), seed=int(rs.randint(1e6)), two=bool(k % 2), mode='subset')
