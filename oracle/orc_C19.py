import numpy as np
from common import *
from trans import *

ZZ = np.array([0.31, -0.22, 1.7])
SP = [(0, 0), (0, 1), (1, 0), (1, 1)]


def sumamp2(F, n, st, i, f, A, ext, inj, so, si, z):
    e, h = paths(F, n, st, i, f, A, ext, inj, so, si)
    return amp2(e + h, z)


def window(beta, mu, dE, ext, inj):
    return thermal(beta, dE - mu[ext] + mu[inj]), 0.5 * (mu[ext] + mu[inj] - dE)


def nsys(n, seed):
    set_params()
    H, V = sys_ham(n, seed)
    es, egs = nspace(H, V)
    return es, egs, states(es, 'N', n)


def zsys(n, seed):
    set_params()
    H, V = sys_ham(n, seed)
    es, egs = get('edpyt.espace', 'build_espace')(H, V)
    return es, egs, states(es, 'sz', n)


def n_amplitudes(T, n, seed, N, cutoff=None):
    es, egs, st = nsys(n, seed)
    F = fock(2 * n)
    bld = get('edpyt.cotnl', 'build_transition_elements')
    if N is None:
        sd = bld(n, es, egs=egs)
        N = min(es, key=lambda q: es[q].eigvals.min())[0]
    elif cutoff:
        sd = bld(n, es, N, egs=egs, cutoff=cutoff)
    else:
        sd = bld(n, es, N)
    ids = [i for i in st if i[0] == N]
    got = {(key(a), key(b)): g for (a, b), g in sd.items()}
    if not cutoff:
        same(set(got), {(f, i) for f in ids for i in ids}, 'pairs of states')
    A = couplings(n, seed)
    for (f, i), sl in got.items():
        close(sl[0].dE, st[f][0] - st[i][0], 'energy difference %r <- %r' % (f, i))
        for ext, inj in SP:
            seen = set()
            for s in sl:
                sp = tuple(s.spins)
                ok(sp not in seen, 'spin pair %r twice' % (sp,))
                seen.add(sp)
                z = 4 * ZZ - st[f][0]
                close(s(z, A, ext, inj), sumamp2(F, n, st, i, f, A, ext, inj, sp[0], sp[1], z),
                      '|amplitude|^2 %r <- %r spins %r leads %d,%d' % (f, i, sp, ext, inj), 1e-7, 1e-10)
            for sp in set(SP) - seen:
                w = sumamp2(F, n, st, i, f, A, ext, inj, sp[0], sp[1], 4 * ZZ - st[f][0])
                close(w, np.zeros(3), 'missing element %r <- %r spins %r' % (f, i, sp), 0, 1e-10)


def mirror(T, seed, cutoff):
    """a left-right symmetric dimer: orbitals of odd parity must survive screening"""
    n = 2
    set_params()
    H = np.array([[-1.5, -0.7], [-0.7, -1.5]])
    H = np.stack([H, H + 0.13 * np.eye(2)])
    V = np.array([[3., 0.8], [0.8, 3.]])
    es, egs = nspace(H, V)
    st = states(es, 'N', n)
    F = fock(4)
    A = np.array([[0.9, 0.], [0., 0.8]]) + 0.05 * seed
    for N in (1, 2, 3):
        if not len(get('edpyt.cotnl', 'build_transition_elements')(n, es, N)):
            continue
        sd = get('edpyt.cotnl', 'build_transition_elements')(n, es, N, egs=egs, cutoff=cutoff)
        for (a, b), sl in sd.items():
            f, i = key(a), key(b)
            for s in sl:
                z = 4 * ZZ - st[f][0]
                close(s(z, A, 0, 1), sumamp2(F, n, st, i, f, A, 0, 1, s.spins[0], s.spins[1], z),
                      'screened amplitude %r <- %r' % (f, i), 1e-7, 1e-10)


def n_reference(F, n, st, ids, A, beta, mu):
    sz = len(ids)
    R = np.zeros((2, 2, sz, sz))
    for x, f in enumerate(ids):
        for y, i in enumerate(ids):
            dE = st[f][0] - st[i][0]
            for ext, inj in SP:
                w, mid = window(beta, mu, dE, ext, inj)
                R[ext, inj, x, y] = w * sum(sumamp2(F, n, st, i, f, A, ext, inj, so, si, np.array([mid]))[0] for so, si in SP)
    return R


def check_matrices(W, Tm, R, ext, inj, st, ids, beta, mu, what):
    off = R.sum((0, 1))
    np.fill_diagonal(off, 0)
    sc = max(1e-3, np.abs(off).max())
    close(W - np.diag(np.diag(W)), off, what + ': rates', 1e-6, 1e-9 * sc)
    ok((W - np.diag(np.diag(W)) >= 0).all(), what + ': negative rate')
    close(W.sum(0), np.zeros(len(ids)), what + ': column sums', 0, 1e-11 * max(1., np.abs(W).max()))
    close(Tm, R[ext, inj] - R[inj, ext], what + ': transition matrix', 1e-6, 1e-9 * sc)
    if ext == inj:
        close(Tm, np.zeros_like(Tm), what + ': equal leads', 0, 1e-12)
    if mu[0] == mu[1]:
        e0 = min(st[i][0] for i in ids)
        g = np.array([np.exp(-beta * (st[i][0] - e0)) for i in ids])
        x = W * g[None, :]
        np.fill_diagonal(x, 0)
        close(x, x.T, what + ': detailed balance', 1e-6, 1e-9 * sc)


def n_matrices(T, n, seed, N, beta, mu, ext, inj):
    es, egs, st = nsys(n, seed)
    F = fock(2 * n)
    sd = get('edpyt.cotnl', 'build_transition_elements')(n, es, N)
    A = couplings(n, seed)
    W, Tm = get('edpyt.cotnl', 'build_rate_and_transition_matrices')(sd, beta, list(mu), A, ext, inj)
    ids = sorted(i for i in st if i[0] == N)
    check_matrices(W, Tm, n_reference(F, n, st, ids, A, beta, mu), ext, inj, st, ids, beta, mu, 'cotnl')


def reached(es, egs, n):
    gs = [q for q, s in es.items() if abs(s.eigvals.min() - egs) < 1e-9]
    out = set()
    for u, d in gs:
        out |= {q for q in ((u, d), (u - 1, d + 1), (u + 1, d - 1)) if 0 <= q[0] <= n and 0 <= q[1] <= n}
    return out


def sz_spin(f, i):
    """(removed spin, added spin) possible between two states"""
    d = (f[0] - i[0], f[1] - i[1])
    return {(0, 0): [(0, 0), (1, 1)], (-1, 1): [(0, 1)], (1, -1): [(1, 0)]}.get(d, [])


def sz_amplitudes(T, n, seed):
    es, egs, st = zsys(n, seed)
    F = fock(2 * n)
    sd = get('edpyt.cotunneling', 'build_transition_elements')(n, egs, es)
    act = reached(es, egs, n)
    ids = [i for i in st if i[:2] in act]
    want = {(f, i) for f in ids for i in ids if sz_spin(f, i)}
    got = {(key(a), key(b)): g for (a, b), g in sd.items()}
    same(set(got), want, 'pairs of states')
    A = couplings(n, seed)
    for (f, i), sl in got.items():
        sp = sz_spin(f, i)
        same(len(sl), len(sp), 'elements of %r <- %r' % (f, i))
        close(sl[0].dE, st[f][0] - st[i][0], 'energy difference')
        for ext, inj in SP:
            z = 4 * ZZ - st[f][0]
            g = [np.ravel(s(z, A, ext, inj)) for s in sl]
            w = [sumamp2(F, n, st, i, f, A, ext, inj, so, si, z) for so, si in sp]
            # each spin channel once, whatever the order
            if len(g) == 2 and np.abs(g[0] - w[0]).max() > np.abs(g[0] - w[1]).max():
                w = w[::-1]
            close(g, w, '|amplitude|^2 %r <- %r leads %d,%d' % (f, i, ext, inj), 1e-7, 1e-10)


def sz_sector(T, n, seed):
    """one sector at a time with the default spins, empty and full sectors included"""
    from collections import defaultdict
    es, egs, st = zsys(n, seed)
    f = get('edpyt.cotunneling', 'project_sector')
    for q in es:
        got = f(n, q[0], q[1], es, defaultdict(list))
        ids = [i for i in st if i[:2] == q]
        want = set()
        for i in ids:
            for g in st:
                # removal of spin so, addition of spin si, in either order
                for so, si in sz_spin(g, i):
                    add = [q[0] + (si == 0), q[1] + (si == 1)]
                    rem = [q[0] - (so == 0), q[1] - (so == 1)]
                    if max(add) <= n or min(rem) >= 0:
                        want.add((g, i))
        same({(key(a), key(b)) for (a, b), l in got.items() if l}, want, 'pairs of states from sector %r' % (q,))


def sz_matrices(T, n, seed, beta, mu, ext, inj):
    es, egs, st = zsys(n, seed)
    F = fock(2 * n)
    sd = get('edpyt.cotunneling', 'build_transition_elements')(n, egs, es)
    A = couplings(n, seed)
    ids = sorted({key(a) for a, _ in sd})
    W = get('edpyt.cotunneling', 'build_rate_matrix')(sd, beta, list(mu), A, approx_integral=True)
    Tm = get('edpyt.cotunneling', 'build_transition_matrix')(sd, beta, list(mu), A, ext, inj, approx_integral=True)
    check_matrices(W, Tm, n_reference(F, n, st, ids, A, beta, mu), ext, inj, st, ids, beta, mu, 'cotunneling')


def agree(T, n, seed, beta, mu, exact):
    """both implementations, states matched by energy"""
    es, egs, st = zsys(n, seed)
    N = sum(min(es, key=lambda q: es[q].eigvals.min()))
    nes, negs, nst = nsys(n, seed)
    nids = sorted(i for i in nst if i[0] == N)
    sd = get('edpyt.cotunneling', 'build_transition_elements')(n, egs, es)
    ids = sorted({key(a) for a, _ in sd})
    order = sorted(range(len(ids)), key=lambda k: st[ids[k]][0])
    e1, e2 = [st[ids[k]][0] for k in order], [nst[i][0] for i in nids]
    if len(e1) != len(e2) or np.diff(e2).min() < 1e-6:
        return
    close(e1, e2, 'energies')
    A = couplings(n, seed)
    W = get('edpyt.cotunneling', 'build_rate_matrix')(sd, beta, list(mu), A, approx_integral=not exact)
    Tm = get('edpyt.cotunneling', 'build_transition_matrix')(sd, beta, list(mu), A, 0, 1, approx_integral=not exact)
    nd = get('edpyt.cotnl', 'build_transition_elements')(n, nes, N)
    nW, nT = get('edpyt.cotnl', 'build_rate_and_transition_matrices')(nd, beta, list(mu), A, 0, 1,
                                                                      integrate_method='exact' if exact else 'approximate')
    W, Tm = W[np.ix_(order, order)], Tm[np.ix_(order, order)]
    sc = np.abs(nW).max()
    close(W, nW, 'rate matrices of the two implementations', 1e-6, 1e-8 * sc)
    close(Tm, nT, 'transition matrices of the two implementations', 1e-6, 1e-8 * sc)


def main(T):
    for n in (1, 2):
        for seed in range(2):
            for N in list(range(2 * n + 1)) + [None]:
                T.run(n_amplitudes, n=n, seed=seed, N=N)
            T.run(n_amplitudes, n=n, seed=seed, N=n, cutoff=50.)
            for N in ([1] if n == 1 else [1, 2, 3]):
                T.run(n_matrices, n=n, seed=seed, N=N, beta=4., mu=(0.3, -0.2), ext=0, inj=1)
            T.run(n_matrices, n=n, seed=seed, N=n, beta=1.5, mu=(0.1, 0.1), ext=1, inj=0)
            T.run(n_matrices, n=n, seed=seed, N=n, beta=1.5, mu=(0.3, 0.1), ext=1, inj=1)
            T.run(sz_amplitudes, n=n, seed=seed)
            T.run(sz_sector, n=n, seed=seed)
            T.run(sz_matrices, n=n, seed=seed, beta=4., mu=(0.3, -0.2), ext=0, inj=1)
            T.run(sz_matrices, n=n, seed=seed, beta=1.5, mu=(0.1, 0.1), ext=1, inj=0)
            T.run(sz_matrices, n=n, seed=seed, beta=1.5, mu=(0.3, 0.1), ext=0, inj=0)
            T.run(agree, n=n, seed=seed, beta=3., mu=(0.2, -0.1), exact=False)
    T.run(agree, n=1, seed=0, beta=3., mu=(0.2, -0.1), exact=True)
    for N in (2, 3, 4):
        T.run(n_amplitudes, n=3, seed=1, N=N)
    T.run(n_matrices, n=3, seed=1, N=3, beta=2., mu=(0.3, -0.2), ext=0, inj=1)
    T.run(mirror, seed=0, cutoff=60.)
    if T.thorough:
        for seed in range(3, 13):
            T.run(sz_amplitudes, n=2, seed=seed)
            T.run(n_amplitudes, n=2, seed=seed, N=1 + seed % 3)
            T.run(sz_matrices, n=2, seed=seed, beta=2., mu=(0.2, -0.1), ext=0, inj=1)
            T.run(agree, n=2, seed=seed, beta=3., mu=(0.2, -0.1), exact=False)
            T.run(agree, n=1, seed=seed, beta=3., mu=(0.2, -0.1), exact=True)
