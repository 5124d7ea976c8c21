import numpy as np
from common import *


def model(n, seed, jx, jp, sym=True):
    rs = np.random.RandomState(seed)
    H = np.diag(rs.uniform(-1, 1, n))
    U = rmat(rs, n, 0.2, True, 2.)
    Jx = rmat(rs, n, 0.2, sym) if jx else None
    Jp = rmat(rs, n, 0.2, sym) if jp else None
    for J in (Jx, Jp):
        if J is not None:
            np.fill_diagonal(J, 0.)
    return rs, H, U, Jx, Jp


def vdict(U, Jx, Jp):
    V = {'U': U}
    if Jx is not None:
        V['Jx'] = Jx
    if Jp is not None:
        V['Jp'] = Jp
    return V


def nonlocal_sz(T, n, nup, ndw, seed, jx, jp, sym=True, hop=True):
    rs, H, U, Jx, Jp = model(n, seed, jx, jp, sym)
    if hop:
        H = H + rmat(rs, n, 0.3) * (1 - np.eye(n))
    c = [None if J is None else J.copy() for J in (Jx, Jp)]
    ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, vdict(U, Jx, Jp), make_sector(n, nup, ndw))
    D = np.asarray(get('edpyt.matvec_product', 'todense')(*ops))
    want = sector(full_h(H, U, Jx, Jp), n, nup, ndw)
    close(D, want, 'sector (%d,%d) of %d orbitals, Jx=%s Jp=%s' % (nup, ndw, n, jx, jp))
    if sym:
        close(D, D.T, 'Hermiticity')
    for J, J0 in zip((Jx, Jp), c):
        if J is not None:
            close(J, J0, 'couplings after the call', 0, 0)
    v = rs.uniform(-1, 1, D.shape[0])
    mv = get('edpyt.matvec_product', 'matvec_operator')(*ops)
    close(mv(v.copy()), want.dot(v), 'matrix-free product with non-local terms')


def nonlocal_n(T, n, N, seed, jx, jp, sym=True):
    rs, H, U, Jx, Jp = model(n, seed, jx, jp, sym)
    ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, vdict(U, Jx, Jp), make_sector(n, N))
    D = np.asarray(get('edpyt.matvec_product', 'todense')(*ops))
    want = nsector(full_h(H, U, Jx, Jp), n, N)
    close(D, want, 'sector N=%d of %d orbitals, Jx=%s Jp=%s' % (N, n, jx, jp))


def spectra(T, n, N, seed, jx, jp):
    """the same charge sector in both representations"""
    rs, H, U, Jx, Jp = model(n, seed, jx, jp)
    b, td = get('edpyt.build_mb_ham', 'build_mb_ham'), get('edpyt.matvec_product', 'todense')
    V = vdict(U, Jx, Jp)
    e1 = []
    for a in range(max(0, N - n), min(n, N) + 1):
        e1.extend(np.linalg.eigvalsh(np.asarray(td(*b(H, V, make_sector(n, a, N - a))))))
    e2 = np.linalg.eigvalsh(np.asarray(td(*b(H, V, make_sector(n, N)))))
    close(np.sort(e1), np.sort(e2), 'spectra of the two representations, N=%d' % N, 1e-7, 1e-7)


def wide(T, n, qns, seed):
    """many orbitals at low or high filling"""
    rs, H, U, Jx, Jp = model(n, seed, True, True)
    Jx *= rs.uniform(size=(n, n)) < 0.3
    Jp *= rs.uniform(size=(n, n)) < 0.3
    Jx, Jp = Jx + Jx.T, Jp + Jp.T
    if len(qns) == 2:
        basis = [u | (d << n) for d in words(n, qns[1]) for u in words(n, qns[0])]
    else:
        basis = words(2 * n, qns[0])
    ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, vdict(U, Jx, Jp), make_sector(n, *qns))
    D = np.asarray(get('edpyt.matvec_product', 'todense')(*ops))
    close(D, wide_h(basis, H, U, Jx, Jp), 'sector %s of %d orbitals' % (tuple(qns), n))


def main(T):
    set_params()
    rs = np.random.RandomState(T.seed)
    combos = [(True, True), (True, False), (False, True)]
    for n in (2, 3):
        for a in range(n + 1):
            for b in range(n + 1):
                for jx, jp in combos:
                    T.run(nonlocal_sz, n=n, nup=a, ndw=b, seed=n + 5 * a, jx=jx, jp=jp)
        for N in range(2 * n + 1):
            for jx, jp in combos:
                T.run(nonlocal_n, n=n, N=N, seed=n + N, jx=jx, jp=jp)
                T.run(spectra, n=n, N=N, seed=n + N, jx=jx, jp=jp)
    for a, b in ((2, 2), (1, 2), (2, 1), (3, 1), (3, 3), (4, 2)):
        T.run(nonlocal_sz, n=4, nup=a, ndw=b, seed=a, jx=True, jp=True)
    for N in (2, 3, 4):
        T.run(nonlocal_n, n=4, N=N, seed=3, jx=True, jp=True)
    for n, qns in ((9, (1, 1)), (10, (1, 2)), (7, (6, 6)), (7, (2, 1)), (8, (1, 7)), (12, (1, 1)), (16, (1, 0)), (16, (1, 1)),
                   (9, (2,)), (8, (2,)), (7, (2,)), (6, (3,)), (10, (2,)), (12, (2,)), (16, (1,)), (15, (2,)),
                   (7, (13,)), (8, (14,))):
        T.run(wide, n=n, qns=list(qns), seed=n)
    for k in range(40 if T.thorough else 10):
        n = int(rs.randint(2, 4))
        a, b = [int(x) for x in rs.randint(0, n + 1, 2)]
        jx, jp = combos[k % 3]
        sd = int(rs.randint(1e6))
        T.run(nonlocal_sz, n=n, nup=a, ndw=b, seed=sd, jx=jx, jp=jp)
        T.run(nonlocal_n, n=n, N=a + b, seed=sd, jx=jx, jp=jp)
