import numpy as np
from common import *
from scipy.sparse import csr_matrix


def csr(m):
    return np.asarray(csr_matrix((m.data, m.indices, m.indptr), shape=m.shape).todense())


def onebody_ref(Tm, n, p):
    A = np.where(np.abs(Tm) > 1e-7, Tm, 0.) * (1 - np.eye(n))
    ix = words(n, p)
    if n > 6:
        at = {s: k for k, s in enumerate(ix)}
        M = np.zeros((len(ix), len(ix)))
        for s in ix:
            for i in range(n):
                for j in range(n):
                    if A[i, j] != 0:
                        g, w = apply_ops(s, ('+', i), ('-', j))
                        if g:
                            M[at[w], at[s]] += g * A[i, j]
        return M
    return fock(n).onebody(A)[np.ix_(ix, ix)]


def hop_matrix(n, seed, kind):
    rs = np.random.RandomState(seed)
    if kind == 'chain':
        Tm = np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1)
        return np.stack([Tm, Tm])
    if kind == 'zero':
        return np.stack([np.diag(rs.uniform(-1, 1, n))] * 2)
    A = np.stack([rmat(rs, n, 0.35, kind != 'asym') for _ in range(2)])
    if kind == 'tiny':
        M = rs.uniform(size=(2, n, n)) < 0.4
        A[M] = 0.9e-7 * np.sign(A[M])
        A = (A + A.transpose(0, 2, 1)) / 2
    if kind == 'wide':
        M = np.where(rs.uniform(size=(2, n, n)) < 0.5, 1e4, 1e-5)
        A = A * M
        A = (A + A.transpose(0, 2, 1)) / 2
    if kind == 'small':
        A *= 3e-7
        A = np.where(np.abs(A) < 1.2e-7, 0, A)
    return A


def hopping(T, n, nup, ndw, seed, kind):
    A = hop_matrix(n, seed, kind)
    A0 = A.copy()
    s = make_sector(n, nup, ndw)
    up, dw = get('edpyt.ham_hopping', 'build_ham_hopping')(A, s)
    wu, wd = onebody_ref(A[0], n, nup), onebody_ref(A[1], n, ndw)
    sc = max(1e-30, np.abs(A).max())
    du, dd = binom(n, nup), binom(n, ndw)
    cu, cd = csr_plain(up), csr_plain(dw)
    close(cu / sc, wu / sc, 'up hopping of (%d,%d) in %d orbitals' % (nup, ndw, n))
    close(cd / sc, wd / sc, 'down hopping of (%d,%d) in %d orbitals' % (nup, ndw, n))
    for m, w in ((up, wu), (dw, wd)):
        same(int(m.indptr[0]), 0, 'first row pointer')
        same(int(m.indptr[-1]), int(m.data.size), 'storage exactly filled')
        ok(np.all(np.diff(m.indptr) >= 0), 'row pointers not monotone')
        same(int(m.data.size), int(np.count_nonzero(w)), 'stored entries')
    close(np.asarray(up.todense()) / sc, np.kron(np.eye(dd), wu) / sc, 'up operator in the product space')
    close(np.asarray(dw.todense()) / sc, np.kron(wd, np.eye(du)) / sc, 'down operator in the product space')
    if kind != 'asym':
        close(cu, cu.T, 'Hermiticity')
    close(A, A0, 'T after the call', 0, 0)


def csr_plain(m):
    out = np.zeros(m.shape)
    for i in range(m.shape[0]):
        for p in range(m.indptr[i], m.indptr[i + 1]):
            out[i, m.indices[p]] += m.data[p]
    return out


def compress(T, n, seed, kind):
    A = hop_matrix(n, seed, kind)[0]
    cnt = get('edpyt.ham_hopping', 'count_nnz_offdiag')(A)
    want = [(i, j, A[i, j]) for i in range(n) for j in range(n) if i != j and abs(A[i, j]) > 1e-7]
    same(int(cnt), len(want), 'number of significant off-diagonal entries')
    m = get('edpyt.ham_hopping', 'nnz_offdiag_csrmat')(A, cnt)
    got = [(i, int(m.indices[p]), float(m.data[p])) for i in range(n) for p in range(m.indptr[i], m.indptr[i + 1])]
    same(got, [(i, j, float(x)) for i, j, x in want], 'compressed rows')
    same(tuple(int(x) for x in m.shape), (n, n), 'shape')


def compress_full(T, n, seed, wide=False):
    A = rmat(np.random.RandomState(seed), n, 0.4, False)
    if wide:
        A = A * np.where(np.random.RandomState(seed).uniform(size=(n, n)) < 0.5, 1e4, 1e-5)
    f = get('edpyt.ham_non_local', 'nnz_csrmat')
    want = [(i, j, A[i, j]) for i in range(n) for j in range(n) if abs(A[i, j]) > 1e-7]
    m = f(A, len(want))
    got = [(i, int(m.indices[p]), float(m.data[p])) for i in range(n) for p in range(m.indptr[i], m.indptr[i + 1])]
    same(got, [(i, j, float(x)) for i, j, x in want], 'compressed rows (diagonal included)')


def refuse_n(T, n, N):
    try:
        get('edpyt.ham_hopping', 'build_ham_hopping')(np.zeros((2, n, n)), make_sector(n, N))
    except NotImplementedError:
        return
    raise Violation('total-number basis accepted')


def assembled(T, n, nup, ndw, seed, two):
    """the sector Hamiltonian: one-body part of the full Fock-space operator"""
    rs = np.random.RandomState(seed)
    H = np.stack([rmat(rs, n, 0.3), rmat(rs, n, 0.3)]) if two else rmat(rs, n, 0.3)
    U = np.diag(rs.uniform(0, 2, n))
    ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, U, make_sector(n, nup, ndw))
    D = np.asarray(get('edpyt.matvec_product', 'todense')(*ops))
    close(D, sector(full_h(H, U), n, nup, ndw), 'Hamiltonian of (%d,%d)' % (nup, ndw))
    close(D, D.T, 'Hermiticity')


def main(T):
    set_params()
    rs = np.random.RandomState(T.seed)
    for n in range(2, 6):
        for a in range(n + 1):
            for b in range(n + 1):
                if n < 5 or (a + b) % 3 == 0:
                    T.run(hopping, n=n, nup=a, ndw=b, seed=10 * n, kind='rand')
    for n in (2, 3, 4):
        for kind in ('chain', 'zero', 'tiny', 'small', 'wide'):
            for k in range(3):
                a, b = [int(x) for x in rs.randint(0, n + 1, 2)]
                T.run(hopping, n=n, nup=a, ndw=b, seed=k, kind=kind)
                T.run(compress, n=n, seed=k, kind=kind)
    for k in range(60 if T.thorough else 12):
        n = int(rs.randint(2, 7))
        a, b = [int(x) for x in rs.randint(0, n + 1, 2)]
        T.run(hopping, n=n, nup=a, ndw=b, seed=int(rs.randint(1e6)), kind=str(rs.choice(['rand', 'small', 'tiny'])))
        T.run(compress, n=n, seed=k, kind='rand')
        T.run(compress_full, n=n, seed=k)
        T.run(compress, n=n, seed=k, kind='wide')
        T.run(compress_full, n=n, seed=k, wide=True)
    for n in (2, 3):
        for a in range(n + 1):
            for b in range(n + 1):
                for two in (True, False):
                    T.run(assembled, n=n, nup=a, ndw=b, seed=7 * n + a, two=two)
    for n, a, b in ((7, 2, 1), (8, 1, 3), (9, 8, 2), (12, 2, 11), (17, 1, 16), (25, 1, 24), (32, 1, 31)):
        T.run(hopping, n=n, nup=a, ndw=b, seed=n, kind='rand')
        T.run(compress, n=n, seed=n, kind='rand')
    T.run(refuse_n, n=2, N=2)
