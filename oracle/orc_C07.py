import numpy as np
from common import *
from scipy.sparse import csr_matrix


class Csr:
    format = 'csr'

    def __init__(self, A, empty_pad=False):
        n, m = A.shape
        ip, ix, x = [0], [], []
        for i in range(n):
            for j in range(m):
                if A[i, j] != 0:
                    ix.append(j)
                    x.append(A[i, j])
            ip.append(len(ix))
        self.shape = A.shape
        self.indptr = np.array(ip, np.int32)
        self.indices = np.array(ix or [0], np.int32)
        self.data = np.array(x or [0.], np.float64)


def rand_sp(rs, n, kind):
    A = rs.uniform(-1, 1, (n, n))
    A[rs.uniform(size=(n, n)) < 0.5] = 0
    if kind == 'emptyrows':
        A[rs.uniform(size=n) < 0.5] = 0
    if kind == 'zero':
        A[:] = 0
    return A


def kernel(T, which, nup, ndw, seed, kind):
    from edpyt import _psparse
    rs = np.random.RandomState(seed)
    f = get('edpyt._psparse', which)
    n = {'UPmultiply': nup, 'DWmultiply': ndw, 'Multiply': nup * ndw}[which]
    A = rand_sp(rs, n, kind)
    X = Csr(A)
    keep = [X.indptr.copy(), X.indices.copy(), X.data.copy()]
    x, y = rs.uniform(-1, 1, nup * ndw), rs.uniform(-1, 1, nup * ndw)
    big = np.full(nup * ndw + 16, 7.5)
    big[8:-8] = y
    out = big[8:-8]
    x0 = x.copy()
    f(X, x, out)
    M = {'UPmultiply': lambda: np.kron(np.eye(ndw), A), 'DWmultiply': lambda: np.kron(A, np.eye(nup)),
         'Multiply': lambda: A}[which]()
    close(out, y + M.dot(x0), '%s adds the product (%d x %d)' % (which, nup, ndw))
    close(x, x0, 'input of ' + which, 0, 0)
    ok(np.all(big[:8] == 7.5) and np.all(big[-8:] == 7.5), 'memory outside the result changed')
    for a, b in zip(keep, (X.indptr, X.indices, X.data)):
        ok(np.array_equal(a, b), 'matrix changed by ' + which)


def refuse(T, which):
    f = get('edpyt._psparse', which)
    X = Csr(np.eye(2))
    X.format = 'csc'
    try:
        f(X, np.ones(4), np.ones(4))
    except NotImplementedError:
        return
    raise Violation('column storage accepted by ' + which)


def terms(rs, n, nup, ndw, which):
    H = rmat(rs, n, 0.2)
    U = np.diag(rs.uniform(0, 2, n))
    if which == 'two':
        H = np.stack([H, rmat(rs, n, 0.2)])
    V = U
    J = None
    if which == 'nonlocal':
        J = rmat(rs, n, 0.)
        np.fill_diagonal(J, 0)
        V = dict(U=U, Jx=J, Jp=J)
    return H, U, J, V


def product(T, n, nup, ndw, seed, which):
    rs = np.random.RandomState(seed)
    H, U, J, V = terms(rs, n, nup, ndw, which)
    H0, U0 = H.copy(), U.copy()
    ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, V, make_sector(n, nup, ndw))
    want = sector(full_h(H0, U, J, J), n, nup, ndw)
    d = want.shape[0]
    D = np.asarray(get('edpyt.matvec_product', 'todense')(*ops))
    close(D, want, 'dense assembly (%d,%d)' % (nup, ndw))
    D[...] = 0.
    D = np.asarray(get('edpyt.matvec_product', 'todense')(*ops))
    close(D, want, 'second dense assembly (%d,%d)' % (nup, ndw))
    mv = get('edpyt.matvec_product', 'matvec_operator')(*ops)
    for k in range(3):
        v = rs.uniform(-1, 1, d)
        v0 = v.copy()
        r = mv(v)
        close(r, want.dot(v0), 'matrix-free product')
        close(v, v0, 'input vector', 0, 0)
        ok(not np.shares_memory(r, v), 'result aliases the input')
    close(H, H0, 'H', 0, 0)
    close(U, U0, 'U', 0, 0)
    ok(H.flags.writeable and U.flags.writeable, 'inputs left read-only')
    buf = np.full(d, 3.25)
    v = rs.uniform(-1, 1, d)
    r = mv(v, buf)
    close(buf, want.dot(v), 'supplied output buffer')
    close(np.asarray(r), want.dot(v), 'value returned with a supplied buffer')


def large(T, n, nup, ndw, seed):
    rs = np.random.RandomState(seed)
    H, U = rmat(rs, n, 0.3), np.diag(rs.uniform(0, 2, n))
    want = wide_h([u | (d << n) for d in words(n, ndw) for u in words(n, nup)], H, U)
    ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, U, make_sector(n, nup, ndw))
    close(np.asarray(get('edpyt.matvec_product', 'todense')(*ops)), want, 'dense assembly of a larger sector')
    v = rs.uniform(-1, 1, len(want))
    close(get('edpyt.matvec_product', 'matvec_operator')(*ops)(v.copy()), want.dot(v), 'matrix-free product, larger sector')


def subset(T, n, nup, ndw, seed):
    rs = np.random.RandomState(seed)
    H, U, J, V = terms(rs, n, nup, ndw, 'nonlocal')
    ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, V, make_sector(n, nup, ndw))
    td, mvo = get('edpyt.matvec_product', 'todense'), get('edpyt.matvec_product', 'matvec_operator')
    parts = [np.asarray(o.todense()) for o in ops]
    d = parts[0].shape[0]
    for m in range(1, 1 << len(ops)):
        sel = [k for k in range(len(ops)) if (m >> k) & 1]
        close(np.asarray(td(*[ops[k] for k in sel])), sum(parts[k] for k in sel), 'dense assembly of terms %s' % sel)
        if sel[0] == 0:
            v = rs.uniform(-1, 1, d)
            close(mvo(*[ops[k] for k in sel])(v), sum(parts[k] for k in sel).dot(v), 'product with terms %s' % sel)


def parts(T, n, nup, ndw, seed):
    rs = np.random.RandomState(seed)
    H = np.stack([rmat(rs, n, 0.2), rmat(rs, n, 0.2)])
    up, dw = get('edpyt.ham_hopping', 'build_ham_hopping')(H, make_sector(n, nup, ndw))
    F = fock(n)
    off = 1 - np.eye(n)
    A = F.onebody(H[0] * off)[np.ix_(words(n, nup), words(n, nup))]
    B = F.onebody(H[1] * off)[np.ix_(words(n, ndw), words(n, ndw))]
    I, J = np.eye(len(B)), np.eye(len(A))
    for o, w in ((up, np.kron(I, A)), (dw, np.kron(B, J))):
        close(np.asarray(o.todense()), w, 'product-space form')
        v, y = rs.uniform(-1, 1, (2, w.shape[0]))
        out = y.copy()
        o.matvec(v, out=out)
        close(out, y + w.dot(v), 'term added into the result')


def single(T, seed):
    """one orbital: only the diagonal term"""
    rs = np.random.RandomState(seed)
    H, U = rs.uniform(-1, 1, (1, 1)), rs.uniform(0, 1, (1, 1))
    for a in (0, 1):
        for b in (0, 1):
            ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, U, make_sector(1, a, b))
            w = H[0, 0] * (a + b) + U[0, 0] * a * b
            close(np.asarray(get('edpyt.matvec_product', 'todense')(*ops)), [[w]], 'one-orbital Hamiltonian')
            close(get('edpyt.matvec_product', 'matvec_operator')(*ops)(np.array([2.])), [2 * w], 'one-orbital product')


def main(T):
    set_params()
    rs = np.random.RandomState(T.seed)
    for w in ('UPmultiply', 'DWmultiply', 'Multiply'):
        T.run(refuse, which=w)
        for nup, ndw in ((1, 1), (1, 5), (5, 1), (3, 4), (4, 3), (7, 2), (2, 7), (6, 6), (10, 15)):
            for kind in ('rand', 'emptyrows', 'zero'):
                for k in range(4 if T.thorough else 1):
                    T.run(kernel, which=w, nup=nup, ndw=ndw, seed=k + nup, kind=kind)
    for nup, ndw in ((1, 400), (400, 1), (300, 20), (20, 300), (130, 140)):
        for w in ('UPmultiply', 'DWmultiply'):
            T.run(kernel, which=w, nup=nup, ndw=ndw, seed=nup, kind='rand')
    T.run(kernel, which='UPmultiply', nup=70, ndw=40, seed=5, kind='rand')
    T.run(kernel, which='DWmultiply', nup=70, ndw=40, seed=5, kind='rand')
    for n in (2, 3):
        for a in range(n + 1):
            for b in range(n + 1):
                for w in ('one', 'two', 'nonlocal'):
                    T.run(product, n=n, nup=a, ndw=b, seed=n + a, which=w)
                T.run(parts, n=n, nup=a, ndw=b, seed=a)
    for a, b in ((2, 1), (1, 3), (2, 2), (4, 1), (3, 3)):
        T.run(product, n=4, nup=a, ndw=b, seed=a + b, which='two')
        T.run(product, n=4, nup=a, ndw=b, seed=a + b, which='nonlocal')
        T.run(parts, n=4, nup=a, ndw=b, seed=b)
    for a, b in ((0, 0), (1, 2), (2, 1), (3, 3)):
        T.run(subset, n=3, nup=a, ndw=b, seed=a)
    for n, a, b in ((5, 2, 2), (5, 1, 4), (6, 3, 1), (6, 1, 3), (8, 1, 2), (10, 2, 0), (10, 0, 2), (12, 1, 1)):
        T.run(large, n=n, nup=a, ndw=b, seed=n)
    T.run(single, seed=1)
    for k in range(30 if T.thorough else 6):
        n = int(rs.randint(2, 5))
        a, b = [int(x) for x in rs.randint(0, n + 1, 2)]
        T.run(product, n=n, nup=a, ndw=b, seed=int(rs.randint(1e6)), which=str(rs.choice(['one', 'two', 'nonlocal'])))
