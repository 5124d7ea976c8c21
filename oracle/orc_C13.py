import numpy as np
from common import *


def oper(rs, n, kind):
    A = rs.uniform(-1, 1, (n, n))
    A = A + A.T
    if kind == 'diag':
        A = np.diag(rs.uniform(-2, 2, n))
    if kind == 'id':
        A = 1.7 * np.eye(n)
    if kind == 'block':
        A[:n // 2, n // 2:] = 0.
        A[n // 2:, :n // 2] = 0.
    if kind == 'deg':
        Q, _ = np.linalg.qr(A)
        A = Q.dot(np.diag(np.repeat([-1., 0.5, 2.], n)[:n])).dot(Q.T)
        A = (A + A.T) / 2
    if kind == 'big':
        A = A * 50
    return A


def step(T, n, seed, kind, first, scale=1.):
    rs = np.random.RandomState(seed)
    A = oper(rs, n, kind)
    v = rs.uniform(-1, 1, n) * scale
    l = np.zeros(n) if first else rs.uniform(-1, 1, n)
    v0, l0 = v.copy(), l.copy()
    A0 = A.copy()
    f = get('edpyt.lanczos', 'sl_step')(A.dot)
    a, b, q, w = f(v, l)
    nb = np.sqrt((v0 ** 2).sum())
    wq = v0 / nb
    wa = wq.dot(A).dot(wq)
    close(b, nb, 'b', 1e-12, 0)
    close(q, wq, 'normalised vector', 1e-12, 1e-14)
    close(a, wa, 'a', 1e-10, 1e-11)
    close(w, A.dot(wq) - wa * wq - nb * l0, 'residual', 1e-9, 1e-10)
    close(l, l0, 'previous vector after the step', 0, 0)
    close(A, A0, 'operator', 0, 0)


def krylov(A, v, m):
    """orthonormal Krylov basis (full reorthogonalisation), a, b"""
    n = len(v)
    Q = [v / np.linalg.norm(v)]
    a, b = [], [np.linalg.norm(v)]
    for k in range(m):
        w = A.dot(Q[-1])
        a.append(Q[-1].dot(w))
        for _ in range(2):
            for q in Q:
                w = w - q.dot(w) * q
        nb = np.linalg.norm(w)
        if nb < 1e-9 or k == m - 1:
            break
        b.append(nb)
        Q.append(w / nb)
    return np.array(a), np.array(b), np.array(Q).T


def tridiag(T, n, seed, kind, kw):
    rs = np.random.RandomState(seed)
    A = oper(rs, n, kind)
    v = rs.uniform(-1, 1, n)
    build = get('edpyt.lanczos', 'build_sl_tridiag')
    a, b = build(A.dot, v.copy(), **kw)
    same(a.size, b.size, 'sizes')
    ok(a.size >= 1, 'no coefficients')
    ra, rb, Q = krylov(A, v, min(n, 8))
    k = min(ra.size, a.size, 8)
    close(a[:k], ra[:k], 'a', 1e-6, 1e-6)
    close(b[:k], rb[:k], 'b', 1e-6, 1e-6)
    Tm = np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)
    e = np.linalg.eigvalsh(A)
    sc = max(1., abs(e).max())
    ok(np.linalg.eigvalsh(Tm)[0] >= e[0] - 1e-9 * sc, 'lowest eigenvalue of T %.15g below the true one %.15g' % (np.linalg.eigvalsh(Tm)[0], e[0]))
    if 'maxn' in kw:
        ok(a.size <= kw['maxn'], 'more coefficients than maxn')
    if kw.get('maxn', 500) > n + 10 and a.size + kw.get('ND', 10) < n:
        # stopped early: the last two estimates agree to the tolerance
        m = a.size - kw.get('ND', 10)
        if m == 0 and kw.get('ND', 10) > 1 and abs(b[1:]).min() > 1e-8 * sc and kind == 'gen':
            ok(False, 'stopped after the first %d steps without comparing' % a.size)
        if m >= 1 and b.size > 1 and abs(b[1:]).min() > 1e-8 * sc:
            e1 = np.linalg.eigvalsh(Tm[:m, :m])[0]
            d = abs(np.linalg.eigvalsh(Tm)[0] - e1)
            ok(d <= 2e-10 + 1e-13 * sc, 'stopped with the lowest eigenvalue still moving by %g' % d)
    if kind in ('gen',) and not kw:
        ev = e
        close(np.linalg.eigvalsh(Tm)[0], e[0], 'converged lowest eigenvalue', 1e-7, 1e-7 * sc)
    if kind == 'id':
        ok(abs(Tm[0, 0] - 1.7) < 1e-10, 'identity operator')


def zero(T, n, comm):
    from importlib import import_module
    L = import_module('edpyt.lanczos')
    try:
        L.build_sl_tridiag(np.eye(n).dot, np.zeros(n))
    except L.ZeroNormInitialVector:
        return
    raise Violation('zero start vector accepted')


def eigvec(T, n, seed, kind, select, rng, first):
    rs = np.random.RandomState(seed)
    A = oper(rs, n, kind)
    v = rs.uniform(-1, 1, n)
    L = 'edpyt.lanczos'
    a, b = get(L, 'build_sl_tridiag')(A.dot, v.copy())
    a, b = a[:n].copy(), b[:n].copy()
    if first:
        a, b = a[:first].copy(), b[:first].copy()
    m = a.size
    if rng[1] >= m:
        rng = [0, 0]
    w, X = get(L, 'sl_solve')(A.dot, a.copy(), b.copy(), v.copy(), select, tuple(rng))
    Tm = np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)
    tw, tu = np.linalg.eigh(Tm)
    if select == 2:
        tw, tu = tw[rng[0]:rng[1] + 1], tu[:, rng[0]:rng[1] + 1]
    close(w, tw, 'eigenvalues', 1e-8, 1e-9)
    same(X.shape, (n, tw.size), 'shape of the eigenvectors')
    # X = V U with V the Krylov basis
    _, _, Q = krylov(A, v, m)
    if Q.shape[1] == m and not first is None or m <= 8:
        ref = Q[:, :m].dot(tu)
        s = np.sign((X * ref).sum(0))
        close(X * s, ref, 'eigenvectors in the full space', 1e-5, 1e-5)
    close(np.einsum('ik,ij,jk->k', X, A, X), tw, 'expectation values', 1e-5, 1e-5)
    if not first and kind in ('gen', 'block'):
        R = A.dot(X) - X * w
        ok(np.abs(R[:, 0]).max() < 1e-4, 'first vector is no eigenvector: %g' % np.abs(R[:, 0]).max())
    w2 = get(L, 'sl_solve')(A.dot, a.copy(), b.copy(), None, select, tuple(rng), True)
    close(w2, tw, 'eigvals_only', 1e-8, 1e-9)


def tri_solver(T, n, seed, rng):
    rs = np.random.RandomState(seed)
    a, b = rs.uniform(-2, 2, n), rs.uniform(0.1, 2, n - 1)
    if seed % 3 == 2 and n > 3:
        b[n // 2] = 0.
    a0, b0 = a.copy(), b.copy()
    Tm = np.diag(a) + np.diag(b, 1) + np.diag(b, -1)
    e = np.linalg.eigvalsh(Tm)
    f = get('edpyt.tridiag', 'eigh_tridiagonal')
    w, v = f(a, b)
    close(w, e, 'full spectrum', 1e-9, 1e-10)
    same(v.shape, (n, n), 'shape')
    close(Tm.dot(v), v * w, 'full eigenvectors', 1e-8, 1e-9)
    close(v.T.dot(v), np.eye(n), 'orthonormal', 1e-8, 1e-9)
    close(f(a, b, eigvals_only=True), e, 'eigvals_only', 1e-9, 1e-10)
    if n > 1:
        close(get('edpyt.tridiag', 'egs_tridiag')(a, b), e[0], 'egs_tridiag', 1e-9, 1e-10)
        w, v = f(a, b, 2, tuple(rng))
        o = np.argsort(w)
        w, v = w[o], v[:, o]
        close(w, e[rng[0]:rng[1] + 1], 'range of the spectrum', 1e-9, 1e-10)
        same(v.shape, (n, w.size), 'shape')
        close(Tm.dot(v), v * w, 'eigenvectors of the range', 1e-7, 1e-8)
        close((v ** 2).sum(0), np.ones(w.size), 'normalised')
        close(np.sort(f(a, b, 2, tuple(rng), True)), e[rng[0]:rng[1] + 1], 'range, eigvals_only', 1e-9, 1e-10)
    close(a, a0, 'a', 0, 0)
    close(b, b0, 'b', 0, 0)


def gs_rows(T, m, n, seed, rows, norm):
    rs = np.random.RandomState(seed)
    X = rs.uniform(-1, 1, (m, n))
    f = get('edpyt.lanczos', 'gram_schmidt_rows')
    inp = X.copy() if rows else X.T.copy()
    keep = inp.copy()
    Y = f(inp, rows, norm)
    close(inp, keep, 'input', 0, 0)
    Y = Y if rows else Y.T
    same(Y.shape, X.shape, 'shape')
    G = Y.dot(Y.T)
    close(G - np.diag(np.diag(G)), np.zeros((m, m)), 'orthogonality', 1e-8, 1e-8)
    if norm:
        close(np.diag(G), np.ones(m), 'norm', 1e-9, 1e-9)
    # same flag of subspaces, positive overlap with the input
    C = X.dot(Y.T) / np.diag(G)
    close(np.triu(C, 1), np.zeros((m, m)), 'spans', 1e-7, 1e-7)
    ok((np.diag(C) > 0).all(), 'orientation')
    close(C.dot(Y), X, 'recombination', 1e-7, 1e-7)
    if not norm:
        close(np.diag(C), np.ones(m), 'unnormalised vectors keep unit overlap', 1e-7, 1e-7)


def gs_cols(T, m, n, seed):
    rs = np.random.RandomState(seed)
    X = rs.uniform(-1, 1, (n, m))
    Q = get('edpyt.lanczos', 'gram_schmidt_columns')(X.copy())
    close(Q.T.dot(Q), np.eye(m), 'orthonormal columns')
    close(Q.dot(Q.T).dot(X), X, 'span')


def block(T, n, L, seed, kind, kw, dup=False):
    """T of the block variant is the projection on an orthonormal basis of the block Krylov space"""
    rs = np.random.RandomState(seed)
    A = oper(rs, n, kind)
    P = [rs.uniform(-1, 1, n) for _ in range(L)]
    if dup:
        P[0] = np.eye(n)[0]
        P[-1] = 2 * P[0]
    vs = []

    def mv(v):
        vs.append(np.array(v))
        return A.dot(v)
    Tm = get('edpyt.lanczos', 'build_bd_tridiag')(mv, [p.copy() for p in P], **kw)
    m = Tm.shape[0]
    same(Tm.shape, (m, m), 'shape')
    V = np.array(vs[:m]).T
    k = min(m, max(L, n // 2), 8)
    V, Tk = V[:, :k], Tm[:k, :k]
    close(V.T.dot(V), np.eye(k), 'orthonormal basis', 1e-6, 1e-6)
    # T[i, j] for j < k - L is final
    close(V.T.dot(A).dot(V), Tk, 'projected matrix', 1e-6, 1e-6)
    close(Tm, Tm.T, 'symmetry of T', 1e-6, 1e-6)
    if m <= n // 2:
        close(np.array(vs[:m]).dot(A).dot(np.array(vs[:m]).T), Tm, 'whole projected matrix', 1e-6, 1e-6)
    if m > n:       # exhausted Krylov space: the tail is rounding noise
        return
    e = np.linalg.eigvalsh(A)
    ok(np.linalg.eigvalsh(Tm)[0] >= e[0] - 1e-8 * max(1, abs(e).max()), 'lowest eigenvalue below the true one')


def inexact(T, seed):
    """candidates dropped with a small but non-zero residual: the basis stays orthonormal and T its projected matrix"""
    rs = np.random.RandomState(seed)
    L = rs.randint(2, 4)
    ds = [rs.randint(2, 8) for _ in range(L)]
    eps = 10. ** -rs.randint(2, 6)
    N = sum(ds)
    A, o, P = np.zeros((N, N)), 0, []
    for d in ds:
        M = rs.randn(d, d)
        A[o:o + d, o:o + d] = M + M.T
        x = np.zeros(N)
        x[o:o + d] = rs.randn(d)
        P.append(x)
        o += d
    C = rs.randn(N, N)
    A += eps * (C + C.T)
    vs = []

    def mv(v):
        vs.append(np.array(v))
        return A.dot(v)
    Tm = get('edpyt.lanczos', 'build_bd_tridiag')(mv, P, maxn=N, delta=.05, tol=0., ND=1000)
    m = Tm.shape[0]
    V = np.array(vs[:m]).T
    close(V.T.dot(V), np.eye(m), 'orthonormal basis after an inexact deflation', 1e-7, 1e-7)
    close(V.T.dot(A).dot(V), Tm, 'projected matrix after an inexact deflation', 1e-7, 1e-7)


def main(T):
    set_params()
    s = 0
    for n in (1, 2, 5, 17):
        for kind in ('gen', 'diag', 'id', 'block', 'deg', 'big'):
            for first in (True, False):
                for sc in (1., 1e-3, 40.):
                    s += 1
                    T.run(step, n=n, seed=s, kind=kind, first=first, scale=sc)
    for n in (1, 2, 3, 6, 11, 30, 60, 140):
        for kind in ('gen', 'diag', 'id', 'block', 'deg', 'big'):
            s += 1
            T.run(tridiag, n=n, seed=s, kind=kind, kw={})
        T.run(tridiag, n=n, seed=s, kind='gen', kw=dict(maxn=4))
        T.run(tridiag, n=n, seed=s, kind='gen', kw=dict(ND=3))
        T.run(tridiag, n=n, seed=s, kind='gen', kw=dict(maxn=13, ND=5))
        T.run(tridiag, n=n, seed=s, kind='gen', kw=dict(ND=1))
        T.run(tridiag, n=n, seed=s, kind='gen', kw=dict(ND=2))
        T.run(zero, n=n, comm=None)
    for n in (2, 5, 8, 20):
        for kind in ('gen', 'block'):
            for select, rng in ((0, [0, 0]), (2, [0, 0]), (2, [1, 2]), (2, [0, 3])):
                for first in (None, 4):
                    if first and n < 5:
                        continue
                    s += 1
                    T.run(eigvec, n=n, seed=s, kind=kind, select=select, rng=rng, first=first)
    for n in (1, 2, 3, 8, 40):
        for rng in ([0, 0], [0, 1], [1, 1]):
            for k in range(3):
                T.run(tri_solver, n=n, seed=n + k, rng=rng)
    for m, n in ((1, 3), (2, 2), (3, 7), (5, 5)):
        for rows in (True, False):
            for norm in (True, False):
                T.run(gs_rows, m=m, n=n, seed=m + n, rows=rows, norm=norm)
        T.run(gs_cols, m=m, n=n, seed=m)
    for n, L in ((6, 1), (8, 2), (12, 3), (20, 2), (9, 4)):
        for kind in ('gen', 'block', 'big'):
            T.run(block, n=n, L=L, seed=n + L, kind=kind, kw={})
        T.run(block, n=n, L=L, seed=n + L, kind='gen', kw=dict(maxn=n, ND=3))
    T.run(block, n=12, L=3, seed=1, kind='gen', kw={}, dup=True)
    for n, L, mx in ((20, 2, 8), (20, 3, 9), (30, 4, 12), (20, 1, 5)):
        T.run(block, n=n, L=L, seed=2, kind='gen', kw=dict(maxn=mx))
        if L > 1:
            T.run(block, n=n, L=L, seed=2, kind='gen', kw=dict(maxn=mx), dup=True)
    for k in range(40):
        T.run(inexact, seed=k)
