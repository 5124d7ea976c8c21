import numpy as np
from common import *


def transpose(T, size, b, seed, dtype='d'):
    """n = size*b in both directions, each rank holds b rows"""
    n = size * b
    rs = np.random.RandomState(seed)
    V = rs.uniform(-1, 1, (n, n)) if dtype == 'd' else rs.uniform(-1, 1, (n, n)) + 1j * rs.uniform(-1, 1, (n, n))
    cd, cu = get('edpyt.vector_transpose', 'collect_dw'), get('edpyt.vector_transpose', 'collect_up')

    def go(comm, r):
        a = V[r * b:(r + 1) * b].copy()
        keep = a
        d = cd(a, comm)
        got = d.copy()
        u = cu(d, comm)
        return got, np.array(u), np.array(keep).reshape(-1)
    for r, (d, u, k) in enumerate(run_ranks(size, go)):
        close(d, V[:, r * b:(r + 1) * b], 'up-split layout on rank %d of %d' % (r, size), 0, 0)
        close(u, V[r * b:(r + 1) * b], 'restored down-split layout on rank %d of %d' % (r, size), 0, 0)


def transpose_refuse(T, size, m, n, up):
    f = get('edpyt.vector_transpose', 'collect_up' if up else 'collect_dw')

    def go(comm, r):
        a = np.arange(float(m * n)).reshape(m, n) + r * m * n
        try:
            f(a, comm)
        except (AssertionError, ValueError, NotImplementedError):
            return True
        return False
    ok(all(run_ranks(size, go)), 'shape (%d,%d) accepted on %d ranks' % (m, n, size))


class Op:
    pass


def product(T, size, n, p, seed):
    rs = np.random.RandomState(seed)
    H = np.stack([rmat(rs, n, 0.2), rmat(rs, n, 0.2)])
    U = np.diag(rs.uniform(0, 2, n))
    ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, U, make_sector(n, p, p))
    want = sector(full_h(H, U), n, p, p) if n < 5 else None
    d = binom(n, p)
    loc = d // size
    v = rs.uniform(-1, 1, d * d)
    if want is None:
        want = np.asarray(get('edpyt.matvec_product', 'todense')(*ops))
    ref = want.dot(v)
    mvo = get('edpyt.matvec_product', 'matvec_operator')
    diag = np.asarray(ops[0])

    def go(comm, r):
        s = slice(r * loc * d, (r + 1) * loc * d)
        mv = mvo(diag[s].copy(), ops[1], ops[2], comm=comm)
        x = v[s].copy()
        x0 = x.copy()
        w = np.array(mv(x))
        w2 = np.array(mv(x))
        return w, w2, np.abs(x - x0).max()
    for r, (w, w2, dx) in enumerate(run_ranks(size, go)):
        s = slice(r * loc * d, (r + 1) * loc * d)
        close(w, ref[s], 'rank %d of %d: slice of the product' % (r, size))
        close(w2, ref[s], 'rank %d of %d: second product' % (r, size))
        ok(dx == 0, 'rank %d: input vector changed by the product' % r)


def product_refuse(T, n, nup, ndw, size):
    H = np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1)
    ops = get('edpyt.build_mb_ham', 'build_mb_ham')(H, np.eye(n), make_sector(n, nup, ndw))

    class C:
        rank = 0

        def __init__(self):
            self.size = size

        def Get_size(self):
            return size

        def Get_rank(self):
            return 0
    try:
        get('edpyt.matvec_product', 'matvec_operator')(*ops, comm=C())
    except (NotImplementedError, ValueError, AssertionError):
        return
    raise Violation('dimensions %d x %d accepted on %d ranks' % (binom(n, nup), binom(n, ndw), size))


def dist_op(A, comm, r, loc):
    """the operator's slice, gathering the vector"""
    def mv(x):
        full = np.empty(loc * comm.size)
        comm.Allgather([x, x.size], [full, x.size])
        return A[r * loc:(r + 1) * loc].dot(full)
    return mv


def lanczos(T, size, loc, seed, steps):
    rs = np.random.RandomState(seed)
    n = size * loc
    A = rs.uniform(-1, 1, (n, n))
    A = A + A.T
    v0 = rs.uniform(-1, 1, n)
    step = get('edpyt.lanczos', 'sl_step')
    # reference recursion
    ref = []
    v, l = v0.copy(), np.zeros(n)
    for _ in range(steps):
        b = np.linalg.norm(v)
        q = v / b
        w = A.dot(q)
        a = q.dot(w)
        w = w - a * q - b * l
        ref.append((a, b, q.copy(), w.copy()))
        l, v = q, w

    def go(comm, r):
        f = step(dist_op(A, comm, r, loc), comm)
        v, l = v0[r * loc:(r + 1) * loc].copy(), np.zeros(loc)
        out = []
        for _ in range(steps):
            a, b, l, v = f(v, l)
            out.append((a, b, l.copy(), v.copy()))
        return out
    for r, out in enumerate(run_ranks(size, go)):
        s = slice(r * loc, (r + 1) * loc)
        for k, ((a, b, l, v), (wa, wb, wl, wv)) in enumerate(zip(out, ref)):
            close([a, b], [wa, wb], 'rank %d of %d, coefficients of step %d' % (r, size, k), 1e-7, 1e-7)
            close(l, wl[s], 'normalised vector of step %d' % k, 1e-6, 1e-6)
            close(v, wv[s], 'residual of step %d' % k, 1e-6, 1e-6)


def tridiag(T, size, loc, seed):
    rs = np.random.RandomState(seed)
    n = size * loc
    A = rs.uniform(-1, 1, (n, n))
    A = A + A.T
    v0 = rs.uniform(-1, 1, n)
    build = get('edpyt.lanczos', 'build_sl_tridiag')
    solve = get('edpyt.lanczos', 'sl_solve')
    a0, b0 = build(A.dot, v0.copy(), maxn=n)

    def go(comm, r):
        mv = dist_op(A, comm, r, loc)
        x = v0[r * loc:(r + 1) * loc]
        a, b = build(mv, x.copy(), maxn=n, comm=comm)
        w, X = solve(mv, a[:6].copy(), b[:6].copy(), x.copy(), comm=comm)
        return a, b, w, X
    w0, X0 = solve(A.dot, a0[:6].copy(), b0[:6].copy(), v0.copy())
    k = min(6, a0.size)
    for r, (a, b, w, X) in enumerate(run_ranks(size, go)):
        close(a[:k], a0[:k], 'rank %d: diagonal' % r, 1e-6, 1e-6)
        close(b[:k], b0[:k], 'rank %d: off-diagonal' % r, 1e-6, 1e-6)
        close(w, w0, 'rank %d: eigenvalues' % r, 1e-6, 1e-6)
        sgn = np.sign(np.sum(X * X0[r * loc:(r + 1) * loc], axis=0))
        close(X * sgn, X0[r * loc:(r + 1) * loc], 'rank %d: eigenvector slices' % r, 1e-5, 1e-5)


def occupation(T, size, n, nup, ndw, nev, seed, order, wt):
    rs = np.random.RandomState(seed)
    dup, dwn = binom(n, nup), binom(n, ndw)
    loc = dwn // size
    v = rs.uniform(-1, 1, (dup * dwn, nev))
    cf = rs.uniform(0, 1, nev) if wt else None
    up, dw = np.array(words(n, nup), np.uint32), np.array(words(n, ndw), np.uint32)
    f = get('edpyt.observs', 'get_evecs_occupation')
    p = (v ** 2) * (1 if cf is None else cf[None, :])
    p = p.reshape(dwn, dup, nev)
    ou = np.array([[(int(s) >> k) & 1 for k in range(n)] for s in up], float)
    od = np.array([[(int(s) >> k) & 1 for k in range(n)] for s in dw], float)
    wu, wd = np.einsum('jik,is->sk', p, ou), np.einsum('jik,js->sk', p, od)

    def go(comm, r):
        x = np.array(v[r * loc * dup:(r + 1) * loc * dup], order=order)
        return f(x, up, dw, n, cf, comm)
    for r, (a, b) in enumerate(run_ranks(size, go)):
        close(a, wu, 'rank %d of %d: up occupation' % (r, size))
        close(b, wd, 'rank %d of %d: down occupation' % (r, size))


def nano(T, size, seed):
    """distributed inequivalent sites: gathered self-energy, occupation map and local functions"""
    G = get('edpyt.nano_dmft', 'Gfloc')
    rs = np.random.RandomState(seed)
    per = 2
    nneq = size * per
    n = nneq + 2
    H = rmat(rs, n, 0.2)
    S = np.eye(n) + 0.1 * rmat(rs, n, 0.2)
    neq = np.arange(nneq)
    inv = np.array(list(range(nneq)) + [0, nneq - 1])
    z = 1j * np.array([0.5, 1.5, 2.5])
    sig = rs.uniform(-1, 1, (nneq, 3)) - 1j * rs.uniform(0, 1, (nneq, 3))
    hyb = lambda zz: -0.1j * np.eye(n)
    mu = 0.3
    full = np.array([np.linalg.inv((zz + mu) * S - H - hyb(zz) - np.diag(sig[inv, k])).diagonal()[neq]
                     for k, zz in enumerate(z)]).T
    weiss = 1 / full + sig
    delta = z[None, :] + mu - H.diagonal()[neq][:, None] - weiss

    def go(comm, r):
        g = G(H, S, hyb, neq, inv, comm=comm)
        g.update(mu)
        mine = slice(r * per, (r + 1) * per)
        g.set_local(lambda zz: sig[mine].copy())
        return np.array(g.get_sigma(z)), np.array(g.Weiss(z)), np.array(g.Delta(z)), np.array(g.ed), np.array(g(z))
    for r, (s, w, d, ed, gg) in enumerate(run_ranks(size, go)):
        mine = slice(r * per, (r + 1) * per)
        close(s, sig, 'rank %d: gathered self-energy' % r, 0, 0)
        close(gg, full[mine], 'rank %d of %d: local functions' % (r, size))
        close(w, weiss[mine], 'rank %d: Weiss field' % r)
        close(d, delta[mine], 'rank %d: hybridisation' % r)
        close(ed, H.diagonal()[neq][mine], 'rank %d: onsite energies' % r)


def main(T):
    set_params()
    for size in (1, 2, 3, 4, 5):
        for b in (1, 2, 3, 7):
            T.run(transpose, size=size, b=b, seed=b)
        T.run(transpose, size=size, b=2, seed=1, dtype='c')
    for size, m, n in ((2, 3, 5), (2, 2, 3), (3, 2, 4), (2, 4, 4), (1, 2, 3), (2, 2, 6), (3, 2, 9), (2, 6, 4), (2, 3, 8)):
        T.run(transpose_refuse, size=size, m=m, n=n, up=False)
        T.run(transpose_refuse, size=size, m=n, n=m, up=True)
    for size, n, p in ((1, 3, 1), (3, 3, 1), (3, 3, 2), (2, 4, 1), (4, 4, 1), (2, 4, 2), (3, 4, 2), (6, 4, 2),
                       (4, 4, 3), (1, 4, 4), (5, 5, 1), (2, 5, 2), (5, 5, 2), (10, 5, 3)):
        T.run(product, size=size, n=n, p=p, seed=n)
    for n, a, b, size in ((3, 1, 1, 2), (4, 2, 2, 4), (3, 1, 3, 1), (3, 1, 0, 1), (4, 2, 1, 2), (5, 2, 2, 3)):
        T.run(product_refuse, n=n, nup=a, ndw=b, size=size)
    for size, loc in ((1, 6), (2, 5), (3, 4), (4, 2), (5, 3)):
        for k in range(3 if T.thorough else 1):
            T.run(lanczos, size=size, loc=loc, seed=size + k, steps=4)
            T.run(tridiag, size=size, loc=max(loc, 8), seed=size + k)
    for size, n, a, b in ((1, 3, 1, 2), (3, 3, 1, 2), (2, 4, 2, 1), (4, 4, 2, 3), (3, 4, 1, 2), (6, 4, 3, 2), (1, 2, 0, 1)):
        for nev in (1, 3):
            for order in 'CF':
                for wt in (0, 1):
                    T.run(occupation, size=size, n=n, nup=a, ndw=b, nev=nev, seed=n, order=order, wt=wt)
    for size in (1, 2, 3):
        T.run(nano, size=size, seed=size)
