import numpy as np
from common import *


def basis(T, n, p):
    st = get('edpyt.sector', 'generate_states')(n, p)
    w = words(n, p) if binom(n, p) <= 3000 else None
    ok(len(st) == binom(n, p), 'size %d, expected C(%d,%d)=%d' % (len(st), n, p, binom(n, p)))
    a = [int(x) for x in st]
    if w is not None:
        same(a, w, 'basis of %d particles in %d orbitals' % (p, n))
    ok(all(x < y for x, y in zip(a, a[1:])), 'not strictly increasing')
    ok(all(popcount(x) == p and 0 <= x < (1 << n) for x in (a if len(a) < 5000 else a[::37] + a[-50:])), 'wrong content')
    ok(np.asarray(st).dtype == np.uint32, 'dtype %s' % np.asarray(st).dtype)


def basis_size(T, n):
    """number of words asked for, with the allocation and the filling replaced by a recorder"""
    import edpyt.sector as m
    import signal

    def stop(*a):
        raise RuntimeError
    signal.signal(signal.SIGALRM, stop)
    saved = m.permutations, m.np
    class NP:
        def __getattr__(self, a):
            return getattr(saved[1], a)

        def zeros(self, shape, *a, **k):
            rec.append(shape)
            return saved[1].zeros(1, *a, **k)
    try:
        m.permutations, m.np = (lambda st: None), NP()
        for p in range(n + 1):
            rec = []
            signal.setitimer(signal.ITIMER_REAL, 3)
            try:
                m.generate_states(n, p)
            except Exception:
                return          # organised in another way: not observable here
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if len(rec) == 1:
                same(int(np.prod(rec[0])), binom(n, p), 'number of words of n=%d p=%d' % (n, p))
    finally:
        m.permutations, m.np = saved


def basis_big(T, n, p, k):
    """the first k words of a large basis, through the successor routine itself"""
    perm = get('edpyt.sector', 'permutations')
    st = np.zeros(k, np.uint32)
    st[0] = (1 << p) - 1
    perm(st)
    cur = (1 << p) - 1
    for i in range(k):
        same(int(st[i]), cur, 'word %d of n=%d p=%d' % (i, n, p))
        c = cur & -cur
        r = cur + c
        cur = (((r ^ cur) >> 2) // c) | r if c else 0


def basis_from(T, word, k):
    """the successor from an arbitrary word"""
    perm = get('edpyt.sector', 'permutations')
    st = np.zeros(k, np.uint32)
    st[0] = word
    perm(st)
    cur = word
    for i in range(k):
        same(int(st[i]), cur, 'word %d from %d' % (i, word))
        c = cur & -cur
        r = cur + c
        cur = (((r ^ cur) >> 2) // c) | r


def sector_dim(T, n):
    f = get('edpyt.sector', 'get_sector_dim')
    for a in range(n + 1):
        for b in range(n + 1):
            same(int(f(n, a, b)), binom(n, a) * binom(n, b), 'sector dimension (%d;%d,%d)' % (n, a, b))


def espace_dim(T, n, neig, symmetry):
    f = get('edpyt.espace', 'get_espace_dim')
    d = f(n, neig, symmetry) if neig is not None else f(n, symmetry=symmetry)
    if symmetry.lower() == 'sz':
        w = [binom(n, a) * binom(n, b) for a in range(n + 1) for b in range(n + 1)]
    else:
        w = [binom(2 * n, k) for k in range(2 * n + 1)]
    if neig:
        w = [min(x, neig) for x in w]
    same([int(x) for x in d], w, 'eigenvalue dimensions')


def empty_sector(T, n, nup, ndw):
    s = make_sector(n, nup, ndw)
    same(int(s.d), binom(n, nup) * binom(n, ndw), 'dimension')
    same([int(x) for x in s.states.up], words(n, nup), 'up basis')
    same([int(x) for x in s.states.dw], words(n, ndw), 'down basis')
    ok(s.eigvals is None and s.eigvecs is None, 'an unsolved sector carries eigenpairs')


def empty_nsector(T, n, N):
    s = make_sector(n, N)
    same(int(s.d), binom(2 * n, N), 'dimension')
    same([int(x) for x in s.states], words(2 * n, N), 'basis')


def iter_sectors(T, n):
    g = get('edpyt.espace', '_sz_iter_sectors')
    seen = []
    for q, s in g(n):
        seen.append(tuple(q))
        same([int(x) for x in s.states.up], words(n, q[0]), 'up basis of %r' % (q,))
        same([int(x) for x in s.states.dw], words(n, q[1]), 'down basis of %r' % (q,))
        same(int(s.d), binom(n, q[0]) * binom(n, q[1]), 'dimension of %r' % (q,))
    same(seen, [(a, b) for a in range(n + 1) for b in range(n + 1)], 'sectors visited')


def iter_nsectors(T, n):
    g = get('edpyt.espace', '_N_iter_sectors')
    seen = []
    for q, s in g(n):
        seen.append(tuple(q))
        same([int(x) for x in s.states], words(2 * n, q[0]), 'basis of %r' % (q,))
        same(int(s.d), binom(2 * n, q[0]), 'dimension of %r' % (q,))
    same(seen, [(a,) for a in range(2 * n + 1)], 'sectors visited')


def main(T):
    for n in range(1, 15 if T.thorough else 12):
        for p in range(n + 1):
            T.run(basis, n=n, p=p)
    for n in (16, 20, 24, 27, 30, 31, 32):
        for p in range(0, n + 1):
            if binom(n, p) <= (60000 if T.thorough else 6000):
                T.run(basis, n=n, p=p)
            else:
                T.run(basis_big, n=n, p=p, k=400)
    rs = np.random.RandomState(T.seed)
    for i in range(300 if T.thorough else 60):
        w = int(rs.randint(1, 1 << 30))
        T.run(basis_from, word=w, k=50)
    for i in range(3, 31):
        # words with runs at high bits, where rounding or overflow would show
        for lo in (0, 1, 5, 11):
            if lo + i < 31:
                T.run(basis_from, word=((1 << i) - 1) << lo, k=3)
    for n in range(24, 33):
        T.run(basis_size, n=n)
    for n in range(0, 33):
        T.run(sector_dim, n=n)
    for n in range(1, 8):
        for neig in (None, 1, 2, 3, 5, 10, 1000, 0):
            for s in ('sz', 'SZ', 'Sz', 'N', 'n'):
                T.run(espace_dim, n=n, neig=neig, symmetry=s)
    for n in (8, 9, 10, 11, 12, 13, 14, 15, 16):
        for neig in (None, 7, 4000):
            for s in ('sz', 'N'):
                T.run(espace_dim, n=n, neig=neig, symmetry=s)
    for n in range(1, 7):
        for a in range(n + 1):
            for b in range(n + 1):
                T.run(empty_sector, n=n, nup=a, ndw=b)
        for N in range(2 * n + 1):
            T.run(empty_nsector, n=n, N=N)
        T.run(iter_sectors, n=n)
        T.run(iter_nsectors, n=n)
