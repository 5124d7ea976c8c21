"""Reference mathematics, written from the property statements (no edpyt code)."""
import importlib
import itertools
import math
import numpy as np


class Violation(Exception):
    pass


class NotHere(Exception):
    pass


def get(mod, name):
    """an entry point of the code under test; missing private helpers skip the sub-check"""
    m = importlib.import_module(mod)
    try:
        return getattr(m, name)
    except AttributeError:
        raise NotHere('%s.%s' % (mod, name))


def ok(c, msg):
    if not bool(c):
        raise Violation(msg)


def short(a):
    return np.array2string(np.asarray(a), threshold=24, edgeitems=4, precision=10)


def close(got, want, what, rtol=1e-8, atol=1e-9):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation('%s: shape %r, expected %r' % (what, g.shape, w.shape))
    d = np.abs(g - w)
    lim = atol + rtol * np.abs(w)
    if not np.all(d <= lim):
        bad = np.argwhere(np.atleast_1d(~(d <= lim)))[0]
        raise Violation('%s: differs (max %s), first at %s; got %s, expected %s'
                        % (what, np.nanmax(d) if d.size else '-', bad.tolist(), short(g), short(w)))


def same(got, want, what):
    if not (got == want):
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def binom(n, k):
    return math.comb(n, k) if 0 <= k <= n else 0


def words(n, p):
    """ascending words with p of the n low bits set"""
    return sorted(sum(1 << i for i in c) for c in itertools.combinations(range(n), p))


def apply_ops(s, *ops):
    """applies ('+', k) or ('-', k), the last one first, to the word s; returns (sign, word), sign 0 when it vanishes"""
    g = 1
    for kind, k in reversed(ops):
        if ((s >> k) & 1) != (kind == '-'):
            return 0, 0
        if popcount(s >> (k + 1)) % 2:
            g = -g
        s ^= 1 << k
    return g, s


def popcount(x):
    return bin(x).count('1')


# ------------------------------------------------------------------ Fock space
_fock = {}


class Fock:
    """M orbitals, words are integers, orbital k is bit k; c_k carries (-1)^(occupied above k)."""

    def __init__(self, M):
        self.M = M
        self.D = 1 << M
        self.C = []
        for k in range(M):
            m = np.zeros((self.D, self.D))
            for s in range(self.D):
                if (s >> k) & 1:
                    m[s ^ (1 << k), s] = (-1) ** popcount(s >> (k + 1))
            self.C.append(m)
        self.Cd = [m.T.copy() for m in self.C]

    def onebody(self, T):
        H = np.zeros((self.D, self.D))
        for i in range(T.shape[0]):
            for j in range(T.shape[0]):
                if T[i, j] != 0:
                    H += T[i, j] * self.Cd[i].dot(self.C[j])
        return H


def fock(M):
    if M not in _fock:
        _fock[M] = Fock(M)
    return _fock[M]


def spin_index(n, nup, ndw):
    """words of the product basis i = iup + dup*idw, up bits 0..n-1, down bits n..2n-1"""
    up, dw = words(n, nup), words(n, ndw)
    return np.array([u | (d << n) for d in dw for u in up], dtype=int)


def full_h(H, U, Jx=None, Jp=None, mu=0., hf=False, z=None):
    """The full Fock-space Hamiltonian (2n spin orbitals), from the statements."""
    n = H.shape[-1]
    Hs = np.broadcast_to(H, (2, n, n)) if H.ndim == 2 else H
    F = fock(2 * n)
    occ = np.array([[(s >> k) & 1 for k in range(2 * n)] for s in range(F.D)], float)
    nu, nd = occ[:, :n], occ[:, n:]
    if z is None:
        z = np.ones(n) if hf else np.zeros(n)
    E = nu.dot(np.diag(Hs[0]) + mu) + nd.dot(np.diag(Hs[1]) + mu)
    U = np.asarray(U, float)
    h = 0.5 if hf else 0.
    E = E + ((nu - h) * (nd - h)).dot(np.diag(U))
    W = U - np.diag(np.diag(U))
    q = nu + nd - z
    E = E + 0.5 * np.einsum('si,ij,sj->s', q, W, q)
    out = np.diag(E)
    for sp in range(2):
        T = Hs[sp] - np.diag(np.diag(Hs[sp]))
        big = np.zeros((2 * n, 2 * n))
        big[sp * n:(sp + 1) * n, sp * n:(sp + 1) * n] = np.where(np.abs(T) > 1e-7, T, 0)
        out = out + F.onebody(big)
    C, Cd = F.C, F.Cd
    for J, kind in ((Jx, 'x'), (Jp, 'p')):
        if J is None:
            continue
        for i in range(n):
            for j in range(n):
                if i == j or abs(J[i, j]) <= 1e-7:
                    continue
                for s in range(2):
                    for t in range(2):
                        if kind == 'x':
                            out = out + 0.5 * J[i, j] * Cd[i + s * n].dot(Cd[j + t * n]).dot(C[i + t * n]).dot(C[j + s * n])
                        elif s != t:
                            out = out + 0.5 * J[i, j] * Cd[i + s * n].dot(Cd[i + t * n]).dot(C[j + t * n]).dot(C[j + s * n])
    return out


def wide_h(basis, H, U, Jx=None, Jp=None):
    """the Hamiltonian over the given words (2n spin orbitals, up low), for n too large for full_h"""
    n = H.shape[-1]
    at = {s: k for k, s in enumerate(basis)}
    D = np.zeros((len(basis),) * 2)
    o = 2 * n
    for s in basis:
        k = at[s]
        nu = np.array([(s >> i) & 1 for i in range(n)], float)
        nd = np.array([(s >> (i + n)) & 1 for i in range(n)], float)
        q = nu + nd
        W = U - np.diag(np.diag(U))
        D[k, k] += (nu + nd).dot(np.diag(H)) + (nu * nd).dot(np.diag(U)) + 0.5 * q.dot(W).dot(q)
        fill = [i for i in range(o) if (s >> i) & 1]
        for j in fill:
            sp = j // n
            for i in range(n):
                x = H[i, j - sp * n]
                if i + sp * n != j and abs(x) > 1e-7:
                    g, w = apply_ops(s, ('+', i + sp * n), ('-', j))
                    if g:
                        D[at[w], k] += g * x
        if Jx is None and Jp is None:
            continue
        for a in fill:
            for b in fill:
                if a == b:
                    continue
                # c_a c_b with b = (j, sp), a = (i or j, t)
                j, sp = b % n, b // n
                i, t = a % n, a // n
                if Jx is not None and i != j and abs(Jx[i, j]) > 1e-7:
                    g, w = apply_ops(s, ('+', i + sp * n), ('+', j + t * n), ('-', i + t * n), ('-', j + sp * n))
                    if g:
                        D[at[w], k] += 0.5 * g * Jx[i, j]
                if Jp is not None and i == j and sp != t:
                    for i in range(n):
                        if i != j and abs(Jp[i, j]) > 1e-7:
                            g, w = apply_ops(s, ('+', i + sp * n), ('+', i + t * n), ('-', j + t * n), ('-', j + sp * n))
                            if g:
                                D[at[w], k] += 0.5 * g * Jp[i, j]
    return D


def sector(Hf, n, nup, ndw):
    ix = spin_index(n, nup, ndw)
    return Hf[np.ix_(ix, ix)]


def nsector(Hf, n, N):
    ix = np.array(words(2 * n, N))
    return Hf[np.ix_(ix, ix)]


def rmat(rs, n, sparse=0.3, sym=True, scale=1.):
    A = rs.uniform(-1, 1, (n, n)) * scale
    if sym:
        A = (A + A.T) / 2
    M = rs.uniform(size=(n, n)) < sparse
    M = M | M.T if sym else M
    A[M & ~np.eye(n, dtype=bool)] = 0.
    return A


def set_params(hf=False, mu=0., z=None):
    p = get('edpyt.shared', 'params')
    p['hfmode'], p['mu'], p['z'] = hf, mu, z


def make_sector(n, *p):
    return get('edpyt.espace', 'build_empty_sector')(n, *p)


def fermi(x):
    x = np.asarray(x, float)
    return 0.5 * (1 - np.tanh(x / 2))


# ------------------------------------------------- simulated communicator (threads)
class Abort(Exception):
    pass


def run_ranks(size, fn):
    """run fn(comm, rank) on `size` threads with a rendezvous communicator"""
    import threading
    res, err = [None] * size, [None] * size
    bar = threading.Barrier(size, timeout=60)
    board = [None] * size

    class Comm:
        def __init__(self, r):
            self.rank = r
            self.size = size

        def Get_size(self):
            return size

        def Get_rank(self):
            return self.rank

        def _ex(self, x):
            board[self.rank] = x
            bar.wait()
            got = list(board)
            bar.wait()
            return got

        @staticmethod
        def _buf(b):
            return b[0] if isinstance(b, (list, tuple)) else b

        @staticmethod
        def _cnt(b):
            return b[1] if isinstance(b, (list, tuple)) and len(b) > 1 and isinstance(b[1], (int, np.integer)) else None

        def Alltoall(self, s, r):
            sb = np.array(self._buf(s), copy=True)
            if not self._buf(s).flags.c_contiguous:
                raise Violation('non-contiguous send buffer')
            rb = self._buf(r)
            if not rb.flags.c_contiguous:
                raise Violation('non-contiguous receive buffer')
            c = self._cnt(s)
            sb = sb.reshape(-1)
            # mpi4py: an explicit count is the number of elements per rank
            ch = sb.size // size if c is None else int(c)
            if ch * size > sb.size or ch * size > rb.size:
                raise Violation('Alltoall count %d x %d ranks exceeds the buffer (%d)' % (ch, size, sb.size))
            got = self._ex((sb, ch))
            flat = rb.reshape(-1)
            for p in range(size):
                b, k = got[p]
                flat[p * k:(p + 1) * k] = b[self.rank * k:(self.rank + 1) * k]

        def Allgather(self, s, r):
            got = self._ex(np.array(self._buf(s), copy=True).reshape(-1))
            self._buf(r).reshape(-1)[:] = np.concatenate(got)

        def Allreduce(self, s, r, op=None):
            got = self._ex(np.array(self._buf(s), copy=True))
            self._buf(r)[...] = sum(got[1:], got[0])

        def allreduce(self, v, op=None):
            got = self._ex(v)
            return sum(got[1:], got[0])

        def allgather(self, v):
            return self._ex(v)

        def bcast(self, v, root=0):
            return self._ex(v)[root]

        def Barrier(self):
            bar.wait()

    def go(r):
        try:
            res[r] = fn(Comm(r), r)
        except BaseException as e:
            err[r] = e
            bar.abort()
    th = [threading.Thread(target=go, args=(r,)) for r in range(size)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    import threading as _t
    for e in err:
        if e is not None and not isinstance(e, _t.BrokenBarrierError):
            raise e
    for e in err:
        if e is not None:
            raise e
    return res
