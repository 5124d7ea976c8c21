"""Reference for the transport properties: many-body states in the full Fock space."""
import numpy as np
from common import *


def sys_ham(n, seed, spin=True, level=-1.5):
    """generic non-degenerate system (spin-split onsite energies) and density-density interaction"""
    rs = np.random.RandomState(seed)
    H = np.stack([rmat(rs, n, 0.2)] * 2)
    if spin:
        H[1] += np.diag(rs.uniform(0.1, 0.4, n))
    H[:, np.arange(n), np.arange(n)] += rs.uniform(-0.5, 0.5) + level
    V = np.diag(rs.uniform(2., 4., n))
    if n > 1:
        O = rs.uniform(0, 0.5, (n, n)); O = O + O.T
        V = V + O - np.diag(np.diag(O))
    return H, V


def couplings(n, seed):
    return np.random.RandomState(seed + 77).uniform(-1, 1, (2, n))


def nspace(H, V):
    """eigen-space resolved in the total number only, from the reference Hamiltonian"""
    n = H.shape[-1]
    Hf = full_h(H, V)
    out = {}
    for N in range(2 * n + 1):
        s = make_sector(n, N)
        s.eigvals, s.eigvecs = np.linalg.eigh(nsector(Hf, n, N))
        out[(N,)] = s
    return out, min(s.eigvals.min() for s in out.values())


def states(es, sym, n):
    """id -> (energy, Fock vector) for every state of the eigen-space"""
    out = {}
    for q, s in es.items():
        if sym == 'N':
            ix = np.array(words(2 * n, q[0]))
        else:
            ix = spin_index(n, q[0], q[1])
        for k in range(s.eigvals.size):
            v = np.zeros(1 << (2 * n))
            v[ix] = s.eigvecs[:, k]
            out[tuple(int(x) for x in q) + (k,)] = (float(s.eigvals[k]), v)
    return out


def key(i):
    """flat id: ((N,), k) or (N, k) or (nup, ndw, k) -> tuple of ints"""
    r = []
    for x in np.ravel(np.array(i, dtype=object)):
        r.extend(x if isinstance(x, tuple) else [x])
    return tuple(int(x) for x in r)


def thermal(beta, x):
    """x/(e^(beta x)-1)"""
    bx = beta * x
    if abs(bx) < 1e-6:
        return (1 - bx / 2 + bx * bx / 12) / beta
    if bx > 700:
        return 0.
    return x / np.expm1(bx)


def pairs(n):
    return [(s, i) for s in range(2) for i in range(n)]


def paths(F, n, st, idI, idF, A, ext, inj, so, si):
    """the electron path (+ spin si through `ext`, then - spin so through `inj`) and the hole path
    (- spin so through `inj`, then + spin si through `ext`): lists of (residue, pole), energy variable = energy of the
    electron left in `inj`: amplitude = sum residue/(pole - z)"""
    eI, vI = st[idI]
    eF, vF = st[idF]
    add = sum(A[ext][i] * F.Cd[i + si * n] for i in range(n))
    rem = sum(A[inj][i] * F.C[i + so * n] for i in range(n))
    e, h = [], []
    for m, (em, vm) in st.items():
        a = vF.dot(rem.dot(vm)) * vm.dot(add.dot(vI))
        b = vF.dot(add.dot(vm)) * vm.dot(rem.dot(vI))
        if abs(a) > 1e-14:
            e.append((a, em - eF))
        if abs(b) > 1e-14:
            h.append((b, eI - em))
    return e, h


def amp2(p, z):
    return sum(r / (E - z) for r, E in p) ** 2 if p else 0. * z
