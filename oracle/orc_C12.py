import numpy as np
from common import *
from orc_C11 import system


def retained(H, V, keep):
    """eigenspace reduced to a chosen set of initial states"""
    es, egs = get('edpyt.espace', 'build_espace')(H, V)
    n = H.shape[-1]
    if keep == 'all':
        return es, egs
    if keep == 'cut':
        get('edpyt.espace', 'screen_espace')(es, egs, 4., 1e-2)
        return es, egs
    if keep == 'gs':
        get('edpyt.espace', 'screen_espace')(es, egs, 1e5, 1e-1)
        return es, egs
    # keep = ((nup, ndw), count) ...
    out = {}
    for q, k in keep:
        q = tuple(q)
        s = es[q]
        s.eigvals, s.eigvecs = s.eigvals[:k].copy(), np.ascontiguousarray(s.eigvecs[:, :k])
        out[q] = s
    return out, egs


_eig = {}


def eig(H, V, kw):
    k = (H.shape, H.tobytes(), V.tobytes(), tuple(sorted(kw.items())))
    if k not in _eig:
        if len(_eig) > 8:
            _eig.clear()
        _eig[k] = np.linalg.eigh(full_h(H, V, **kw))
    return _eig[k]


def reference(H, V, states, egs, beta, ispin, A, B, z, part, kw):
    """1/Z sum_n e^{-bE_n} [<n|A 1/(z-(H-E_n)) A+|n> + <n|A+ 1/(z+(H-E_n)) A|n>]; A = c_i, B = c_j (or a sum)"""
    n = H.shape[-1]
    E, X = eig(H, V, kw)
    F = fock(2 * n)
    a, b = F.C[A + n * ispin], F.C[B + n * ispin]
    out = np.zeros(z.size, complex)
    Z = 0.
    for (nup, ndw), w, vec in states:
        ix = spin_index(n, nup, ndw)
        for k in range(w.size):
            x = np.zeros(F.D)
            x[ix] = vec[:, k]
            ex = np.exp(-beta * (w[k] - egs))
            Z += ex
            if 'e' in part:
                l, r = X.T.dot(a.T.dot(x)), X.T.dot(b.T.dot(x))
                out += ex * (l * r / (z[:, None] - (E[None, :] - w[k]))).sum(1)
            if 'h' in part:
                l, r = X.T.dot(a.dot(x)), X.T.dot(b.dot(x))
                out += ex * (l * r / (z[:, None] + (E[None, :] - w[k]))).sum(1)
    return out / Z


Z0 = np.array([-2.1, -0.6, 0., 0.4, 1.7]) + 1j * np.array([0.3, 0.2, 0.5, 0.4, 0.7])


def snapshot(es):
    return [(q, s.eigvals.copy(), s.eigvecs.copy()) for q, s in es.items()]


def kept(es, st, what):
    same(list(es), [q for q, _, _ in st], what + ': sectors of the eigen-space after the call')
    for q, w, v in st:
        s = es[q]
        ok(s.eigvals.shape == w.shape and np.array_equal(s.eigvals, w), what + ': retained energies of %r changed' % (q,))
        ok(s.eigvecs.shape == v.shape and np.array_equal(s.eigvecs, v), what + ': retained vectors of %r changed' % (q,))


def diag(T, n, seed, spin, ispin, pos, beta, repr, keep, hf=False, mu=0.):
    kw = dict(hf=hf, mu=mu)
    set_params(**kw)
    H, V = system(n, seed, spin)
    es, egs = retained(H, V, keep)
    st = snapshot(es)
    bld = get('edpyt.gf_lanczos', 'build_gf_lanczos')
    want = reference(H, V, st, egs, beta, ispin, pos, pos, Z0, 'eh', kw)
    g = bld(H, V, es, beta, egs, pos, repr, ispin)
    close(np.atleast_1d(g(Z0.real, Z0.imag)), want, 'Lanczos Green function, site %d spin %d' % (pos, ispin), 1e-6, 1e-7)
    kept(es, st, 'build_gf_lanczos')
    ge, gh = bld(H, V, es, beta, egs, pos, repr, ispin, True)
    for gg, p in ((ge, 'e'), (gh, 'h')):
        close(np.zeros(5) + gg(Z0.real, Z0.imag), reference(H, V, st, egs, beta, ispin, pos, pos, Z0, p, kw),
              'separate part %s' % p, 1e-6, 1e-7)
    set_params()


def matrix(T, n, seed, spin, ispin, beta, repr, keep, separate):
    set_params()
    H, V = system(n, seed, spin)
    es, egs = retained(H, V, keep)
    st = snapshot(es)
    g = get('edpyt.gf2_lanczos', 'build_gf2_lanczos')(H, V, es, beta, egs, ispin, repr, separate)
    ref = lambda i, j, p: reference(H, V, st, egs, beta, ispin, i, j, Z0, p, {})
    G = g(Z0.real, Z0.imag)
    parts = [('e', G[0]), ('h', G[1])] if separate else [('eh', G)]
    for p, M in parts:
        for i in range(n):
            for j in range(n):
                want = ref(i, j, p)
                if p != 'eh':
                    want = 0.5 * (want + ref(j, i, p))
                elif keep != 'all':
                    want = 0.5 * (want + ref(j, i, p))
                close(M[i, j], want, 'element (%d,%d) part %s' % (i, j, p), 1e-6, 1e-7)
        close(M, np.transpose(M, (1, 0, 2)), 'symmetry', 1e-9, 1e-9)
    for i, j in ((0, 0), (0, n - 1), (n - 1, 0)):
        w = 0.5 * (ref(i, j, 'eh') + ref(j, i, 'eh'))
        try:
            f = g[i, j]
            got = np.zeros(5) + f(Z0.real, Z0.imag)
        except (TypeError, AttributeError) as e:
            if i > j:       # lower triangle is not stored
                continue
            raise
        close(got, w, 'item access (%d,%d)' % (i, j), 1e-6, 1e-7)
    kept(es, st, 'build_gf2_lanczos')


def vanish(T, n, i, j, ispin):
    """combined excitation c_i + c_j (or its adjoint) that vanishes on an initial state"""
    set_params()
    H = np.zeros((n, n))
    H[i, j] = H[j, i] = -1.
    H += np.diag(np.linspace(0.3, 0.7, n)) * 0
    V = np.zeros((n, n))
    es, egs = get('edpyt.espace', 'build_espace')(H, V)
    st = snapshot(es)
    for sep in (False, True):
        r = get('edpyt.gf2_lanczos', 'build_gf2_lanczos')(H, V, es, 1.3, egs, ispin, 'cf', sep)
        G = r(Z0.real, Z0.imag)
        G = G[0] + G[1] if sep else G
        close(G[i, j], reference(H, V, st, egs, 1.3, ispin, i, j, Z0, 'eh', {}), 'element (%d,%d)' % (i, j), 1e-6, 1e-7)


def main(T):
    part = [[[1, 1], 1], [[1, 0], 1]]
    for n in (1, 2, 3):
        for seed in range(2):
            for spin in (False, True):
                for ispin in (0, 1):
                    for repr in ('cf', 'sp'):
                        for keep in ('all', 'cut', 'gs'):
                            T.run(diag, n=n, seed=seed, spin=spin, ispin=ispin, pos=(seed + ispin) % n,
                                  beta=1.3, repr=repr, keep=keep)
    for n, keep in ((2, part), (3, [[[1, 1], 2], [[2, 2], 3]]), (3, [[[0, 1], 2], [[1, 1], 4], [[2, 1], 1]]),
                    (2, [[[0, 0], 1]]), (2, [[[2, 2], 1]]), (3, [[[3, 0], 1], [[1, 2], 5]]), (3, [[[0, 0], 1]])):
        for ispin in (0, 1):
            for repr in ('cf', 'sp'):
                for pos in (0, n - 1):
                    T.run(diag, n=n, seed=5, spin=True, ispin=ispin, pos=pos, beta=0.4, repr=repr, keep=keep)
    # sectors above the direct-solution size
    for keep in ('gs', [[[2, 2], 3], [[2, 1], 2]], [[[1, 3], 2]], [[[4, 4], 1], [[0, 0], 1]]):
        for ispin in (0, 1):
            for repr in ('cf', 'sp'):
                T.run(diag, n=4, seed=2, spin=True, ispin=ispin, pos=2, beta=0.8, repr=repr, keep=keep)
    for ispin in (0, 1):
        T.run(diag, n=4, seed=7, spin=True, ispin=ispin, pos=1, beta=0.3, repr='cf', keep=[[[2, 2], 17], [[3, 2], 13]])
    T.run(diag, n=2, seed=0, spin=True, ispin=1, pos=1, beta=3., repr='cf', keep='all', hf=True, mu=0.3)
    T.run(diag, n=3, seed=0, spin=True, ispin=1, pos=1, beta=3., repr='sp', keep='gs', hf=True, mu=0.3)
    for n in (2, 3):
        for ispin in (0, 1):
            for sep in (False, True):
                T.run(matrix, n=n, seed=4, spin=True, ispin=ispin, beta=1.1, repr='cf', keep='all', separate=sep)
                T.run(matrix, n=n, seed=4, spin=True, ispin=ispin, beta=1.1, repr='sp', keep=[[[1, 1], 2], [[n, 0], 1]], separate=sep)
            for i, j in ((0, 1), (0, n - 1)):
                T.run(vanish, n=n, i=i, j=j, ispin=ispin)
    if T.thorough:
        for seed in range(6):
            for ispin in (0, 1):
                for repr in ('cf', 'sp'):
                    T.run(diag, n=4, seed=seed, spin=True, ispin=ispin, pos=seed % 4, beta=0.8, repr=repr, keep='cut')
                T.run(matrix, n=4, seed=seed, spin=True, ispin=ispin, beta=1., repr='cf', keep=[[[2, 1], 2], [[2, 2], 1]], separate=bool(seed % 2))
