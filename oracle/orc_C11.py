import numpy as np
from common import *


def system(n, seed, spin, U=2., hop=None):
    rs = np.random.RandomState(seed)
    H = np.stack([rmat(rs, n, 0.2), rmat(rs, n, 0.2)])
    if not spin:
        H[1] = H[0]
    V = np.diag(rs.uniform(0, U, n))
    if seed % 3 == 1 and n > 1:
        O = rmat(rs, n, 0.)
        V = V + 0.4 * (O - np.diag(np.diag(O)))
    return H if spin else H[0], V


def lehmann(H, V, beta, ispin, i, j, z, kw):
    """from the full Fock space matrix of the statement"""
    n = H.shape[-1]
    Hf = full_h(H, V, **kw)
    F = fock(2 * n)
    E, X = np.linalg.eigh(Hf)
    E = E - E.min()
    w = np.exp(-beta * E)
    k, m = i + n * ispin, j + n * ispin
    # <n|c_i|m><m|c+_j|n>
    a = X.T.dot(F.C[k]).dot(X)
    b = X.T.dot(F.Cd[m]).dot(X)
    M = (a * b.T) * (w[:, None] + w[None, :])
    D = E[None, :] - E[:, None]
    return np.array([(M / (zz - D)).sum() for zz in z]) / w.sum()


def space(H, V):
    b = get('edpyt.espace', 'build_espace')
    return b(H, V)


def diag(T, n, seed, spin, ispin, pos, beta, hf=False, mu=0.):
    kw = dict(hf=hf, mu=mu)
    set_params(**kw)
    H, V = system(n, seed, spin)
    es, egs = space(H, V)
    z = np.array([-2.1, -0.6, 0., 0.4, 1.7]) + 1j * np.array([0.3, 0.1, 0.5, 0.2, 0.7])
    want = lehmann(H, V, beta, ispin, pos, pos, z, kw)
    bld = get('edpyt.gf_exact', 'build_gf_exact')
    g = bld(H, V, es, beta, egs, pos=pos, ispin=ispin)
    got = g(z.real, z.imag)
    close(got, want, 'exact Green function, site %d spin %d' % (pos, ispin), 1e-7, 1e-8)
    q = np.asarray(g.q)
    ok((q >= 0).all(), 'negative weight')
    close(q.sum() / g.Z, 1., 'sum of the weights', 1e-7, 1e-8)
    ok((got.imag <= 1e-12).all(), 'positive imaginary part')
    gn = g(z.real, -z.imag)
    close(gn, want.conj(), 'lower half plane', 1e-7, 1e-8)
    if pos == 0 and ispin == 0:
        close(bld(H, V, es, beta, egs)(z.real, z.imag), want, 'default site and spin', 1e-7, 1e-8)
    set_params()


def matrix(T, n, seed, spin, ispin, beta, hf=False, mu=0.):
    kw = dict(hf=hf, mu=mu)
    set_params(**kw)
    H, V = system(n, seed, spin)
    es, egs = space(H, V)
    z = np.array([-2.1, -0.6, 0.4]) + 1j * np.array([0.3, 0.1, 0.7])
    G = get('edpyt.gf2_exact', 'build_gf2_exact')(H, V, es, beta, egs, ispin=ispin)(z.real, z.imag)
    same(G.shape, (n, n, 3), 'shape')
    for i in range(n):
        for j in range(n):
            close(G[i, j], lehmann(H, V, beta, ispin, i, j, z, kw), 'element (%d,%d) spin %d' % (i, j, ispin), 1e-7, 1e-8)
    close(G, G.transpose(1, 0, 2), 'symmetry', 1e-7, 1e-8)
    set_params()


def unchanged(T, n, seed):
    set_params()
    H, V = system(n, seed, True)
    es, egs = space(H, V)
    keep = {k: (s.eigvals.copy(), s.eigvecs.copy()) for k, s in es.items()}
    H0, V0 = H.copy(), V.copy()
    for isp in (0, 1):
        get('edpyt.gf_exact', 'build_gf_exact')(H, V, es, 2., egs, pos=n - 1, ispin=isp)
        get('edpyt.gf2_exact', 'build_gf2_exact')(H, V, es, 2., egs, ispin=isp)
    for k, s in es.items():
        close(s.eigvals, keep[k][0], 'eigenvalues of %r after the call' % (k,), 0, 0)
        close(s.eigvecs, keep[k][1], 'eigenvectors of %r after the call' % (k,), 0, 0)
    close(H, H0, 'H', 0, 0)
    close(V, V0, 'V', 0, 0)


def main(T):
    for n in (1, 2, 3):
        for seed in range(3 if n < 3 else 2):
            for spin in (False, True):
                for ispin in (0, 1):
                    for beta in (0.7, 8.):
                        for pos in range(n):
                            T.run(diag, n=n, seed=seed, spin=spin, ispin=ispin, pos=pos, beta=beta)
                    T.run(matrix, n=n, seed=seed, spin=spin, ispin=ispin, beta=1.1)
    T.run(diag, n=2, seed=0, spin=True, ispin=0, pos=1, beta=3., hf=True, mu=0.2)
    T.run(diag, n=2, seed=0, spin=True, ispin=1, pos=1, beta=3., hf=True, mu=0.2)
    T.run(matrix, n=2, seed=0, spin=True, ispin=1, beta=3., hf=True, mu=0.2)
    T.run(diag, n=2, seed=0, spin=False, ispin=0, pos=0, beta=60.)
    T.run(diag, n=4, seed=1, spin=True, ispin=1, pos=3, beta=1.2)
    T.run(unchanged, n=2, seed=3)
    if T.thorough:
        for seed in range(3, 12):
            for ispin in (0, 1):
                T.run(diag, n=3, seed=seed, spin=True, ispin=ispin, pos=seed % 3, beta=2.)
                T.run(matrix, n=3, seed=seed, spin=True, ispin=ispin, beta=2.)
