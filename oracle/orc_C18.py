import numpy as np
from common import *
from trans import *


def amp(F, n, st, f, i, dag, s):
    op = F.Cd if dag else F.C
    return np.array([st[f][1].dot(op[k + s * n].dot(st[i][1])) for k in range(n)])


def number(f, n, kind):
    return f[0] if kind == 'N' else f[0] + f[1]


def up_to_sign(v, w, what):
    v, w = np.asarray(v), np.asarray(w)
    if v.shape == w.shape and np.abs(v + w).max() < np.abs(v - w).max():
        v = -v
    close(v, w, what, 1e-8, 1e-9)


# temperatures and potentials that put (E-mu)*beta in every decade up to far beyond 100
POINTS = ((2.3, .2), (.05, -1.), (7., 1.5), (15., -.7), (60., .1), (400., 0.))


def szspace(n, seed):
    set_params()
    H, V = sys_ham(n, seed)
    es, egs = get('edpyt.espace', 'build_espace')(H, V)
    return es, egs, states(es, 'sz', n)


def elements(n, seed, whole=False):
    es, egs, st = szspace(n, seed)
    if whole:
        gd = {}
        ps = get('edpyt.sqtunneling', 'project_sector')
        for q in es:
            ps(n, q[0], q[1], es, gd)
        act = set(es)
    else:
        gd = get('edpyt.sqtunneling', 'build_transition_elements')(n, egs, es)
        gs = [q for q, s in es.items() if abs(s.eigvals.min() - egs) < 1e-9]
        act = set(gs)
        for u, d in gs:
            act |= {q for q in ((u + 1, d), (u - 1, d), (u, d + 1), (u, d - 1)) if q in es}
    return es, egs, st, gd, act


def sz_elements(T, n, seed, whole):
    es, egs, st, gd, act = elements(n, seed, whole)
    F = fock(2 * n)
    want = set()
    for f in st:
        for i in st:
            if f[:2] in act and i[:2] in act and abs(f[0] - i[0]) + abs(f[1] - i[1]) == 1:
                want.add((f, i))
    got = {(key(a), key(b)): g for (a, b), g in gd.items()}
    same(len(got), len(gd), 'number of elements')
    same(set(got), want, 'set of transitions')
    rs = np.random.RandomState(seed)
    for (f, i), g in got.items():
        dag = f[0] + f[1] > i[0] + i[1]
        s = 0 if f[0] != i[0] else 1
        up_to_sign(g.v, amp(F, n, st, f, i, dag, s), 'amplitude %r <- %r' % (f, i))
        E = st[f][0] - st[i][0] if dag else st[i][0] - st[f][0]
        close(g.E, E, 'energy %r <- %r' % (f, i))
        a = rs.uniform(-1, 1, n)
        for beta, mu in POINTS:
            w = np.dot(amp(F, n, st, f, i, dag, s), a) ** 2 * (fermi(beta * (E - mu)) if dag else fermi(-beta * (E - mu)))
            close(g(a, beta, mu), w, 'rate %r <- %r at beta=%g mu=%g' % (f, i, beta, mu), 1e-8, 1e-14)


def screened(T, n, seed, cutoff):
    es, egs, st, gd, act = elements(n, seed, True)
    kept = get('edpyt.sqtunneling', 'screen_transition_elements')(gd, egs, es, cutoff)
    want = {}
    for (f, i), g in gd.items():
        x = [abs(g.E)] + [abs(es[tuple(q[:2])].eigvals[q[2]] - egs) for q in (f, i)]
        if min(abs(y - cutoff) for y in x) < 1e-9:
            return
        if max(x) < cutoff:
            want[f, i] = g
    same(sorted(map(str, kept)), sorted(map(str, want)), 'transitions kept')
    ok(all(kept[q] is want[q] for q in want), 'screening changed an element')


def rate_ref(F, n, st, ids, a, beta, mu, kind):
    sz = len(ids)
    W = np.zeros((sz, sz))
    for x, f in enumerate(ids):
        for y, i in enumerate(ids):
            d = number(f, n, kind) - number(i, n, kind)
            if abs(d) != 1:
                continue
            for s in range(2):
                if kind == 'sz' and (f[s] == i[s] or f[1 - s] != i[1 - s]):
                    continue
                v = amp(F, n, st, f, i, d > 0, s).dot(a) ** 2
                E = (st[f][0] - st[i][0]) * d
                W[x, y] += v * fermi(beta * (E - mu) * d)
    return W


def generator(W, what):
    off = W - np.diag(np.diag(W))
    ok((off >= 0).all(), what + ': negative rate')
    close(W.sum(0), np.zeros(len(W)), what + ': column sums', 0, 1e-12 * max(1., np.abs(W).max()))


def sz_rates(T, n, seed, beta, mu, whole):
    es, egs, st, gd, act = elements(n, seed, whole)
    F = fock(2 * n)
    ids = sorted({key(a) for a, _ in gd})
    A = couplings(n, seed)
    W = get('edpyt.sqtunneling', 'build_rate_matrix')(gd, beta, list(mu), A)
    R = [rate_ref(F, n, st, ids, A[l], beta, mu[l], 'sz') for l in range(2)]
    off = R[0] + R[1]
    close(W - np.diag(np.diag(W)), off, 'rates', 1e-8, 1e-12)
    generator(W, 'rate matrix')
    if mu[0] == mu[1]:
        g = np.array([np.exp(-beta * (st[i][0] - mu[0] * (i[0] + i[1]) - egs)) for i in ids])
        x = W * g[None, :]
        close(x, x.T, 'detailed balance', 1e-7, 1e-10 * np.abs(x).max())
    for l in range(2):
        Tm = get('edpyt.sqtunneling', 'build_transition_matrix')(gd, beta, mu[l], A[l])
        sg = np.array([[np.sign(f[0] + f[1] - i[0] - i[1]) for i in ids] for f in ids])
        close(Tm, R[l] * sg, 'current matrix of lead %d' % l, 1e-8, 1e-12)
    stationary(W)


def stationary(W):
    p = get('edpyt.rates', 'stationary_solution')(W.copy())
    close(np.sum(p), 1., 'normalisation', 1e-9, 1e-9)
    close(W.dot(p), np.zeros(len(W)), 'W p', 0, 1e-9 * max(1., np.abs(W).max()))
    ok((np.asarray(p) >= -1e-9).all(), 'negative probability')


def null_vector(T, sz, seed, scale):
    rs = np.random.RandomState(seed)
    W = rs.uniform(0, 1, (sz, sz)) * scale
    if seed % 2:
        W[rs.uniform(size=(sz, sz)) < 0.4] = 0.
        for k in range(sz):
            W[(k + 1) % sz, k] += 0.2 * scale
    np.fill_diagonal(W, 0)
    W -= np.diag(W.sum(0))
    stationary(W)


def n_elements(T, n, seed, N):
    set_params()
    H, V = sys_ham(n, seed)
    es, egs = nspace(H, V)
    st = states(es, 'N', n)
    F = fock(2 * n)
    if N is None:
        gd = get('edpyt.sqtnl', 'build_transition_elements')(n, es, egs=egs)
        N = min(es, key=lambda q: es[q].eigvals.min())[0]
    else:
        gd = get('edpyt.sqtnl', 'build_transition_elements')(n, es, N)
    want = set()
    for f in st:
        for i in st:
            if abs(f[0] - i[0]) == 1 and N in (f[0], i[0]):
                want.add((f, i))
    got = {(key(a), key(b)): g for (a, b), g in gd.items()}
    same(set(got), want, 'set of transitions for N=%d' % N)
    for (f, i), gl in got.items():
        same(sorted(g.spin for g in gl), [0, 1], 'spins of %r <- %r' % (f, i))
        dag = f[0] > i[0]
        for g in gl:
            v = amp(F, n, st, f, i, dag, g.spin)
            close(g.v, v, 'amplitude %r <- %r' % (f, i), 1e-8, 1e-9)
            E = st[f][0] - st[i][0] if dag else st[i][0] - st[f][0]
            close(g.E, E, 'energy %r <- %r' % (f, i))
            a = couplings(n, seed)[0]
            for beta, mu in POINTS:
                w = v.dot(a) ** 2 * (fermi(beta * (E - mu)) if dag else fermi(-beta * (E - mu)))
                close(g(a, beta, mu), w, 'rate %r <- %r at beta=%g mu=%g' % (f, i, beta, mu), 1e-8, 1e-14)


def n_rates(T, n, seed, beta, mu, ext, inj, Ns):
    set_params()
    H, V = sys_ham(n, seed)
    es, egs = nspace(H, V)
    st = states(es, 'N', n)
    F = fock(2 * n)
    gd = {}
    for N in (range(2 * n + 1) if Ns is None else Ns):
        gd.update(get('edpyt.sqtnl', 'build_transition_elements')(n, es, N))
    A = couplings(n, seed)
    ids = sorted({key(a) for a, _ in gd} | {key(a) for _, a in gd})
    W, Tm = get('edpyt.sqtnl', 'build_rate_and_transition_matrices')(gd, beta, list(mu), A, ext, inj)
    # pairs of states present in the dictionary
    have = np.array([[any(((f[:1][0], f[1]), (i[:1][0], i[1])) == (key(a), key(b)) for a, b in gd) for i in ids] for f in ids]) \
        if Ns is not None else True
    R = [rate_ref(F, n, st, ids, A[l], beta, mu[l], 'N') * have for l in range(2)]
    close(W - np.diag(np.diag(W)), R[0] + R[1], 'rates', 1e-8, 1e-12)
    generator(W, 'rate matrix')
    sg = np.array([[-np.sign(f[0] - i[0]) for i in ids] for f in ids])
    close(Tm, R[inj] * sg, 'current matrix', 1e-8, 1e-12)
    if mu[0] == mu[1]:
        g = np.array([np.exp(-beta * (st[i][0] - mu[0] * i[0] - egs)) for i in ids])
        x = W * g[None, :]
        close(x, x.T, 'detailed balance', 1e-7, 1e-10 * np.abs(x).max())
    if Ns is None:
        stationary(W)


def main(T):
    for n in (1, 2):
        for seed in range(3):
            for whole in (False, True):
                T.run(sz_elements, n=n, seed=seed, whole=whole)
                T.run(sz_rates, n=n, seed=seed, beta=3., mu=(0.3, -0.2), whole=whole)
                T.run(sz_rates, n=n, seed=seed, beta=1.2, mu=(0.1, 0.1), whole=whole)
            for N in list(range(2 * n + 1)) + [None]:
                T.run(n_elements, n=n, seed=seed, N=N)
            T.run(n_rates, n=n, seed=seed, beta=3., mu=(0.3, -0.2), ext=1, inj=0, Ns=None)
            T.run(n_rates, n=n, seed=seed, beta=1.3, mu=(0.2, 0.2), ext=0, inj=1, Ns=None)
            T.run(n_rates, n=n, seed=seed, beta=9., mu=(0.2, 0.2), ext=0, inj=1, Ns=None)
            T.run(sz_rates, n=n, seed=seed, beta=11., mu=(0.7, -1.), whole=False)
            T.run(n_rates, n=n, seed=seed, beta=1.3, mu=(0.2, -0.2), ext=0, inj=1, Ns=(n,))
    T.run(sz_elements, n=3, seed=4, whole=False)
    T.run(n_elements, n=3, seed=1, N=3)
    T.run(n_elements, n=3, seed=2, N=1)
    for n in (1, 2):
        for seed in range(3):
            for cutoff in (0.5, 1.1, 2.5):
                T.run(screened, n=n, seed=seed, cutoff=cutoff)
    for sz in (1, 2, 3, 5, 9, 16, 40, 90):
        for seed in range(4):
            for scale in (1., 50., 1e-3):
                T.run(null_vector, sz=sz, seed=seed, scale=scale)
    if T.thorough:
        for seed in range(5, 25):
            T.run(sz_elements, n=2, seed=seed, whole=True)
            T.run(sz_rates, n=2, seed=seed, beta=2., mu=(0.4, -0.1), whole=True)
            T.run(n_rates, n=2, seed=seed, beta=3., mu=(0.3, -0.2), ext=1, inj=0, Ns=None)
        T.run(n_elements, n=3, seed=1, N=3)
