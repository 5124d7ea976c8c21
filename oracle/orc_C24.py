import random
import numpy as np
from common import *

MODS = ('edpyt.dedlib', 'edpyt.dedlib_dev')


def g0(p, z):
    return (1 / (z[:, None] - p[None, :])).sum(1) / p.size


class RS:
    """a pole source with given poles"""
    def __init__(self, p):
        self.poles = np.array(p, float)

    def __call__(self):
        pass


def pick(rs, n, gap=0.08):
    while True:
        p = np.sort(rs.uniform(-2, 2, n))
        if n == 1 or np.diff(p).min() > gap:
            return p


def sampler(T, mod, seed, n, lo, hi, ns):
    R = get(mod, 'RandomSampler')
    p = lambda e: 0.2 + np.exp(-(e - 0.3) ** 2) * (e > lo + 0.1 * (hi - lo))
    src = random.Random(seed)
    r = R(p, [lo, hi], n, src, ns)
    E = np.asarray(r.eners)
    m = int((hi - lo) * ns + 1)
    ok(abs(E.size - m) <= 1, 'size of the energy grid %d, expected %d' % (E.size, m))
    close(E, np.linspace(lo, hi, E.size), 'energy grid', 1e-12, 1e-12)
    w = p(np.linspace(lo, hi, E.size))
    close(r.cdf, np.cumsum(w) / w.sum(), 'cumulative distribution', 1e-9, 1e-9)
    ok((np.diff(r.cdf) >= 0).all(), 'cumulative distribution decreases')
    ref = random.Random(seed)
    for _ in range(5):
        r()
        u = [ref.random() for _ in range(n)]
        c = np.cumsum(w) / w.sum()
        want = np.sort([np.linspace(lo, hi, E.size)[min(E.size - 1, int((c < x).sum()))] for x in u])
        close(r.poles, want, 'sampled poles', 1e-9, 1.1 * (hi - lo) / (E.size - 1))
        ok(np.abs(np.asarray(r.poles) - want).max() < 1e-9 or np.abs(c[:, None] - np.array(u)[None, :]).min() < 1e-9, 'sampled poles')
        ok((np.diff(r.poles) >= 0).all() and r.poles[0] >= lo and r.poles[-1] <= hi, 'poles sorted and in range')
    g = get(mod, 'Gf0')(r)
    g.sample()
    z = np.linspace(lo, hi, 7) + .3j
    close(g(z), g0(np.array(r.poles), z), 'function of the sampled poles', 1e-11, 1e-11)
    if (hi - lo) < 0.01:
        d = R(p, [lo, hi])
        same(d.poles.size, 4, 'default number of poles')


def fitted(T, mod, seed, n):
    rs = np.random.RandomState(seed)
    p = pick(rs, n)
    G0 = get(mod, 'Gf0')(RS(p))
    z = rs.uniform(-3, 3, 9) + 1j * rs.uniform(.1, 1, 9)
    close(G0(z), g0(p, z), 'Gf0', 1e-11, 1e-11)
    x = 2.7
    close(G0.derivative(x), -(1 / (x - p) ** 2).mean(), 'derivative of Gf0', 1e-11, 1e-11)
    g = get(mod, 'Gfimp')(n)
    g.fit(G0)
    close(g.e0, p.mean(), 'level', 1e-12, 1e-12)
    ok(((g.ek > p[:-1]) & (g.ek < p[1:])).all(), 'bath energies between the poles')
    ok((g.vk2 > 0).all(), 'positive weights')
    close(g(z), g0(p, z), 'fitted model has the sampled Green function', 1e-6, 1e-7)
    close(g.delta(z), g.vk2[None, :] / (z[:, None] - g.ek[None, :]), 'bath terms', 1e-11, 1e-11)
    close(1 / g(z), z - p.mean() - g.delta(z).sum(1), 'Anderson form', 1e-11, 1e-11)


class Imp:
    def __init__(self, rs, nb):
        self.ek, self.vk2, self.e0 = rs.uniform(-1, 1, nb), rs.uniform(.1, 1, nb), rs.uniform(-1, 1)


def siam(T, mod, seed, n):
    rs = np.random.RandomState(seed)
    g = Imp(rs, n - 1)
    b = get(mod, 'build_siam')
    H, V = np.zeros((n, n)), np.zeros((n, n))
    W = np.zeros((n, n))
    W[0, 0] = g.e0
    W[0, 1:] = W[1:, 0] = -np.sqrt(g.vk2)
    W[range(1, n), range(1, n)] = g.ek
    for _ in range(2):
        if mod.endswith('dev'):
            b(H, g)
        else:
            b(H, V, 1.7, g)
            close(V, np.diag([1.7] + [0.] * (n - 1)), 'interaction', 0, 0)
        close(H, W, 'Anderson Hamiltonian', 0, 1e-14)
        H[0, 0] -= 0.4
    z = rs.uniform(-2, 2, 5) + .3j
    close([np.linalg.inv(q * np.eye(n) - W)[0, 0] for q in z], 1 / (z - g.e0 - (g.vk2 / (z[:, None] - g.ek)).sum(1)), 'geometry', 1e-9, 1e-9)


def moam(T, mod, seed, nimp, nb):
    rs = np.random.RandomState(seed)
    gs = [Imp(rs, nb) for _ in range(nimp)]
    n = nimp * (nb + 1)
    W = np.zeros((n, n))
    for i, g in enumerate(gs):
        W[i, i] = g.e0
        for k in range(nb):
            j = nimp + i * nb + k
            W[j, j] = g.ek[k]
            W[i, j] = W[j, i] = -np.sqrt(g.vk2[k])
    H = np.zeros((n, n))
    for _ in range(2):
        get(mod, 'build_moam')(H, gs)
        close(H, W, 'multi-impurity Hamiltonian', 0, 1e-14)
        H[0, 0] += 1


# ------------------------------------------------------------------ averages
def dos(z):
    return 1 / np.pi * 0.5 / ((z - 0.1) ** 2 + 0.25)


def spectrum(H, V):
    """per-sector spectra of the model, from the statement"""
    n = H.shape[0]
    F = full_h(H, V)
    out = {}
    for nu in range(n + 1):
        for nd in range(n + 1):
            E, X = np.linalg.eigh(sector(F, n, nu, nd))
            out[nu, nd] = (E, X)
    return out


def gsets(sp):
    e = min(v[0][0] for v in sp.values())
    return e, {k for k, v in sp.items() if abs(v[0][0] - e) < 1e-7}


def occ_vec(sp, key, n, pos):
    iu = spin_index(n, *key)
    v = sp[key][1][:, 0]
    return (v ** 2 * np.array([((s >> pos) & 1) + ((s >> (pos + n)) & 1) for s in iu])).sum()


def occ_thermal(sp, n, pos, beta, egs, keep=None):
    N = Z = 0.
    for k, (E, X) in sp.items():
        w = np.exp(-beta * (E - egs))
        if keep:
            w[keep:] = 0
        iu = spin_index(n, *k)
        o = np.array([((s >> pos) & 1) + ((s >> (pos + n)) & 1) for s in iu])
        N += ((X ** 2 * o[:, None]).sum(0) * w).sum()
        Z += w.sum()
    return N / Z


def gf_exact(H, V, beta, z, pos=0):
    from orc_C11 import lehmann
    return lehmann(H, V, beta, 0, pos, pos, z, {})


def gf_kept(sp, n, beta, z, keep):
    """Lehmann sum over the retained (lowest `keep` per sector) states, site 0, spin up"""
    e = min(v[0][0] for v in sp.values())
    out = np.zeros(z.size, complex)
    Z = sum(np.exp(-beta * (E[:keep] - e)).sum() for E, X in sp.values())
    cd = fock(2 * n).Cd[0]
    for (u, d), (E, X) in sp.items():
        if u == n:
            continue
        E2, X2 = sp[u + 1, d]
        M = X2.T.dot(cd[np.ix_(spin_index(n, u + 1, d), spin_index(n, u, d))]).dot(X)[:keep, :keep] ** 2
        E, E2 = E[:keep] - e, E2[:keep] - e
        W = M * (np.exp(-beta * E2)[:, None] + np.exp(-beta * E)[None, :])
        out += (W[None] / (z[:, None, None] - (E2[:, None] - E[None, :]))).sum((1, 2))
    return out / Z


KB = 8.617333262e-5


def entropy(Es, beta, egs):
    E = np.concatenate([v[0] for v in Es.values()]) - egs
    w = np.exp(-beta * E)
    Z = w.sum()
    return np.log(Z) + beta * (E * w).sum() / Z


def bath_spec(ek):
    n = ek.size
    out = {}
    for nu in range(n + 1):
        for nd in range(n + 1):
            E = [sum(ek[i] for i in range(n) if u >> i & 1) + sum(ek[i] for i in range(n) if d >> i & 1)
                 for d in words(n, nd) for u in words(n, nu)]
            out[nu, nd] = (np.sort(E), None)
    return out


def model(p, Z=None):
    """Anderson star of the poles, from the statement: eigen-decomposition of G0"""
    n = p.size
    ek, vk2 = [], []
    for i in range(n - 1):
        lo, hi = p[i], p[i + 1]
        for _ in range(200):
            m = .5 * (lo + hi)
            if (1 / (m - p)).sum() > 0:
                lo = m
            else:
                hi = m
        e = .5 * (lo + hi)
        ek.append(e)
        vk2.append(n / (1 / (e - p) ** 2).sum())
    return np.array(ek), np.array(vk2), p.mean()


def hsiam(p):
    ek, vk2, e0 = model(p)
    n = p.size
    H = np.zeros((n, n))
    H[0, 0] = e0
    H[0, 1:] = H[1:, 0] = -np.sqrt(vk2)
    H[range(1, n), range(1, n)] = ek
    return H, ek


class Stop(Exception):
    pass


class Src:
    """a reproducible stream of well separated poles, and its log"""
    def __init__(self, seed, lo, hi):
        self.rs = np.random.RandomState(seed)
        self.draws = 0

    def random(self):
        self.draws += 1
        if self.draws > 4000:
            raise Stop('too many samples')
        return float(self.rs.uniform(0.02, 0.98))


def patched(mod, ns):
    import importlib
    m = importlib.import_module(mod)
    R = m.RandomSampler

    class Q(R):
        def __init__(self, *a, **k):
            k['nsamples'] = ns
            R.__init__(self, *a[:4], **k)
    log = []

    def call(self):
        R.__call__(self)
        log.append(np.array(self.poles))
    Q.__call__ = call
    return m, R, Q, log


def siam_avg(T, mod, name, seed, n, N, U, beta, sig=None, buf=False):
    """average over accepted samples, recomputed from the recorded poles"""
    set_params()
    m, R, Q, log = patched(mod, 400)
    z = np.linspace(-1.5, 1.5, 5) + 0.25j
    dev = mod.endswith('dev')
    s0 = U / 2 if sig is None else sig
    out = np.full(5, 3. + 1j) if buf else None
    f = get(mod, name)
    m.RandomSampler = Q
    try:
        r = f(dos, z, sigma=out, sigma0=sig, n=n, N=N, U=U, beta=beta, rng=Src(seed, -1.5, 1.5))
    finally:
        m.RandomSampler = R
    if buf:
        same(len(r), 3, 'number of results with a supplied buffer')
        S, (o0, o1, en) = out, r
    else:
        S, o0, o1, en = r
    keep = 3 if dev else None     # ded_solve retains three states per sector
    acc = dict(S=0, o0=0., o1=0., en=0., Q=0.)
    hits = 0
    for p in log:
        if np.diff(p).min() < 1e-6:
            return          # coinciding poles: outside the precondition
        H0, ek = hsiam(p)
        V = np.zeros((n, n))
        sp0 = spectrum(H0, V)
        e0, K0 = gsets(sp0)
        V[0, 0] = U
        H1 = H0.copy()
        H1[0, 0] -= s0
        sp1 = spectrum(H1, V)
        e1, K1 = gsets(sp1)
        if K0 != K1 and K0 & K1:
            return          # degenerate ground states of different sectors: ambiguous
        hit = K0 == K1
        hits += hit
        if not (hit or dev):
            continue
        q = 1.
        if dev:
            a, b = sorted(K0)[0], sorted(K1)[0]
            q = np.exp(-beta * abs(sp1[b][0][0] - sp1[a][0][0]))
            if len(K0) > 1 and abs(sp1[sorted(K0)[0]][0][0] - sp1[sorted(K0)[-1]][0][0]) > 1e-7:
                return
        acc['S'] = acc['S'] + q * (1 / g0(p, z) - 1 / gf_kept(sp1, n, beta, z, keep))
        if dev:
            acc['o0'] += q * occ_thermal(sp0, n, 0, beta, e0, keep)
            acc['o1'] += q * occ_thermal(sp1, n, 0, beta, e1, keep)
        else:
            acc['o0'] += occ_vec(sp0, sorted(K0)[0], n, 0)
            acc['o1'] += occ_vec(sp1, sorted(K1)[0], n, 0)
        bs = bath_spec(ek)
        acc['en'] += q * (entropy({k: (v[0][:keep], 0) for k, v in sp1.items()}, beta, e1) - entropy(bs, beta, min(v[0][0] for v in bs.values())))
        acc['Q'] += q
    same(hits, N, 'accepted samples among the %d drawn' % len(log))
    for k, v in (('S', S), ('o0', o0), ('o1', o1), ('en', en)):
        close(v, acc[k] / acc['Q'], dict(S='self-energy', o0='non-interacting occupation', o1='interacting occupation', en='impurity entropy')[k], 1e-4, 1e-5)


def multi_avg(T, mod, name, seed, nimp, nb, N, U, mat=False, buf=False, beta=1e5):
    set_params()
    m, R, Q, log = patched(mod, 400)
    z = np.linspace(-1.5, 1.5, 4) + 0.3j
    n = nimp * (nb + 1)
    out = np.full((nimp, 4), 3. + 1j) if buf else None
    f = get(mod, name)
    Um = np.diag(np.full(nimp, U)) if mat else U
    m.RandomSampler = Q
    try:
        r = f([dos] * nimp, z, sigma=out, sigma0=U / 2, n=n, N=N, U=Um, beta=beta, rng=Src(seed, -1.5, 1.5))
    finally:
        m.RandomSampler = R
    S, o0, o1 = (out,) + tuple(r[:2]) if buf else tuple(r[:3])
    aS, a0, a1, aq = np.zeros((nimp, 4), complex), np.zeros(nimp), np.zeros(nimp), np.zeros(nimp)
    rounds = 0
    for t in range(0, len(log), nimp):
        ps = log[t:t + nimp]
        if min(np.diff(p).min() for p in ps) < 1e-3:
            T.amb = getattr(T, 'amb', 0) + 1
            return
        H = np.zeros((n, n))
        for i, p in enumerate(ps):
            h, ek = hsiam(p)
            ix = [i] + list(range(nimp + i * nb, nimp + (i + 1) * nb))
            H[np.ix_(ix, ix)] = h
        V = np.zeros((n, n))
        res = []
        H1 = H.copy()
        for i in range(nimp):
            H1[i, i] -= U / 2
        V1 = V.copy()
        for i in range(nimp):
            V1[i, i] = U
        for h, v in ((H, V), (H1, V1)):
            # decoupled subsystems: solve each alone
            tot, imp, amb = [], [], False
            for i in range(nimp):
                ix = [i] + list(range(nimp + i * nb, nimp + (i + 1) * nb))
                sp = spectrum(h[np.ix_(ix, ix)], v[np.ix_(ix, ix)])
                e, K = gsets(sp)
                allE = np.sort(np.concatenate([q[0] for q in sp.values()]))
                gap = allE[allE > allE[0] + 1e-7]
                if len({sum(q) for q in K}) > 1 or (beta > 100 and (gap[0] - allE[0]) * beta < 40):
                    amb = True          # ground states of different particle numbers, or thermally mixed
                k = sorted(K)[0]
                tot.append(sum(k))
                imp.append(occ_vec(sp, k, len(ix), 0))
            if amb:
                T.amb = getattr(T, 'amb', 0) + 1
                return
            res.append((tot, imp))
        hit = [res[0][0][i] == res[1][0][i] for i in range(nimp)]
        rounds += any(hit)
        for i in range(nimp):
            if not hit[i]:
                continue
            ix = [i] + list(range(nimp + i * nb, nimp + (i + 1) * nb))
            aS[i] += 1 / g0(ps[i], z) - 1 / gf_exact(H1[np.ix_(ix, ix)], V1[np.ix_(ix, ix)], beta, z)
            a0[i] += res[0][1][i]
            a1[i] += res[1][1][i]
            aq[i] += 1
    same(rounds, N, 'rounds with an accepted impurity')
    d = np.where(aq > 0, aq, 1)
    T.multi = getattr(T, 'multi', 0) + 1
    close(S, aS / d[:, None], 'self-energies (accepted %s)' % aq, 1e-4, 1e-5)
    close(o0, a0 / d, 'non-interacting occupations (accepted %s)' % aq, 1e-5, 1e-5)
    close(o1, a1 / d, 'interacting occupations', 1e-5, 1e-5)


def entropy_(T, mod, seed, n, beta):
    set_params()
    rs = np.random.RandomState(seed)
    p = pick(rs, n)
    H, ek = hsiam(p)
    V = np.zeros((n, n))
    V[0, 0] = 1.2
    H[0, 0] -= .6
    es, egs = get('edpyt.espace', 'build_espace')(H, V)
    g = Imp(rs, n - 1)
    g.ek = ek
    got = get(mod, 'get_entropy')(g, es, egs, beta)
    sp = spectrum(H, V)
    bs = bath_spec(ek)
    want = entropy(sp, beta, egs) - entropy(bs, beta, min(v[0][0] for v in bs.values()))
    close(got / KB, want, 'impurity entropy', 1e-6, 1e-7)


def main(T):
    main_(T)
    print('multi', getattr(T, 'multi', 0), 'ambiguous', getattr(T, 'amb', 0))


def main_(T):
    for mod in MODS:
        for s, (n, lo, hi, ns) in enumerate(((1, -1., 1., 200), (4, -.5, 1.5, 300), (7, 0., .5, 1000), (3, 0., .005, 1e5))):
            T.run(sampler, mod=mod, seed=s, n=n, lo=lo, hi=hi, ns=ns)
        for n in (1, 2, 3, 5, 8):
            for s in range(2):
                T.run(fitted, mod=mod, seed=s + 10 * n, n=n)
        for n in (1, 2, 4, 6):
            T.run(siam, mod=mod, seed=n, n=n)
        for q, nb in ((1, 1), (1, 3), (2, 1), (2, 3), (3, 2)):
            T.run(moam, mod=mod, seed=q + nb, nimp=q, nb=nb)
        for n, b in ((2, 3.), (3, 1.), (3, 30.)):
            T.run(entropy_, mod=mod, seed=n, n=n, beta=b)
    s = 0
    for mod, name in zip(MODS, ('siam_solve', 'ded_solve')):
        for n, N, U, beta, sig, buf in ((2, 3, 2., 50., None, 0), (2, 2, 1., 4., .2, 1), (3, 2, 3., 30., None, 0),
                                        (2, 4, 3., 2., 1., 0)):
            T.run(siam_avg, mod=mod, name=name, seed=s, n=n, N=N, U=U, beta=beta, sig=sig, buf=buf)
            s += 1
    for mod, name in zip(MODS, ('moam_solve', 'ded_solve_multi')):
        for q, N, U, mat, buf, sd in ((2, 2, 2., 0, 0, 0), (2, 3, 2., 1, 1, 1), (2, 4, 2.5, 1, 0, 2), (1, 2, 1.5, 1, 0, 3), (2, 3, 1.5, 0, 0, 5), (2, 3, 1.5, 0, 0, 6)):
            T.run(multi_avg, mod=mod, name=name, seed=sd, nimp=q, nb=1, N=N, U=U, mat=bool(mat), buf=bool(buf))
        # the development variant truncates the spectrum and accepts on thermal occupations: cold only
        for sd, beta in ((1, 6.), (3, 2.5), (5, 12.)) if mod == MODS[0] else ():
            T.run(multi_avg, mod=mod, name=name, seed=sd, nimp=2, nb=1, N=2, U=1.5, beta=beta)
    if T.thorough:
        for s in range(20, 40):
            for mod in MODS:
                T.run(fitted, mod=mod, seed=s, n=2 + s % 8)
                T.run(sampler, mod=mod, seed=s, n=1 + s % 5, lo=-1., hi=.5, ns=150)
                T.run(multi_avg, mod=mod, name='moam_solve' if mod == MODS[0] else 'ded_solve_multi', seed=s, nimp=2, nb=1, N=3, U=2.)
