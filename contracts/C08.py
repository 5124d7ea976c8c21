from itertools import combinations
from pyvc.vc import *
from pyvc import npmodel as npm, fock
from pyvc.loops import Invariant

E = 'edpyt.espace'
S = 'edpyt.sector'
A = 'edpyt.eigh_arpack'
I_ = fock.I_


def charges(g, spin, up):
    n, a, b = [T.var(x) for x in 'nab']
    g.pre(T.cmp_le(1, n), *[T.cmp_le(0, x) for x in (a, b)], *[T.cmp_le(x, n) for x in (a, b)])
    q = a if spin == 0 else b
    edge = T.cmp_eq(q, n if up else 0)
    d = 1 if up else -1
    return n, a, b, edge, (a + d, b) if spin == 0 else (a, b + d)


for _spin in (0, 1):
    for _fn in ('get_cdg_sector', 'get_c_sector'):
        @vc('%s, spin %d' % (_fn, _spin), S + ':' + _fn)
        def _(g, spin=_spin, fn=_fn):
            up = fn == 'get_cdg_sector'
            n, a, b, edge, want = charges(g, spin, up)
            f = g.fnc(S, fn)
            k = dict(ok=0, edge=0)
            for pc, kind, r in g.run(lambda: g.I.call(f, ([n] if up else []) + [a, b, spin])):
                if kind == 'exc':
                    k['edge'] += 1
                    g.same('refused with OutOfHilbertError', r.cls.name == 'OutOfHilbertError', r)
                    g.true('refused at the edge only', edge)
                else:
                    k['ok'] += 1
                    g.true('not at the edge', bnot(edge))
                    g.eq('number of up particles', r[0], want[0])
                    g.eq('number of down particles', r[1], want[1])
            g.same('both outcomes are reached', k['ok'] > 0 and k['edge'] > 0, k)


def eigen(g, d, full=True):
    """stand-ins for the diagonalisation of one sector's Hamiltonian, checking what they are applied to"""
    I = g.I
    M = I.load(E)
    Hm, V = sym('H', (T.var('n'), T.var('n'))), T.var('V', 'R')
    o = Obj(Cls('Sector'))
    o.attrs['d'] = d

    def ham(I, f, a, kw):
        if len(a) != 3 or kw or a[0] is not Hm or a[1] is not V or a[2] is not o:
            raise Unsupported('Hamiltonian of another sector')
        return ('hamiltonian', o)

    def token(name):
        def f(I, f, a, kw):
            if kw or tuple(a) != ('hamiltonian', o):
                raise Unsupported('operator of another Hamiltonian')
            t = Obj(Cls(name))
            t.attrs['operator'] = name
            return t
        return f
    I.contracts['build_mb_ham'] = ham
    I.contracts['todense'], I.contracts['matvec_operator'] = token('dense'), token('product')

    def eigh(I, m):
        if getattr(m, 'attrs', {}).get('operator') != 'dense':
            raise Unsupported('eigh of something else')
        return new((d,), lambda j: T.app('w', j), 'R'), new((d, d), lambda r, j: T.app('U', r, j), 'R')

    def eigsh(I, f, a, kw):
        v = I.bind(f, a, kw)
        if getattr(v['matvec'], 'attrs', {}).get('operator') != 'product' or not I.same_dim(v['n'], d) or v['v0'] is not None or v['arpack_param'] is not None:
            raise Unsupported('arguments of eigsh')
        k = lift(v['nev'])
        return new((k,), lambda j: T.app('w', j), 'R'), new((d, k), lambda r, j: T.app('U', r, j), 'R')
    I.load('numpy').ns['linalg'].ns['eigh'] = Native(eigh)
    I.load(A)
    I.contracts['eigsh'] = eigsh
    g.assume('numpy.linalg.eigh returns all eigenpairs, ascending and orthonormal; eigsh (contract below) the k lowest of them')
    return M, Hm, V, o


@vc('solve_sector', E + ':solve_sector')
def _(g):
    d, k = T.var('d'), T.var('k')
    g.pre(T.cmp_le(1, d), T.cmp_le(1, k), T.cmp_le(k, d))
    M, Hm, V, o = eigen(g, d)
    f = g.fnc(E, 'solve_sector')
    g.I.split = 1
    n = 0
    for pc, kind, r in g.run(lambda: g.I.call(f, [Hm, V, o, k])):
        if not g.same('no exception', kind != 'exc', r):
            continue
        n += 1
        g.array('path %d: the k lowest energies' % n, r[0], (k,), lambda j: T.app('w', j))
        g.array('path %d: their vectors' % n, r[1], (d, k), lambda i, j: T.app('U', i, j))
    g.same('the result is reached', n > 0)
    for pc, kind, r in g.run(lambda: g.I.call(f, [Hm, V, o])):
        if g.same('no exception (all states)', kind != 'exc', r):
            g.array('all energies by default', r[0], (d,), lambda j: T.app('w', j))
            g.array('all vectors by default', r[1], (d, d), lambda i, j: T.app('U', i, j))


@vc('eigsh: reverse communication', A + ':eigsh')
def _(g):
    """ARPACK is a machine of which nothing is known but its interface: while ido is 1 or -1, the vector at x = ipntr[0] has to be multiplied
    by the operator and the product stored at y = ipntr[1]; then dseupd extracts the eigenpairs and iparam[4] counts the converged ones."""
    I = g.I
    n, nev, ido = T.var('n'), T.var('nev'), T.var('ido')
    g.pre(T.cmp_le(1, nev), T.cmp_lt(nev, n))
    M = I.load(A)
    tag = lambda f: ssum(n, lambda t: lift(f(t)) * T.app('tag', t))

    def op(I, v):
        if not I.same_shape(v.shape, (n,)):
            raise Unsupported('length of the vector the operator is applied to')
        key = tag(v.snap())
        return new((n,), lambda k: T.app('Op', key, k), 'R')
    par = {}

    def params(I, *a, **k):
        o = Obj(Cls('ArpackParams'))
        d = dict(v=new((n, T.var('ncv')), lambda i, j: T.ZERO, 'R'), workl=new((T.var('lw'),), lambda k: T.ZERO, 'R'), workd=new((3 * n,), lambda k: T.ZERO, 'R'),
                 resid=new((n,), lambda k: T.ZERO, 'R'), info=0, select=new((T.var('ncv'),), lambda k: T.ZERO, 'I'), iparam=new((11,), lambda k: T.ZERO, 'I'),
                 ipntr=new((11,), lambda k: T.ZERO, 'I'))
        o.attrs.update(d)
        par.clear()
        par.update(d)
        return o
    M.ns['ArpackParams'] = Native(params)
    ncv = T.var('ncv')
    g.pre(T.cmp_eq(ncv, npm.minmax(I, npm.minmax(I, 2 * nev + 1, lift(20), True), n, False)))
    x0, y0 = T.app('ipntr', 0, sort='I') - 1, T.app('ipntr', 1, sort='I') - 1
    g.pre(T.cmp_le(0, x0), T.cmp_le(0, y0), T.cmp_le(x0 + n, 3 * n), T.cmp_le(y0 + n, 3 * n))
    iparam0 = {}

    def step(I, *a):
        if len(a) != 12 or a[1] != 'I' or a[2] != 'SA' or not (lift(a[3]) - nev).is_zero():
            raise Unsupported('arguments of dsaupd')
        for x, k in zip(a[5:6] + a[6:11], ('resid', 'v', 'iparam', 'ipntr', 'workd', 'workl')):
            if not isinstance(x, Arr) or x.buf is not par[k].buf:
                raise Unsupported('work arrays of dsaupd')
        I.setbuf(a[9].buf, lambda k: T.app('wd', k))
        I.setbuf(a[8].buf, lambda k: T.app('ipntr', k, sort='I'))
        I.setbuf(a[7].buf, lambda k: T.app('iparam', k, sort='I'))
        return (ido, a[4], a[5], a[6], a[7], a[8], T.var('info'))

    def extract(I, *a):
        if len(a) != 15 or a[0] is not True or a[1] != 'A' or a[4] != 'I' or a[5] != 'SA' or not (lift(a[6]) - nev).is_zero() \
                or a[11].buf is not par['ipntr'].buf or a[8].buf is not par['resid'].buf or a[9].buf is not par['v'].buf or a[13].buf is not par['workl'].buf:
            raise Unsupported('arguments of dseupd')
        return new((nev,), lambda j: T.app('w', j), 'R'), new((n, nev), lambda r, j: T.app('U', r, j), 'R'), T.var('ierr')
    M.ns['arpack_solver'], M.ns['arpack_extract'] = Native(step), Native(extract)
    nconv = T.app('iparam', 4, sort='I')
    g.pre(T.cmp_le(0, nconv), T.cmp_le(nconv, nev))
    k = T.var('k')
    product = lambda j: ite(in_range((j - y0,), (n,)), T.app('Op', tag(lambda t: T.app('wd', t + x0)), j - y0), T.app('wd', j))

    def state(I, fr, c):
        I.setbuf(par['workd'].buf, lambda j: T.app('wdold', j))
        I.setbuf(par['iparam'].buf, lambda j: ite(T.cmp_eq(j, 6), lift(1), T.app('ipold', j, sort='I')))
        fr.vars['ido'] = T.var('ido0')
        return []
    seen = dict(entry=0)

    def check(I, fr, c):
        out = [('ordinary eigenvalue problem', lift(par['iparam'].get(6)) - 1)] if not seen['entry'] else []
        if not seen['entry']:
            seen['entry'] = 1
            return out + [('exact shifts', lift(par['iparam'].get(0)) - 1), ('a positive limit of iterations', T.cmp_lt(0, par['iparam'].get(2))), ('first call', lift(fr.vars['ido']))]
        inn = in_range((k,), (3 * n,)).poly()
        return [('the product of the requested vector is stored where it is asked for, nothing else is touched', inn * (lift(par['workd'].get(k)) - product(k)))]
    I.invariants[('eigsh', 0)] = Invariant(g, 'reverse communication', state, check)
    f = g.fnc(A, 'eigsh')
    I.split = 1
    m = dict(ok=0, exc=0)
    for pc, kind, r in g.run(lambda: I.call(f, [n, nev, Native(op)])):
        if kind == 'exc':
            m['exc'] += 1
            g.same('failures are reported as RuntimeError', r.cls.name == 'RuntimeError', r)
            g.true('only when ARPACK reports one', bor(T.cmp_lt(T.var('info'), 0), bnot(T.cmp_eq(T.var('ierr'), 0))))
            continue
        m['ok'] += 1
        g.true('path %d: the iteration has ended' % m['ok'], bnot(bor(T.cmp_eq(ido, 1), T.cmp_eq(ido, -1))))
        g.array('path %d: the converged energies' % m['ok'], r[0], (nconv,), lambda j: T.app('w', j))
        g.array('path %d: their vectors' % m['ok'], r[1], (n, nconv), lambda i, j: T.app('U', i, j))
    g.same('success and failure are reached', m['ok'] > 0 and m['exc'] > 0, m)
    g.assume('dsaupd/dseupd: which = SA returns the lowest eigenvalues, ascending, with orthonormal vectors, when the requested products are supplied')


for _given in (True, False):
    for _sym in ('sz', 'N'):
        @vc('build_espace, symmetry %s, %s' % (_sym, 'counts given' if _given else 'all states'), E + ':build_espace')
        def _(g, sy=_sym, given=_given):
            I = g.I
            n, K, k = T.var('n'), T.var('K'), T.var('k')
            g.pre(T.cmp_le(1, n), T.cmp_le(1, K), in_range((k,), (K,)))
            M = I.load(E)
            key = (lambda c: (I_('qup', c), I_('qdw', c))) if sy == 'sz' else (lambda c: (I_('qn', c),))
            index = lambda c: key(c)[0] * (n + 1) + key(c)[1] if sy == 'sz' else key(c)[0]
            tot = (n + 1) * (n + 1) if sy == 'sz' else 2 * n + 1
            g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_le(Poly.atom(a), 2 * n if a.args[0] == 'qn' else n)]
                             if a.kind == 'App' and a.args[0] in ('qup', 'qdw', 'qn') else [])
            g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a))] if a.kind == 'App' and a.args[0] in ('size', 'dim') else [])
            Hm, V = sym('H', (n, n)), T.var('V', 'R')
            now = {}

            def make(c):
                o = Obj(Cls('Sector'))
                o.attrs.update(d=I_('dim', c), eigvals=None, eigvecs=None, number=lift(c))
                now['o'] = o
                return key(c), o
            for nm in ('_sz_iter_sectors', '_N_iter_sectors'):
                def it(I, f, a, kw, nm=nm):
                    if nm != ('_sz_iter_sectors' if sy == 'sz' else '_N_iter_sectors') or len(a) != 1 or not (lift(a[0]) - n).is_zero():
                        raise Unsupported('iteration over other sectors')
                    return SList(K, make)
                I.contracts[nm] = it

            def dims(I, f, a, kw):
                v = I.bind(f, a, kw)
                if not (lift(v['n']) - n).is_zero() or v['neig_max'] is not None or v['symmetry'].lower() != sy.lower():
                    raise Unsupported('arguments of get_espace_dim')
                return new((tot,), lambda j: I_('all', j), 'I')
            I.contracts['get_espace_dim'] = dims
            neig = lambda c: I_('neig' if given else 'all', index(c))
            size_ = lambda c: I_('size', c)

            def solve(I, f, a, kw):
                v = I.bind(f, a, kw)
                o = v['sct']
                if v['H'] is not Hm or v['V'] is not V or o is not now['o']:
                    raise Unsupported('arguments of solve_sector')
                c = o.attrs['number']
                if not I.solver.iszero(lift(v['k']) - neig(c), I.pc):
                    raise Unsupported('number of eigenpairs asked for')
                return (new((size_(c),), lambda j: T.app('E', c, j), 'R'), new((I_('dim', c), size_(c)), lambda r, j: T.app('vec', c, r, j), 'R'))
            I.contracts['solve_sector'] = solve
            has = new((K,), lambda c: T.ZERO, 'I')
            cls = Cls('dict')
            es = Obj(cls)

            def put(I, s, kk, o):
                c = o.attrs['number']
                if len(kk) != len(key(c)) or not all((lift(x) - y).is_zero() for x, y in zip(kk, key(c))):
                    raise Unsupported('key of a sector')
                e, u = I.getattr(o, 'eigvals'), I.getattr(o, 'eigvecs')
                j, r = T.fresh('j'), T.fresh('r')
                if not (isinstance(e, Arr) and isinstance(u, Arr) and I.same_shape(e.shape, (size_(c),)) and I.same_shape(u.shape, (I_('dim', c), size_(c)))
                        and (lift(e.get(j)) - T.app('E', c, j)).is_zero() and (lift(u.get(r, j)) - T.app('vec', c, r, j)).is_zero()):
                    raise Unsupported('eigenpairs of a stored sector')
                I.setitem(has, c, lift(1))
            cls.ns['__setitem__'] = Native(put)
            cls.ns['__setitem__'].method = True
            M.ns['dict'] = Native(lambda I: es)
            solved = lambda c: band(bnot(T.cmp_eq(neig(c), 0)), bnot(T.cmp_eq(size_(c), 0)))
            low = lambda c: npm.amin(I, new((size_(c),), lambda j: T.app('E', c, j), 'R'), False)

            def egs(c):
                c = lift(c)
                old = T.app('lowest', c - 1) if not (c - 1).is_zero() else T.app('inf')
                return ite(solved(c - 1), ite(T.cmp_le(low(c - 1), old), low(c - 1), old), old)
            stored = lambda c: band(in_range((k,), (c,)), solved(k)).poly()

            def state(I, fr, c):
                I.setbuf(has.buf, lambda j: ite(band(in_range((j,), (c,)), solved(j)), lift(1), lift(0)))
                fr.vars['egs'] = T.app('lowest', c)
                I.decide(T.cmp_eq(c, k))
                return []

            def check(I, fr, c):
                c = lift(c)
                return [('the solved sectors so far are stored', lift(has.get(k)) - stored(c)),
                        ('lowest energy so far', lift(fr.vars['egs']) - (T.app('inf') if c.is_zero() else egs(c)))]
            I.invariants[('build_espace', 0)] = Invariant(g, 'sectors', state, check)
            f = g.fnc(E, 'build_espace')
            I.split = 1
            m = 0
            args = [Hm, V] + ([new((tot,), lambda j: I_('neig', j), 'I')] if given else [])
            for pc, kind, r in g.run(lambda: I.call(f, args, dict(symmetry=sy))):
                if not g.same('no exception', kind != 'exc', r):
                    continue
                m += 1
                g.same('path %d: the eigen-space that was filled is returned' % m, r[0] is es)
                g.zero('path %d: it holds the solved sectors' % m, lift(has.get(k)) - stored(K))
                g.eq('path %d: the lowest energy over the solved sectors' % m, r[1], egs(K))
            g.same('the result is reached', m > 0)
            g.assume('the minimum of a spectrum is a function of that spectrum; lowest(c + 1) = min(lowest(c), minimum of sector c) from infinity')


for _sym in ('sz', 'N'):
    @vc('get_espace_dim, symmetry %s' % _sym, E + ':get_espace_dim')
    def _(g, sy=_sym):
        n, m, a, b = [T.var(x) for x in 'nmab']
        g.pre(T.cmp_le(1, n), T.cmp_le(1, m))
        I = g.I
        I.load(S)
        I.contracts['get_sector_dim'] = lambda I, f, x, kw: I_('binomial', I.num(x[0]), I.num(x[1])) * I_('binomial', I.num(x[0]), I.num(x[2]))
        I.contracts['binom'] = lambda I, f, x, kw: I_('binomial', I.num(x[0]), I.num(x[1][0] if isinstance(x[1], tuple) and len(x[1]) == 1 else x[1]))
        g.S.facts.append(lambda t: [T.cmp_le(1, Poly.atom(t))] if t.kind == 'App' and t.args[0] == 'binomial' else [])
        f = g.fnc(E, 'get_espace_dim')
        full = g.do(lambda: I.call(f, [n], dict(symmetry=sy)))
        clip = g.do(lambda: I.call(f, [n, m], dict(symmetry=sy)))
        if sy == 'sz':
            I.pc.append(in_range((a, b), (n + 1, n + 1)))
            k, d, tot = a * (n + 1) + b, I_('binomial', n, a) * I_('binomial', n, b), (n + 1) * (n + 1)
        else:
            I.pc.append(in_range((a,), (2 * n + 1,)))
            k, d, tot = a, I_('binomial', 2 * n, a), 2 * n + 1
        for r, want, nm in ((full, d, 'all states'), (clip, ite(T.cmp_le(d, m), d, m), 'clipped at the given number')):
            g.same(nm + ': one count per sector', r.ndim == 1 and I.same_dim(r.shape[0], tot), r.shape)
            g.eq(nm, r.get(k), want)


def sector(g, k, present=True, energies=None):
    d, m = I_('dim', lift(k)), I_('size', lift(k))
    o = Obj(Cls('Sector'))
    o.attrs['d'] = d
    o.attrs['eigvals'] = new((m,), lambda j: T.app('E', lift(k), j), 'R')
    o.attrs['eigvecs'] = new((d, m), lambda r, j: T.app('vec', lift(k), r, j), 'R')
    return o


for _K in (1, 2):
    @vc('screen_espace, %d sectors' % _K, E + ':screen_espace')
    def _(g, K=_K):
        g.bounded.append('screen_espace: %d sectors in the eigen-space, spectra of any size' % K)
        I = g.I
        positive(g, 'dim', 'size')
        beta, egs, cut = T.var('beta', 'R'), T.var('egs', 'R'), T.var('cutoff', 'R')
        f = g.fnc(E, 'screen_espace')
        made = []

        def run():
            es = NDict({(k, 0): sector(g, k) for k in range(K)})
            made.append((es, dict(es)))
            I.call(f, [es, egs, beta, cut])
            return es
        mask = lambda k, t: T.cmp_lt(cut, npm.exp(-beta * (T.app('E', lift(k), t) - egs)))
        n = 0
        I.split = 1
        for pc, kind, es in g.run(run):
            if not g.same('no exception', kind != 'exc', es):
                continue
            n += 1
            for k in range(K):
                m = new((I_('size', lift(k)),), lambda t, k=k: mask(k, t).poly(), 'B')
                sel = npm.selection(I, m)
                cnt = sel.shape[0]
                tag = 'path %d, sector %d: ' % (n, k)
                if (k, 0) not in es:
                    g.zero(tag + 'a dropped sector has no relevant state', ite(T.cmp_lt(0, cnt), lift(1), lift(0)))
                    continue
                g.true(tag + 'a kept sector has a relevant state', T.cmp_lt(0, cnt))
                s = es[(k, 0)]
                g.array(tag + 'the relevant energies', s.attrs['eigvals'], (cnt,), lambda j: T.app('E', lift(k), sel.get(j)))
                g.array(tag + 'their vectors', s.attrs['eigvecs'], (I_('dim', lift(k)), cnt), lambda r, j: T.app('vec', lift(k), r, sel.get(j)))
            g.same('path %d: no other sector' % n, set(es) <= {(k, 0) for k in range(K)}, list(es))
        g.same('every combination of kept and dropped sectors is reached', n == 2 ** K, n)


def _subsets(n):
    keys = [(a, b) for a in range(n + 1) for b in range(n + 1)]
    if n == 1:
        return [c for r in range(len(keys) + 1) for c in combinations(keys, r)]
    return [tuple(keys), (), keys[:1], keys[-1:], keys[1:-1], keys[::2], keys[1::2], keys[4:5], keys[3:6], [k for k in keys if k[0] == k[1]], keys[2:4], keys[5:7]]


for _n in (1, 2):
    @vc('adjust_neigsector, n = %d' % _n, E + ':adjust_neigsector')
    def _(g, n=_n):
        g.bounded.append('adjust_neigsector: %d orbitals, %s; counts and spectra of any size' % (n, 'every set of present sectors' if n == 1 else '12 sets of present sectors'))
        I = g.I
        positive(g, 'dim', 'size')
        I.load(S)
        I.contracts['get_sector_dim'] = lambda I, f, x, kw: I_('sdim', I.num(x[1]), I.num(x[2])) if lift(x[0]) == lift(n) else I.unsupported()
        f = g.fnc(E, 'adjust_neigsector')
        N = (n + 1) ** 2
        for present in _subsets(n):
            neig = new((N,), lambda k: I_('neig', k), 'I')
            es = NDict({k: sector(g, k[0] * (n + 1) + k[1]) for k in present})
            g.do(lambda: I.call(f, [es, neig, n]))
            for a in range(n + 1):
                for b in range(n + 1):
                    k = lift(a * (n + 1) + b)
                    old, sz, dm = I_('neig', k), I_('size', k), I_('sdim', a, b)
                    up = ite(T.cmp_le(dm, old + 1), dm, old + 1)
                    dn = ite(T.cmp_le(old - 1, 1), lift(1), old - 1)
                    want = ite(T.cmp_eq(sz, old), up, ite(T.cmp_lt(sz, old), dn, old)) if (a, b) in present else dn
                    g.eq('present %s: count of sector (%d, %d)' % (''.join('%d%d ' % q for q in present), a, b), neig.get(k), want)
