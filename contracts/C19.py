from pyvc.vc import *
from pyvc import npmodel as npm
from pyvc.proj import *

C = 'edpyt.cotunneling'
L = 'edpyt.cotnl'
R_ = lambda x: T.var(x, 'R')
nev = lambda *q: T.app('nev', *q, sort='I')

# ------------------------------------------------------------------ amplitudes and energies, total-number variant

for _spin in (0, 1):
    for _full in (False, True):
        @vc('cotnl.project, %s, spin %d' % ('c' if _full else 'c+', _spin), L + ':project')
        def _(g, spin=_spin, full=_full):
            names(g)
            n, p, N = [T.var(x) for x in ('n', 'p', 'N')]
            N2 = N - 1 if full else N + 1
            g.pre(in_range((p,), (n,)), *[T.cmp_le(0, x) for x in (N, N2)], *[T.cmp_le(x, 2 * n) for x in (N, N2)])
            sI, sJ = sector_t(g, N), sector_t(g, N2)
            v = g.call(g.fnc(L, 'project'), spin, p, g.fnc('edpyt.operators', 'c' if full else 'cdg'), n, sI, sJ)
            g.array('matrix elements of the operator at orbital position + spin*n between the eigenvectors', v,
                    (nev(N2), nev(N)), lambda j, i: element_t(full, p + spin * n, 2 * n, N, N2, j, i))


for _add in (True, False):
    _fn = 'excite_electron' if _add else 'excite_hole'

    @vc('cotnl.' + _fn, L + ':' + _fn)
    def _(g, add=_add, fn=_fn):
        n, es = total_space(g)
        projections_t(g, n)
        N = T.var('N')
        s, s2 = T.var('s'), T.var('s2')
        M = N + 1 if add else N - 1
        g.pre(T.cmp_le(1, n), *[T.cmp_le(0, x) for x in (N, M)], *[T.cmp_le(x, 2 * n) for x in (N, M)], in_range((s, s2), (2, 2)))
        nI, nJ = nev(N), nev(M)
        func, cl = g.fnc(L, fn), [g.fnc(L, 'Gf2e'), g.fnc(L, 'Gf2h')]
        made = grids(g.I, L, lambda: Grid(g.I, ((N,), (N,)), (nI, nI), dict(E=(nJ,), dE=(), vF=(nJ, n), vI=(nJ, n)), cl))
        r = g.call(func, [s2, s], n, N, es)
        if len(made) != 1 or r is not made[0].obj:
            raise Unsupported('not the dictionary that was filled')
        G = made[0]
        g.array('an element of its kind for every pair of states', G.cls_of, (nI, nI), lambda f, i: lift(1 if add else 2))
        g.array('amplitude of the way back', G.A['vF'], (nI, nI, nJ, n), lambda f, i, j, p: amp_t(add, s2, p, N, M, f, j))
        g.array('amplitude of the way in', G.A['vI'], (nI, nI, nJ, n), lambda f, i, j, p: amp_t(not add, s, p, M, N, j, i))
        E = lambda q, k: T.app('E', q, k)
        g.array('denominators: E_m - E_f' if add else 'denominators: E_i - E_m', G.A['E'], (nI, nI, nJ),
                (lambda f, i, j: E(M, j) - E(N, f)) if add else (lambda f, i, j: E(N, i) - E(M, j)))
        g.array('energy difference of the final and the initial state', G.A['dE'], (nI, nI), lambda f, i: E(N, f) - E(N, i))


@vc('cotnl.build_transition_elements', L + ':build_transition_elements')
def _(g):
    n, N = T.var('n'), T.var('N')
    g.pre(T.cmp_le(1, n), T.cmp_le(0, N), T.cmp_le(N, 2 * n))
    func = g.fnc(L, 'build_transition_elements')
    es = Obj(Cls('dict'))
    i, f = T.var('i'), T.var('f')
    g.assume('excite_electron and excite_hole file one element under every pair of states (their contracts): one arbitrary pair stands for all')

    def by(add):
        def fn_(I, fn, args, kw):
            sp, m, q, e = fock.args(fn, args, kw)
            if e is not es or not (lift(I.num(m)) - n).is_zero() or not (lift(I.num(q)) - N).is_zero():
                raise Unsupported('excitation of something else')
            if not I.solver.implied(I.pc, T.cmp_lt(N, 2 * n) if add else T.cmp_lt(0, N)):
                if not I.decide(T.cmp_lt(N, 2 * n) if add else T.cmp_lt(0, N)):
                    raise PyExc('KeyError')
            o = Obj(Cls('Gf'))
            o.attrs.update(sp=tuple(int(lift(I.num(x)).cval()) for x in I.seq(sp)), add=add)
            return NDict({((N, f), (N, i)): o})
        return fn_
    g.I.contracts['excite_electron'], g.I.contracts['excite_hole'] = by(True), by(False)

    def sigma(I, spins, gf2e=None, gf2h=None):
        o = Obj(Cls('Sigma'))
        o.attrs.update(spins=tuple(int(lift(I.num(x)).cval()) for x in I.seq(spins)), e=gf2e, h=gf2h)
        return o
    g.I.load(L).ns['Sigma'] = Native(sigma)
    up, dn = T.cmp_lt(N, 2 * n), T.cmp_lt(0, N)
    for pc, kind, val in g.run(lambda: g.I.call(func, [n, es, N])):
        if kind == 'exc':
            raise Unsupported('exception %s' % (val,))
        its = list(val.items())
        if len(its) != 1:
            g.true('an element for every pair of states', bor())
            continue
        k, l = its[0]
        flat = [x for t in k for x in t]
        if len(flat) != 4 or not all((lift(g.I.num(x)) - y).is_zero() for x, y in zip(flat, (N, f, N, i))):
            raise Unsupported('filed under another key')
        seen = []
        for o in g.I.seq(l):
            a = o.attrs
            seen.append(a['spins'])
            for nm, add, cond in (('e', True, up), ('h', False, dn)):
                what = 'electron' if add else 'hole'
                if a[nm] is None:
                    g.true('%s path left out only when there is no such sector' % what, bnot(cond))
                    continue
                if a[nm].attrs['add'] != add:
                    raise Unsupported('paths in another order')
                g.true('%s path included when possible' % what, cond)
                # electron: adds spins[1], removes spins[0];  hole: removes spins[0] first, so the order of the pair is reversed
                g.true('%s path between the same states: spins' % what, T.cmp_eq(0, 0 if a[nm].attrs['sp'] == (a['spins'] if add else a['spins'][::-1]) else 1))
        g.true('every pair of spins once', T.cmp_eq(0, 0 if sorted(seen) == [(0, 0), (0, 1), (1, 0), (1, 1)] else 1))


# ------------------------------------------------------------------ amplitudes and energies, separate spins

class Filled:
    """list that the code fills in a double loop: ghost arrays over (f, i) hold the position and the fields of the element of this pair"""

    def __init__(self, I, cls, dims, heads, fields):
        self.I, self.cls, self.heads, self.fields = I, cls, heads, fields
        self.G = NDict({'len': lift(0)})
        self.A = {k: new(tuple(dims) + tuple(sh), lambda *x: T.ZERO, 'R') for k, sh in fields.items()}
        self.there = new(tuple(dims), lambda *x: T.ZERO, 'I')
        self.pos = new(tuple(dims), lambda *x: T.ZERO, 'I')
        self.obj = Obj(Cls('list'))
        self.obj.attrs['filled'] = self
        self.obj.attrs['append'] = Native(lambda I, v: self.append(v))

    def append(self, v):
        I = self.I
        idx = element_fields(I, v, self.cls, self.heads, self.fields)
        I.setitem(self.there, idx, I.getitem(self.there, idx) + 1)
        I.setitem(self.pos, idx, I.getitem(self.G, 'len'))
        for f in self.fields:
            I.setitem(self.A[f], idx, I.getattr(v, f))
        I.setitem(self.G, 'len', I.getitem(self.G, 'len') + 1)


def element_fields(I, v, cls, heads, fields):
    if not isinstance(v, Obj) or v.cls is not cls:
        raise Unsupported('element of unknown class')
    idx = []
    for nm, h in zip(('idF', 'idI'), heads):
        t = I.getattr(v, nm)
        if not isinstance(t, tuple) or len(t) != 3:
            raise Unsupported('identifier %r' % (t,))
        for x, y in zip(t, h):
            if not I.solver.implied(I.pc, T.cmp_eq(I.num(x), y)):
                raise Unsupported('element with charges %r instead of %r' % (x, y))
        idx.append(t[2])
    for f, sh in fields.items():
        x = I.getattr(v, f)
        if bool(sh) != isinstance(x, Arr) or sh and (len(x.shape) != len(sh) or not all(I.same_dim(p, q) for p, q in zip(x.shape, sh))):
            raise Unsupported('field %s' % f)
    return tuple(idx)


for _add in (True, False):
    for _si in (0, 1):
        for _sj in (0, 1):
            _fn = 'project_add' if _add else 'project_sub'

            @vc('cotunneling.%s, spins %d%d' % (_fn, _si, _sj), C + ':' + _fn)
            def _(g, add=_add, si=_si, sj=_sj, fn=_fn):
                n, K, es, key = space(g)
                projections(g, n)
                a, b = T.var('a'), T.var('b')
                d = 1 if add else -1
                hop = lambda q, s, d: (q[0] + d, q[1]) if s == 0 else (q[0], q[1] + d)
                Iq = (a, b)
                J = hop(Iq, sj, d)
                F = hop(J, si, -d)
                g.I.pc += [T.cmp_le(0, a), T.cmp_le(0, b), T.cmp_le(a, n), T.cmp_le(b, n)]
                room = lambda q, s, add: T.cmp_lt(q[s], n) if add else T.cmp_lt(0, q[s])
                ok = band(room(Iq, sj, add), room(J, si, not add))
                nI, nJ, nF = nev(*Iq), nev(*J), nev(*F)
                func, cl = g.fnc(C, fn), g.fnc(C, 'Gf2')
                fields = dict(vF=(nJ, n), vI=(nJ, n), E=(nJ,), dE=())

                def hook(q, val):
                    if q.split('.')[-1] == fn and isinstance(val, list) and val == []:
                        return Filled(g.I, cl, (nF, nI), (F, Iq), fields).obj
                    return None
                g.I.list_hook = hook
                f, i, j, p, p2 = [T.var(x) for x in ('f', 'i', 'j', 'p', 'p2')]
                rng = in_range((f, i, j, p, p2), (nF, nI, nJ, n, n))
                E = lambda q, k: T.app('E', *q, k)

                for pc, kind, val in g.run(lambda: g.I.call(func, [si, sj, n, a, b, es])):
                    if kind == 'exc':
                        g.same('refuses with OutOfHilbertError', 'OutOfHilbert' in (getattr(getattr(val, 'cls', None), 'name', '') or str(val)), str(val)[:100])
                        g.true('only when there is no such sector', bnot(ok))
                        continue
                    g.true('only when there is such a sector', ok)
                    G = getattr(val, 'attrs', {}).get('filled')
                    if G is not None:
                        g.array('each pair of states once', G.there, (nF, nI), lambda f, i: lift(1))
                        g.shape('in the order of the states', G.pos, (nF, nI))
                        for x, y in ((f, i), (lift(0), i), (f, lift(0)), (lift(0), lift(0))):
                            g.eq('in the order of the states', G.pos.get(x, y), x * nI + y, rng, *[T.cmp_le(1, z) for z in (x, y) if not z.is_const()])
                        g.eq('and nothing else', G.G['len'], nF * nI)
                        at = {k: G.A[k].get(f, i, *x) for k, x in (('E', (j,)), ('dE', ()))}
                        vF, vI = G.A['vF'].get(f, i, j, p), G.A['vI'].get(f, i, j, p2)
                    else:
                        if g.I.symlen(val) is None:
                            raise Unsupported('not a list of symbolic length')
                        g.eq('one element for every pair of states', g.I.symlen(val), nF * nI)
                        g.I.pc.append(rng)
                        o = g.I.at(val, f * nI + i)
                        x, y = element_fields(g.I, o, cl, (F, Iq), fields)
                        g.eq('in the order of the final states', x, f)
                        g.eq('in the order of the initial states', y, i)
                        at = dict(E=g.I.getattr(o, 'E').get(j), dE=g.I.getattr(o, 'dE'))
                        vF, vI = g.I.getattr(o, 'vF').get(j, p), g.I.getattr(o, 'vI').get(j, p2)
                    # operators of spin up pass the particles of spin down
                    sg = (npm.parity(b) if sj == 0 else lift(1)) * (npm.parity(J[1]) if si == 0 else lift(1))
                    g.eq('product of the amplitudes, with fermionic sign', vF * vI,
                         sg * amp(si, add, p, F, J, f, j) * amp(sj, not add, p2, J, Iq, j, i), rng)
                    g.eq('denominator: E_m - E_f' if add else 'denominator: E_i - E_m', at['E'], E(J, j) - E(F, f) if add else E(Iq, i) - E(J, j), rng)
                    g.eq('energy difference of the final and the initial state', at['dE'], E(F, f) - E(Iq, i), rng)


@vc('sign between the paths', C + ':project_sector')
def _(g):
    """the electron path adds s' then removes s, the hole path removes s then adds s'"""
    b = T.var('b')
    g.pre()
    for s in (0, 1):
        for s2 in (0, 1):
            J, H = b + (s2 == 1), b - (s == 1)
            one = lift(1)
            e = (npm.parity(b) if s2 == 0 else one) * (npm.parity(J) if s == 0 else one)
            h = (npm.parity(b) if s == 0 else one) * (npm.parity(H) if s2 == 0 else one)
            g.eq('spins %d, %d: %s' % (s, s2, 'none between operators of the same species' if s == s2 else 'opposite'), h, e if s == s2 else -e)


@vc('cotunneling.project_sector', C + ':project_sector')
def _(g):
    n, a, b = [T.var(x) for x in 'nab']
    g.pre(T.cmp_le(1, n), T.cmp_le(0, a), T.cmp_le(0, b), T.cmp_le(a, n), T.cmp_le(b, n))
    func = g.fnc(C, 'project_sector')
    es = Obj(Cls('dict'))
    exc = g.fnc(C, 'OutOfHilbertError')
    g.assume('project_add and project_sub list one element for every pair of states, in the same order (their contracts): one arbitrary pair stands for all')
    hop = lambda q, s, d: (q[0] + d, q[1]) if s == 0 else (q[0], q[1] + d)

    def possible(add, si, sj, q=(a, b)):
        d = 1 if add else -1
        J = hop(q, sj, d)
        r = lambda q, s, add: T.cmp_lt(q[s], n) if add else T.cmp_lt(0, q[s])
        return band(r(q, sj, add), r(J, si, not add))

    def by(add):
        def f(I, fn, args, kw):
            si, sj, m, u, d, e = fock.args(fn, args, kw)
            if e is not es or not (lift(I.num(m)) - n).is_zero() or not (lift(I.num(u)) - a).is_zero() or not (lift(I.num(d)) - b).is_zero():
                raise Unsupported('projection of something else')
            si, sj = [int(lift(I.num(x)).cval()) for x in (si, sj)]
            if not I.decide(possible(add, si, sj)):
                raise PyExc(exc)
            k = 1 if add else -1
            F = hop(hop((a, b), sj, k), si, -k)
            o = Obj(Cls('Gf'))
            o.attrs.update(idF=F + (T.var('f'),), idI=(a, b, T.var('i')), si=si, sj=sj, add=add)
            return [o]
        return f
    g.I.contracts['project_add'], g.I.contracts['project_sub'] = by(True), by(False)

    def sigma(I, e, h):
        o = Obj(Cls('Sigma'))
        if e is None and h is None:
            raise Unsupported('element without a path')
        x = e if e is not None else h
        o.attrs.update(idF=x.attrs['idF'], idI=x.attrs['idI'], e=e, h=h)
        return o
    g.I.load(C).ns['Sigma'] = Native(sigma)
    SP = [(0, 0), (0, 1), (1, 0), (1, 1)]
    for sel in [None] + [[s] for s in SP] + [SP[::-1]]:
        store = NDict()

        def filed(I, s, k):
            k = tuple(lift(I.num(x)) for t in k for x in t)
            if k not in store:
                I.set(store, k, [])
            return store[k]
        dc = Cls('dict')
        dc.ns['__getitem__'] = Native(filed)
        dc.ns['__getitem__'].method = True
        d = Obj(dc)

        want = SP if sel is None else sel
        for pc, kind, val in g.run(lambda: g.I.call(func, [n, a, b, es, d] + ([] if sel is None else [sel]))):
            if kind == 'exc':
                raise Unsupported('exception %s' % (val,))
            seen, filing, pairing, paths = {}, True, True, []
            for k, o in [(k, o) for k, l in store.items() for o in l]:
                e, h = o.attrs['e'], o.attrs['h']
                if e is not None and not e.attrs['add'] or h is not None and h.attrs['add']:
                    raise Unsupported('paths in another order')
                pair = (e.attrs['si'], e.attrs['sj']) if e is not None else (h.attrs['sj'], h.attrs['si'])
                s, s2 = pair
                F = hop(hop((a, b), s2, 1), s, -1)
                filing &= all((x - y).is_zero() for x, y in zip(k, F + (T.var('f'), a, b, T.var('i'))))
                pairing &= e is None or h is None or (h.attrs['sj'], h.attrs['si']) == pair
                seen[pair] = seen.get(pair, 0) + 1
                for x, c in ((e, possible(True, s, s2)), (h, possible(False, s2, s))):
                    paths.append(c if x is not None else bnot(c))
            for s, s2 in want:
                if (s, s2) not in seen:
                    paths += [bnot(possible(True, s, s2)), bnot(possible(False, s2, s))]
            t = 'default spins: ' if sel is None else 'spins %s: ' % (sel,)
            g.true(t + 'both paths of every pair of spins, each left out only when impossible', band(*paths))
            g.true(t + 'the hole path removes and adds the spins that the electron path removes and adds', T.TRUE if pairing else bnot(T.TRUE))
            g.true(t + 'filed under the final and the initial state, in the dictionary that was given', T.TRUE if filing and val is d else bnot(T.TRUE))
            g.true(t + 'each once, and nothing that was not asked for', T.TRUE if all(c == 1 for c in seen.values()) and set(seen) <= set(want) else bnot(T.TRUE))


# ------------------------------------------------------------------ rates

class Sigmas:
    """elements filed under a pair of states: rate(f, i, s, extract, inject) >= 0 of number s by the contracts of C20"""

    def __init__(self, g, n, beta, mu, A):
        self.cls = Cls('Sigma')
        self.g = g

        def method(name):
            def called(I, A2, e, j, b, m):
                if A2 is not A or not (lift(I.num(b)) - beta).is_zero() or len(list(I.seq(m))) != 2 or \
                        not all((lift(I.num(x)) - y).is_zero() for x, y in zip(I.seq(m), mu)):
                    raise Unsupported('rate for other parameters')
                return name, e, j
            return called
        self.method = method
        for k in ('approximate', 'integrate', 'exact'):
            def bound(I, s, A2, e, j, b, m, k=k):
                _, e, j = method(k)(I, A2, e, j, b, m)
                return T.app('rate:' + k, *s.attrs['at'], lift(I.num(e)), lift(I.num(j)))
            self.cls.ns[k] = Native(bound)
            self.cls.ns[k].method = True
        g.S.facts.append(lambda x: [T.cmp_le(0, Poly.atom(x))] if x.kind == 'App' and str(x.args[0]).startswith('rate:') else [])
        g.assume('the rate of an element is not negative (squared amplitude times a positive weight, C20)')

    def make(self, *at):
        o = Obj(self.cls)
        o.attrs['at'] = tuple(lift(x) for x in at)
        return o


def sz_elements(g, sig):
    Sz, K = T.var('S'), T.var('K')
    g.pre(T.cmp_le(1, Sz), T.cmp_le(1, K))
    cls = Cls('dict')
    o = Obj(cls)
    ids = SList(K, lambda k: (I_('idF', k), I_('idI', k)))

    def get(I, s, k):
        f, i = [lift(I.num(x)) for x in k]
        if not I.decide(T.cmp_eq(I_('has', f, i), 1)):
            raise PyExc('KeyError')
        two = I.decide(T.cmp_eq(I_('two', f, i), 1))
        return [sig.make(f, i, s) for s in range(2 if two else 1)]

    def method(name, f):
        cls.ns[name] = Native(f)
        cls.ns[name].method = True
    method('__getitem__', get)
    method('__len__', lambda I, s: K)
    method('keys', lambda I, s: ids)

    def states(l):
        k = T.fresh('k')
        if g.I.symlen(l) is None or not (lift(g.I.symlen(l)) - K).is_zero() or not (lift(g.I.num(g.I.at(l, k))) - I_('idF', k)).is_zero():
            raise Unsupported('list of states that are not the final states of the elements')
        return SList(Sz, lambda i: lift(i))
    g.I.sorted_hook = states
    g.assume('every state that occurs is the final state of some element (each element comes with its reverse, which the callers produce)')
    g.assume('at most two elements per pair of states (both spins of an elastic process): project_sector')
    return Sz, o


def sz_rate(m, f, i, e, j):
    r = lambda s: T.app('rate:' + m, f, i, lift(s), lift(e), lift(j))
    return T.cmp_eq(I_('has', f, i), 1).poly() * (r(0) + T.cmp_eq(I_('two', f, i), 1).poly() * r(1))


for _m in ('approximate', 'integrate'):
    @vc('cotunneling.build_rate_matrix, ' + _m, C + ':build_rate_matrix')
    def _(g, m=_m):
        n = T.var('n')
        beta, mu, A = R_('beta'), [R_('mu0'), R_('mu1')], sym('A', (2, n))
        Sz, d = sz_elements(g, Sigmas(g, n, beta, mu, A))
        W = g.call(g.fnc(C, 'build_rate_matrix'), d, beta, mu, A, m == 'approximate')
        g.shape('square over the states', W, (Sz, Sz))
        f, i = T.var('f'), T.var('i')
        ij = in_range((f, i), (Sz, Sz))
        want = sum((sz_rate(m, f, i, e, j) for e in range(2) for j in range(2)), lift(0))
        g.eq('off the diagonal: rates of all four lead pairs from the column to the row', W.get(f, i), want, ij, bnot(T.cmp_eq(f, i)))
        g.eq('columns add up to zero', ssum(Sz, lambda f: W.get(f, i)), 0, in_range((i,), (Sz,)))

    @vc('cotunneling.build_transition_matrix, ' + _m, C + ':build_transition_matrix')
    def _(g, m=_m):
        n = T.var('n')
        beta, mu, A = R_('beta'), [R_('mu0'), R_('mu1')], sym('A', (2, n))
        Sz, d = sz_elements(g, Sigmas(g, n, beta, mu, A))
        f, i = T.var('f'), T.var('i')
        ij = in_range((f, i), (Sz, Sz))
        func = g.fnc(C, 'build_transition_matrix')
        for e in range(2):
            for j in range(2):
                W = g.do(lambda: g.I.call(func, [d, beta, mu, A, e, j, m == 'approximate']))
                g.shape('square over the states', W, (Sz, Sz))
                g.eq('extract %d inject %d: extraction minus injection' % (e, j), W.get(f, i), sz_rate(m, f, i, e, j) - sz_rate(m, f, i, j, e), ij)
                if e == j:
                    g.eq('equal leads %d: nothing' % e, W.get(f, i), 0, ij)


class Map:
    """dictionary of numbers with a default of zero, keyed by pairs of states"""

    def __init__(self, I, Sz):
        a = self.arr = new((Sz, Sz), lambda i, j: T.ZERO, 'R')
        c = Cls('defaultdict')
        self.obj = Obj(c)
        self.obj.attrs['map'] = self
        for nm, f in (('__getitem__', lambda I, s, k: I.getitem(a, k)), ('__setitem__', lambda I, s, k, v: I.setitem(a, k, v))):
            c.ns[nm] = Native(f)
            c.ns[nm].method = True


for _m in ('approximate', 'integrate', 'exact'):
    for _k in (1, 4):
        @vc('cotnl.build_rate_and_transition_matrices, %s, %d elements per pair' % (_m, _k), L + ':build_rate_and_transition_matrices')
        def _(g, m=_m, nk=_k):
            n, Sz, K = T.var('n'), T.var('S'), T.var('K')
            g.pre(T.cmp_le(1, n), T.cmp_le(1, Sz), T.cmp_le(1, K))
            beta, mu, A = R_('beta'), [R_('mu0'), R_('mu1')], sym('A', (2, n))
            sig = Sigmas(g, n, beta, mu, A)
            g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_lt(Poly.atom(a), Sz)] if a.kind == 'App' and a.args[0] in ('idF', 'idI') else [])
            cls = Cls('dict')
            d = Obj(cls)
            cls.ns['items'] = Native(lambda I, s: SList(K, lambda k: ((I_('idF', k), I_('idI', k)), [sig.make(k, s) for s in range(nk)])))
            cls.ns['items'].method = True
            func = g.fnc(L, 'build_rate_and_transition_matrices')
            f, i = T.var('f'), T.var('i')
            ij = in_range((f, i), (Sz, Sz))
            at = lambda k: T.cmp_eq(I_('idF', k), f).poly() * T.cmp_eq(I_('idI', k), i).poly()
            r = lambda k, e, j: sum((T.app('rate:' + m, k, lift(s), lift(e), lift(j)) for s in range(nk)), lift(0))
            g.I.contracts['check_transition_elements'] = lambda I, f, a, kw: None
            g.I.contracts['dict_to_matrix'] = lambda I, f, a, kw: ('matrix', a[0])
            for e in range(2):
                for j in range(2):
                    for matrices in (True, False):
                        if not matrices and (e, j) != (0, 1):
                            continue
                        made = []

                        def dd(I, factory=None):
                            if factory is None or not (lift(I.num(I.call(factory, []))) - 0).is_zero():
                                raise Unsupported('another default')
                            made.append(Map(I, Sz))
                            return made[-1].obj
                        g.I.load(L).ns['defaultdict'] = Native(dd)
                        res = g.do(lambda: [x for x in g.I.seq(g.I.call(func, [d, beta, mu, A, e, j], {'integrate_method': m, 'build_matrices': matrices}))])
                        if matrices:
                            if not all(isinstance(x, tuple) and x[0] == 'matrix' for x in res):
                                raise Unsupported('not the assembled matrices')
                            res = [x[1] for x in res]
                        W, Tm = [getattr(x, 'attrs', {}).get('map') for x in res]
                        if W is None or Tm is None:
                            raise Unsupported('not the dictionaries that were filled')
                        t = 'extract %d inject %d%s: ' % (e, j, '' if matrices else ', dictionaries')
                        g.eq(t + 'off the diagonal: all four lead pairs, from the column to the row', W.arr.get(f, i),
                             ssum(K, lambda k: at(k) * sum((r(k, x, y) for x in range(2) for y in range(2)), lift(0))), ij, bnot(T.cmp_eq(f, i)))
                        g.eq(t + 'columns add up to zero', ssum(Sz, lambda f: W.arr.get(f, i)), 0, in_range((i,), (Sz,)))
                        g.eq(t + 'transition matrix: extraction minus injection', Tm.arr.get(f, i), ssum(K, lambda k: at(k) * (r(k, e, j) - r(k, j, e))), ij)
                        if e == j:
                            g.eq(t + 'equal leads: nothing', Tm.arr.get(f, i), 0, ij)


@vc('thermal weight', L + ':G')
def _(g):
    g.pre()
    lean(g, 'Thermal.lean', {'thermal_nonneg': 'the weight x/(e^(beta x) - 1) is not negative',
                             'rate_nonneg': 'so the approximate rate is not negative'})
