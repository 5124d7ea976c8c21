from pyvc.vc import *
from pyvc import npmodel as npm
from pyvc.proj import *

S = 'edpyt.sqtunneling'
Q = 'edpyt.sqtnl'
L = 'edpyt.cotnl'
R_ = lambda x: T.var(x, 'R')

for _spin in (0, 1):
    for _full in (False, True):
        @vc('cotnl.project, %s, spin %d' % ('c' if _full else 'c+', _spin), L + ':project')
        def _(g, spin=_spin, full=_full):
            names(g)
            n, p, N = [T.var(x) for x in ('n', 'p', 'N')]
            N2 = N - 1 if full else N + 1
            g.pre(in_range((p,), (n,)), *[T.cmp_le(0, x) for x in (N, N2)], *[T.cmp_le(x, 2 * n) for x in (N, N2)])
            sI, sJ = sector_t(g, N), sector_t(g, N2)
            v = g.call(g.fnc(L, 'project'), spin, p, g.fnc('edpyt.operators', 'c' if full else 'cdg'), n, sI, sJ)
            g.array('matrix elements of the operator at orbital position + spin*n between the eigenvectors', v,
                    (T.app('nev', N2, sort='I'), T.app('nev', N, sort='I')),
                    lambda j, i: element_t(full, p + spin * n, 2 * n, N, N2, j, i))


def gfobj(g, f, what, idF, idI, v, E, n):
    """a Green function object: ids, amplitudes, energy"""
    at = lambda k: g.I.getattr(f, k)
    for nm, got, want in (('final', at('idF'), idF), ('initial', at('idI'), idI)):
        if not isinstance(got, tuple) or len(got) != len(want):
            raise Unsupported('identifier %r' % (got,))
        g.eq('%s: %s state' % (what, nm), sum((lift(g.I.num(x)) - lift(y)) * T.app('t', lift(k)) for k, (x, y) in enumerate(zip(got, want))), 0)
    g.array('%s: amplitudes' % what, at('v'), (n,), v)
    g.eq('%s: energy' % what, at('E'), E)


for _add in (True, False):
    for _spin in (0, 1):
        _fn = 'project_add' if _add else 'project_sub'

        @vc('%s, spin %d' % (_fn, _spin), S + ':' + _fn)
        def _(g, add=_add, spin=_spin, fn=_fn):
            n, K, es, key = space(g)
            projections(g, n)
            a, b = T.var('a'), T.var('b')
            d = 1 if add else -1
            I, J = (a, b), ((a + d, b) if spin == 0 else (a, b + d))
            g.I.pc += [T.cmp_le(0, a), T.cmp_le(0, b), T.cmp_le(a, n), T.cmp_le(b, n)]
            room = T.cmp_lt(I[spin], n) if add else T.cmp_lt(0, I[spin])
            nI, nJ = T.app('nev', *I, sort='I'), T.app('nev', *J, sort='I')
            func, classes = g.fnc(S, fn), g.fnc(S, "Gfe" if add else "Gfh")
            for pc, kind, val in g.run(lambda: g.I.call(func, [spin, n, a, b, es])):
                if kind == 'exc':
                    g.same('refuses with OutOfHilbertError', getattr(val.cls, 'name', val.cls) == 'OutOfHilbertError' if hasattr(val, 'cls') else 'OutOfHilbert' in str(val), str(val)[:100])
                    g.true('only when there is no such sector', bnot(room))
                    continue
                g.true('only when there is such a sector', room)
                l = val
                if g.I.symlen(l) is None:
                    raise Unsupported('not a list of symbolic length')
                g.eq('one element for every pair of states', g.I.symlen(l), nI * nJ)
                i, j = T.fresh('i'), T.fresh('j')
                g.I.pc.append(in_range((i, j), (nI, nJ)))
                f = g.I.at(l, j * nI + i)
                g.same('class', f.cls is classes)
                gfobj(g, f, 'element (j, i)', J + (j,), I + (i,), lambda p: amp(spin, not add, p, J, I, j, i),
                      d * (T.app('E', *J, j) - T.app('E', *I, i)), n)


def fermi(x):
    return T.inv(npm.exp(x) + 1)


for _mod in (S, Q):
    for _cls in ('Gfe', 'Gfh'):
        @vc('%s.%s rate' % (_mod.split('.')[1], _cls), _mod + ':' + _cls)
        def _(g, mod=_mod, cls=_cls):
            n = T.var('n')
            beta, mu, E = R_('beta'), R_('mu'), R_('E')
            g.pre(T.cmp_le(1, n), T.cmp_lt(0, beta))
            v, a = sym('v', (n,)), sym('a', (n,))
            x = beta * (E - mu) * (1 if cls == 'Gfe' else -1)
            if mod == S:
                o = g.call(g.fnc(mod, cls), (0, 0, 0), (0, 0, 1), v, E)
            else:
                o = g.call(g.fnc(mod, cls), 0, v, E)
            A2 = ssum(n, lambda p: T.app('v', p) * T.app('a', p)) ** 2
            what = 'squared amplitude times the %s occupation of the lead' % ('Fermi' if cls == 'Gfe' else 'hole')
            val = g.call(o, a, beta, mu)
            if mod == Q:
                g.assume('1/(e^x + 1) is zero for x > 100')
                g.eq(what, val, A2 * fermi(x), T.cmp_le(x, 100))
                g.zero('zero where the occupation underflows', lift(val), T.cmp_lt(200, x))
            else:
                g.eq(what, val, A2 * fermi(x))


# ------------------------------------------------------------------ rate and transition matrices

def elements(g, n):
    """dictionary of elements between S states: has(f, i), and then the kind, amplitudes and energy of element (f, i)"""
    Sz, K = T.var('S'), T.var('K')
    gfe, gfh = g.fnc(S, 'Gfe'), g.fnc(S, 'Gfh')
    cls = Cls('dict')
    o = Obj(cls)
    ids = SList(K, lambda k: (I_('idF', k), I_('idI', k)))

    def get(I, s, k):
        f, i = [lift(I.num(x)) for x in k]
        if not I.decide(T.cmp_eq(I_('has', f, i), 1)):
            raise PyExc('KeyError')
        c = gfe if I.decide(T.cmp_eq(I_('isE', f, i), 1)) else gfh
        gf = Obj(c)
        gf.attrs.update(idF=f, idI=i, v=new((n,), lambda p: T.app('v', f, i, p), 'R'), E=T.app('E', f, i))
        return gf

    def method(name, f):
        cls.ns[name] = Native(f)
        cls.ns[name].method = True
    method('__getitem__', get)
    method('__len__', lambda I, s: K)
    method('keys', lambda I, s: ids)

    def states(l):
        k = T.fresh('k')
        if g.I.symlen(l) is None or not (lift(g.I.symlen(l)) - K).is_zero() or not (lift(g.I.num(g.I.at(l, k))) - I_('idF', k)).is_zero():
            raise Unsupported('list of states that are not the final states of the elements')
        return SList(Sz, lambda i: lift(i))
    g.I.sorted_hook = states
    g.assume('every state that occurs is the final state of some element (each element comes with its reverse, which the callers produce)')
    return Sz, o


def rate(n, f, i, a, beta, mu):
    """golden-rule rate of element (f, i), zero when there is none"""
    A2 = ssum(n, lambda p: T.app('v', f, i, p) * a(p)) ** 2
    E = T.app('E', f, i)
    e = T.cmp_eq(I_('isE', f, i), 1).poly()
    return T.cmp_eq(I_('has', f, i), 1).poly() * A2 * (e * fermi(beta * (E - mu)) + (1 - e) * fermi(-beta * (E - mu)))


@vc('build_rate_matrix', S + ':build_rate_matrix')
def _(g):
    n = T.var('n')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, T.var('S')), T.cmp_le(1, T.var('K')))
    Sz, d = elements(g, n)
    beta, mu = R_('beta'), [R_('mu0'), R_('mu1')]
    A = sym('A', (2, n))
    W = g.call(g.fnc(S, 'build_rate_matrix'), d, beta, mu, A)
    r = lambda f, i: sum((rate(n, f, i, lambda p, l=l: T.app('A', l, p), beta, mu[l]) for l in range(2)), lift(0))
    g.shape('square over the states', W, (Sz, Sz))
    f, i = T.var('f'), T.var('i')
    ij = in_range((f, i), (Sz, Sz))
    g.eq('off the diagonal: rates of both leads from the column to the row', W.get(f, i), r(f, i), ij, bnot(T.cmp_eq(f, i)))
    g.eq('columns add up to zero', ssum(Sz, lambda f: W.get(f, i)), 0, in_range((i,), (Sz,)))


@vc('build_transition_matrix', S + ':build_transition_matrix')
def _(g):
    n = T.var('n')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, T.var('S')), T.cmp_le(1, T.var('K')))
    Sz, d = elements(g, n)
    beta, mu = R_('beta'), R_('mu')
    a = sym('A', (n,))
    W = g.call(g.fnc(S, 'build_transition_matrix'), d, beta, mu, a)
    g.shape('square over the states', W, (Sz, Sz))
    f, i = T.var('f'), T.var('i')
    ij = in_range((f, i), (Sz, Sz))
    sgn = 2 * T.cmp_eq(I_('isE', f, i), 1).poly() - 1
    g.eq('added electrons positive, removed ones negative', W.get(f, i), sgn * rate(n, f, i, lambda p: T.app('A', p), beta, mu), ij, bnot(T.cmp_eq(f, i)))
    g.eq('zero on the diagonal', W.get(i, i), 0, in_range((i,), (Sz,)))


@vc('detailed balance', S + ':Gfe')
def _(g):
    E, mu, beta, A2 = R_('E'), R_('mu'), R_('beta'), R_('A2')
    g.pre()
    x = beta * (E - mu)
    g.eq('adding over removing with the same amplitude, temperature and chemical potential is exp(-beta (E - mu))',
         A2 * fermi(x), npm.exp(-x) * (A2 * fermi(-x)))


@vc('project_sector', S + ':project_sector')
def _(g):
    n, a, b = [T.var(x) for x in 'nab']
    g.pre(T.cmp_le(1, n), T.cmp_le(0, a), T.cmp_le(0, b), T.cmp_le(a, n), T.cmp_le(b, n))
    func = g.fnc(S, 'project_sector')
    es = Obj(Cls('dict'))
    exc = g.fnc(S, 'OutOfHilbertError')

    def by(add):
        def f(I, fn, args, kw):
            sp, m, u, d, e = fock.args(fn, args, kw)
            if e is not es or not (lift(I.num(m)) - n).is_zero():
                raise Unsupported('projection of something else')
            sp, u, d = int(lift(I.num(sp)).cval()), lift(I.num(u)), lift(I.num(d))
            q = (u, d)[sp]
            if not I.decide(T.cmp_lt(q, n) if add else T.cmp_lt(0, q)):
                raise PyExc(exc)
            k = 1 if add else -1
            o = Obj(Cls('Gf'))
            J = (u + k, d) if sp == 0 else (u, d + k)
            o.attrs.update(idF=J + (T.var('j'),), idI=(u, d, T.var('i')), sp=sp, add=add, at=(u, d))
            return [o]
        return f
    g.I.contracts['project_add'], g.I.contracts['project_sub'] = by(True), by(False)
    cases = [(True, 0), (True, 1), (False, 0), (False, 1)]
    room = lambda add, sp: T.cmp_lt((a, b)[sp], n) if add else T.cmp_lt(0, (a, b)[sp])
    count = 0
    for given in (False, True):
        # all four directions by default, or those asked for
        for sel in [cases] if not given else [[c] for c in cases] + [cases[::-1]]:
            d = NDict()
            dns = None if not given else [((1 if add else -1) if sp == 0 else 0, (1 if add else -1) if sp == 1 else 0) for add, sp in sel]
            for pc, kind, val in g.run(lambda: g.I.call(func, [n, a, b, es, d] + ([dns] if given else []))):
                if kind == 'exc':
                    raise Unsupported('exception %s' % (val,))
                got = []
                for k, o in d.items():
                    if not (isinstance(o, Obj) and 'sp' in o.attrs):
                        raise Unsupported('something else filed')
                    at = o.attrs
                    got.append((at['add'], at['sp']))
                    flat = [x for t in k for x in t]
                    want = list(at['idF']) + list(at['idI'])
                    ok = len(flat) == len(want) and all((lift(g.I.num(x)) - lift(y)).is_zero() for x, y in zip(flat, want)) and \
                        (at['at'][0] - a).is_zero() and (at['at'][1] - b).is_zero()
                    if not ok:
                        raise Unsupported('filed under another key')
                for c in sel:
                    g.true('%s of spin %d %s' % ('adding' if c[0] else 'removing', c[1], 'included, when possible' if c in got else 'left out only when impossible'),
                           room(*c) if c in got else bnot(room(*c)))
                    count += 1
                if set(got) - set(sel):
                    g.true('nothing that was not asked for', T.cmp_lt(1, 0))


def excite(g, fn):
    n, es = total_space(g)
    projections_t(g, n)
    N, spin = T.var('N'), T.var('spin')
    add = fn == 'excite_electron'
    d = 1 if add else -1
    M = N + d
    g.pre(T.cmp_le(1, n), *[T.cmp_le(0, x) for x in (N, M)], *[T.cmp_le(x, 2 * n) for x in (N, M)], in_range((spin,), (2,)))
    nI, nJ = T.app('nev', N, sort='I'), T.app('nev', M, sort='I')
    func, cl = g.fnc(Q, fn), [g.fnc(Q, 'Gfe'), g.fnc(Q, 'Gfh')]
    made = grids(g.I, Q, lambda: Grid(g.I, ((M,), (N,)), (nJ, nI), dict(E=(), v=(n,), spin=()), cl))
    r = g.call(func, spin, n, N, es)
    if len(made) != 1 or r is not made[0].obj:
        raise Unsupported('not the dictionary that was filled')
    G = made[0]
    g.array('an element of its kind for every pair of states', G.cls_of, (nJ, nI), lambda j, i: lift(1 if add else 2))
    g.array('amplitudes', G.A['v'], (nJ, nI, n), lambda j, i, p: amp_t(not add, spin, p, M, N, j, i))
    g.array('energies', G.A['E'], (nJ, nI), lambda j, i: d * (T.app('E', M, j) - T.app('E', N, i)))
    g.array('spins', G.A['spin'], (nJ, nI), lambda j, i: spin)


for _fn in ('excite_electron', 'excite_hole'):
    @vc('sqtnl.' + _fn, Q + ':' + _fn)
    def _(g, fn=_fn):
        excite(g, fn)


def built(g, mod, spins, make):
    """build_transition_elements with excite_electron/excite_hole by their contracts: one arbitrary pair of states stands for all of them"""
    n, N = T.var('n'), T.var('N')
    g.pre(T.cmp_le(1, n), T.cmp_le(0, N), T.cmp_le(N, 2 * n))
    func = g.fnc(mod, 'build_transition_elements')
    es = Obj(Cls('dict'))
    st = {0: T.var('i'), 1: T.var('j'), -1: T.var('m')}
    make(g, n, N, es, st)
    return func, n, N, es, st


@vc('sqtnl.build_transition_elements', Q + ':build_transition_elements')
def _(g):
    def make(g, n, N, es, st):
        def by(add):
            def f(I, fn, args, kw):
                sp, m, q, e = fock.args(fn, args, kw)
                if e is not es or not (lift(I.num(m)) - n).is_zero():
                    raise Unsupported('excitation of something else')
                q, d = lift(I.num(q)), 1 if add else -1
                k = q - N
                if not k.is_const() or k.cval() not in st or k.cval() + d not in st:
                    raise Unsupported('excitation of sector %r' % (q,))
                if not I.decide(band(T.cmp_le(0, q + d), T.cmp_le(q + d, 2 * n))):
                    raise PyExc('KeyError')
                k = k.cval()
                o = Obj(Cls('Gf'))
                o.attrs.update(sp=int(lift(I.num(sp)).cval()), add=add, frm=k)
                return NDict({((q + d, st[k + d]), (q, st[k])): o})
            return f
        g.I.contracts['excite_electron'], g.I.contracts['excite_hole'] = by(True), by(False)
    func, n, N, es, st = built(g, Q, None, make)
    up, dn = T.cmp_lt(N, 2 * n), T.cmp_lt(0, N)
    want = {(True, 0): up, (False, 1): up, (False, 0): dn, (True, -1): dn}
    for pc, kind, val in g.run(lambda: g.I.call(func, [n, es, N])):
        if kind == 'exc':
            raise Unsupported('exception %s' % (val,))
        got = {}
        for k, l in val.items():
            for o in l:
                a = o.attrs
                d = 1 if a['add'] else -1
                flat = [x for t in k for x in t]
                ref = [N + a['frm'] + d, st[a['frm'] + d], N + a['frm'], st[a['frm']]]
                if len(flat) != 4 or not all((lift(g.I.num(x)) - y).is_zero() for x, y in zip(flat, ref)):
                    raise Unsupported('filed under another key')
                got.setdefault((a['add'], a['frm']), []).append(a['sp'])
        for c, cond in want.items():
            what = '%s an electron %s sector N%s' % ('adding' if c[0] else 'removing', 'to' if c[0] else 'from', '%+d' % c[1] if c[1] else '')
            if c in got:
                g.true(what + ': included when possible', cond)
                g.true(what + ': once per spin', T.cmp_eq(0, 0 if sorted(got[c]) == [0, 1] else 1))
            else:
                g.true(what + ': left out only when impossible', bnot(cond))
        g.true('nothing else', T.cmp_eq(0, 0 if set(got) <= set(want) else 1))


class Map:
    """dictionary of numbers with a default of zero, keyed by pairs of states"""

    def __init__(self, I, Sz):
        self.arr = a = new((Sz, Sz), lambda i, j: T.ZERO, 'R')
        c = Cls('defaultdict')
        self.obj = Obj(c)
        self.obj.attrs['map'] = self
        for nm, f in (('__getitem__', lambda I, s, k: I.getitem(a, k)), ('__setitem__', lambda I, s, k, v: I.setitem(a, k, v))):
            c.ns[nm] = Native(f)
            c.ns[nm].method = True


def maps(g, mod, Sz):
    made = []

    def dd(I, factory=None):
        if factory is None or not (lift(I.num(I.call(factory, []))) - 0).is_zero():
            raise Unsupported('another default')
        made.append(Map(I, Sz))
        return made[-1].obj
    g.I.load(mod).ns['defaultdict'] = Native(dd)
    return made


def items(g, Sz, value):
    """dictionary with K entries: number k has key (idF(k), idI(k)) and value value(k)"""
    K = T.var('K')
    g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_lt(Poly.atom(a), Sz)] if a.kind == 'App' and a.args[0] in ('idF', 'idI') else [])
    cls = Cls('dict')
    o = Obj(cls)
    cls.ns['items'] = Native(lambda I, s: SList(K, lambda k: ((I_('idF', k), I_('idI', k)), value(k))))
    cls.ns['items'].method = True
    return K, o


@vc('sqtnl.build_rate_and_transition_matrices', Q + ':build_rate_and_transition_matrices')
def _(g):
    n, Sz = T.var('n'), T.var('S')
    func, gfe, gfh = g.fnc(Q, 'build_rate_and_transition_matrices'), g.fnc(Q, 'Gfe'), g.fnc(Q, 'Gfh')
    M = g.I.load(Q)
    anyc = Cls('Gf')
    for inject in (0, 1):
        for matrices in (True, False):
            g.I.contracts.pop('dict_to_matrix', None)

            def value(k):
                out = []
                for s in range(2):
                    o = Obj(anyc)
                    o.attrs.update(k=k, s=s)
                    out.append(o)
                return out
            K, d = items(g, Sz, value)
            g.pre(T.cmp_le(1, n), T.cmp_le(1, Sz), T.cmp_le(1, K))
            made = maps(g, Q, Sz)
            A = sym('A', (2, n))
            beta, mu = R_('beta'), [R_('mu0'), R_('mu1')]

            def called(I, s, a, b, m):
                # the rate of one element for one lead
                x = a.get(T.fresh('x'))
                lead = [l for l in range(2) if (lift(I.num(m)) - mu[l]).is_zero()]
                p = T.fresh('p')
                if len(lead) != 1 or not (lift(a.get(p)) - T.app('A', lead[0], p)).is_zero() or not (lift(I.num(b)) - beta).is_zero():
                    raise Unsupported('rate with coupling and chemical potential of different leads')
                return T.app('rate', s.attrs['k'], lift(s.attrs['s']), lift(lead[0]))
            anyc.ns['__call__'] = Native(called)
            anyc.ns['__call__'].method = True

            def isinst(I, o, c):
                if not isinstance(o, Obj) or o.cls is not anyc or c not in (gfe, gfh):
                    raise Unsupported('isinstance of something else')
                e = T.cmp_eq(I_('isE', o.attrs['k']), 1)
                return e if c is gfe else bnot(e)
            M.ns['isinstance'] = Native(isinst)
            g.I.contracts['check_transition_elements'] = lambda I, f, a, kw: None
            g.I.contracts['dict_to_matrix'] = lambda I, f, a, kw: ('matrix', a[0])
            r = g.do(lambda: [x for x in g.I.seq(g.I.call(func, [d, beta, mu, A, 1 - inject, inject], {'build_matrices': matrices}))])
            if matrices:
                if not all(isinstance(x, tuple) and x[0] == 'matrix' for x in r):
                    raise Unsupported('not the assembled matrices')
                r = [x[1] for x in r]
            W, Tm = [getattr(x, 'attrs', {}).get('map') for x in r]
            if W is None or Tm is None:
                raise Unsupported('not the dictionaries that were filled')
            f, i = T.var('f'), T.var('i')
            gam = lambda k, leads: sum((T.app('rate', k, lift(s), lift(l)) for s in range(2) for l in leads), lift(0))
            at = lambda k: T.cmp_eq(I_('idF', k), f).poly() * T.cmp_eq(I_('idI', k), i).poly()
            ij = in_range((f, i), (Sz, Sz))
            t = 'lead %d injects%s: ' % (inject, '' if matrices else ', dictionaries')
            g.eq(t + 'off the diagonal: all elements and both leads, from the column to the row', W.arr.get(f, i), ssum(K, lambda k: at(k) * gam(k, (0, 1))),
                 ij, bnot(T.cmp_eq(f, i)))
            g.eq(t + 'columns add up to zero', ssum(Sz, lambda f: W.arr.get(f, i)), 0, in_range((i,), (Sz,)))
            e = lambda k: 2 * T.cmp_eq(I_('isE', k), 1).poly() - 1
            g.eq(t + 'transition matrix: rates of the inject lead, added minus, removed plus', Tm.arr.get(f, i),
                 ssum(K, lambda k: -at(k) * e(k) * gam(k, (inject,))), ij)


@vc('dict_to_matrix', L + ':dict_to_matrix')
def _(g):
    Sz = T.var('S')
    K, d = items(g, Sz, lambda k: T.app('val', k))
    g.pre(T.cmp_le(1, Sz), T.cmp_le(1, K))
    u = Obj(Cls('set'))
    u.attrs['union'] = Native(lambda I, x: SymSet('ids') if x is u else None)

    def ids(I, f, a, kw):
        if a != [d]:
            raise Unsupported('states of something else')
        return u, u
    g.I.contracts['get_unique_ids'] = ids
    g.I.sorted_hook = lambda l: SList(Sz, lambda i: lift(i)) if l == 'ids' else None
    g.assume('the states are numbered by their position in sorted order')
    Mx = g.call(g.fnc(L, 'dict_to_matrix'), d)
    g.array('entry (f, i) is the sum of the values filed under (f, i)', Mx, (Sz, Sz),
            lambda f, i: ssum(K, lambda k: T.cmp_eq(I_('idF', k), f).poly() * T.cmp_eq(I_('idI', k), i).poly() * T.app('val', k)))


@vc('stationary_solution', 'edpyt.rates:stationary_solution')
def _(g):
    m = T.var('S')
    g.pre(T.cmp_le(1, m))
    W = sym('W', (m, m))
    f = g.fnc('edpyt.rates', 'stationary_solution')
    N = g.I.load('numpy')
    J = T.var('J')
    g.I.pc.append(in_range((J,), (m,)))
    i_ = g.I.num(1j)
    g.assume('numpy.linalg.eig returns all eigenvalues and an eigenvector of each; the stationary eigenvector is real and its components do not add up to zero')

    def eig(I, a):
        if a is not W:
            raise Unsupported('eigenvalues of something else')
        return (new((m,), lambda k: T.app('wr', k) + i_ * T.app('wi', k), 'C'),
                new((m, m), lambda r, k: T.app('vr', r, k) + i_ * T.app('vi', r, k), 'C'))
    lam = lambda k: T.app('wr', k) + i_ * T.app('wi', k)

    def argmin(I, a):
        k = T.fresh('k')
        want = npm.absuf(I, new((m,), lambda k: lam(k) - 1, 'C'))
        if not isinstance(a, Arr) or not (lift(a.get(k)) - lift(want.get(k))).is_zero():
            raise Unsupported('smallest element of something else')
        return J
    N.ns['linalg'].ns['eig'] = Native(eig)
    N.ns['argmin'] = Native(argmin)
    p = g.call(f, W)
    # the eigenvalue nearest to one is zero (lemma), so W v = 0 for its eigenvector
    tot = ssum(m, lambda r: T.app('vr', r, J))
    g.array('the real part of the eigenvector of the eigenvalue nearest to one, normalised to one', p, (m,), lambda r: T.app('vr', r, J) * T.inv(tot))
    g.eq('components add up to one', ssum(m, lambda r: p.get(r)), 1, bnot(T.cmp_eq(tot, 0)))
    g.unchanged('the rate matrix is not modified', W, 'W')
    lean(g, 'Generator.lean', {'generator_spectrum': 'for a generator, the eigenvalue nearest to one is zero',
                               'generator_has_zero': 'and zero is an eigenvalue'})
