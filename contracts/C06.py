from pyvc.vc import *
from pyvc.tape import Tape, TList, list_hook, fold_rows
from pyvc import fock
from pyvc.csr import *

M = 'edpyt.ham_non_local'
TAGS = {'Jx': 'jx', 'Jp': 'jp'}


def fold(p, n, which):
    for nm, tag in TAGS.items():
        if nm in which:
            a = lambda i, j, nm=nm: T.app(nm, i, j)
            p = fold_rows(p, tag + 'ip', tag + 'ix', tag + 'x',
                          lambda r, F: ssum(n, lambda j: significant(r, j, a) * a(r, j) * F(j)),
                          lambda r, F: ssum(n, lambda j: significant(r, j, a) * F(j)))
            if poly_fns(p) & {tag + 'ip', tag + 'ix', tag + 'x'}:
                raise Unsupported('the stored coupling matrix is read in a way its contract does not cover')
    return p


def offd(n, nm, f):
    a = lambda i, j: T.app(nm, i, j)
    return ssum(n, lambda i: ssum(n, lambda j: significant(i, j, a) * f(i, j, a(i, j))))


I_ = fock.I_

for _which in (('Jx',), ('Jp',), ('Jx', 'Jp')):
    @vc('_build_ham_non_local, %s' % ' and '.join(_which), M + ':_build_ham_non_local')
    def _(g, which=_which):
        n, du, dd = T.var('n'), T.var('dup'), T.var('dwn')
        g.pre(T.cmp_le(1, n), T.cmp_le(1, du), T.cmp_le(1, dd))
        fock.install(g.I, 'cdgc', 'binsearch')
        g.I.contracts['count_bits'] = lambda I, f, a, kw: I_('popcount', I.num(a[0]), I.num(a[1]))
        g.I.contracts['binom'] = lambda I, f, a, kw: I_('binom', I.num(a[0]), I.num(a[1]))
        made = taped(g, dd * du, dd * du)
        one_body(g, lambda at: TAGS[at.args[0]])
        J = {k: sym(k, (n, n)) for k in which}
        up, dw = sym('up', (du,), 'U'), sym('dw', (dd,), 'U')
        vec = sym('vec', (du * dd,))
        fn = g.fnc(M, '_build_ham_non_local')
        for pc, kind, o in g.run(lambda: g.I.call(fn, [J.get('Jx'), J.get('Jp'), up, dw, vec])):
            if kind == 'exc':
                g.same('no exception', False, str(o))
                continue
            t = tape_of(g, o)
            iu, iw = T.fresh('iu'), T.fresh('iw')
            box = in_range((iu, iw), (du, dd))
            r = iu + du * iw
            su, sw = T.app('up', iu, sort='I'), T.app('dw', iw, sort='I')
            par = lambda s, i, j: I_('par', s, i, j)
            col = lambda i, j, k, l: I_('pos:dw', I_('hop', sw, k, l)) * du + I_('pos:up', I_('hop', su, i, j))
            want, cnt, diag = T.ZERO, T.ZERO, T.app('vec', r)
            if 'Jx' in which:
                ok = lambda i, j: (1 - bit(su, i)) * bit(sw, i) * bit(su, j) * (1 - bit(sw, j))
                want = want + offd(n, 'Jx', lambda i, j, a: a * ok(i, j) * par(su, i, j) * par(sw, j, i) * W_(col(i, j, j, i)))
                cnt = cnt + offd(n, 'Jx', lambda i, j, a: ok(i, j) * V_(col(i, j, j, i)))
                diag = diag - lift(Fraction(1, 2)) * offd(n, 'Jx', lambda i, j, a: a * (bit(su, i) * bit(su, j) + bit(sw, i) * bit(sw, j)))
            if 'Jp' in which:
                ok = lambda i, j: (1 - bit(su, i)) * (1 - bit(sw, i)) * bit(su, j) * bit(sw, j)
                want = want + offd(n, 'Jp', lambda i, j, a: a * ok(i, j) * par(su, i, j) * par(sw, i, j) * W_(col(i, j, i, j)))
                cnt = cnt + offd(n, 'Jp', lambda i, j, a: ok(i, j) * V_(col(i, j, i, j)))
            g.eq('the row of |up>|dw> holds every spin-flip and pair hop with its coefficient and nothing else', fold(t.rowacc.get(r), n, which), want, box)
            g.eq('each of them once', fold(t.rowcnt.get(r), n, which), cnt, box)
            g.eq('the diagonal gains the parallel-spin exchange', fold(vec.get(r), n, which), diag, box)
            g.eq('every row is closed', t.G['rows'], du * dd)
            fields(g, o, t)
            for k in which:
                g.unchanged('%s is not modified' % k, J[k], k)
            g.unchanged('the up basis is not modified', up, 'up')
            g.unchanged('the down basis is not modified', dw, 'dw')


def string(s, n2, *ops):
    """sign and configuration of a string of c / c+ applied to |s>, rightmost (first in the list) first; 0 when it vanishes"""
    amp = T.ONE
    for full, p in ops:
        b = bit(s, p)
        amp = amp * (b if full else 1 - b) * I_('sgn', s, p, n2)
        s = I_('flip', s, p)
    return amp, s


def occ(s, n2, *ops):
    ok = T.ONE
    for full, p in ops:
        ok = ok * (bit(s, p) if full else 1 - bit(s, p))
        s = I_('flip', s, p)
    return ok


def total_rows(g, fn, which, order):
    n, d = T.var('n'), T.var('d')
    one_body(g, lambda at: TAGS[at.args[0]])
    J = {k: sym(k, (n, n)) for k in which}
    st = sym('st', (d,), 'U')
    vec = sym('vec', (d,))
    t = list_hook(g.I, '_N_build_ham_non_local', d, d, order)
    o = g.call(fn, J.get('Jx'), J.get('Jp'), st, vec)
    return n, d, J, st, vec, t, o


for _which in (('Jx',), ('Jp',), ('Jx', 'Jp')):
    @vc('_N_build_ham_non_local, %s' % ' and '.join(_which), M + ':_N_build_ham_non_local')
    def _(g, which=_which):
        n, d = T.var('n'), T.var('d')
        g.pre(T.cmp_le(1, n), T.cmp_le(1, d))
        fock.install(g.I, 'c', 'cdg', 'binsearch')
        g.I.contracts['count_bits'] = lambda I, f, a, kw: I_('popcount', I.num(a[0]), I.num(a[1]))
        fn = g.fnc(M, '_N_build_ham_non_local')
        n, d, J, st, vec, t, o = total_rows(g, fn, which, 'xc')
        at = lambda k: g.I.getattr(o, k)
        lists = [at(k) for k in ('data', 'indices', 'indptr')]
        if not all(isinstance(x, TList) for x in lists):
            raise Unsupported('the result is not made of the lists that were filled')
        if [x.field for x in lists] != ['x', 'c', 'ptr']:
            raise Unsupported('the lists are created in another order')
        if t.G['p'] is not None:
            raise Unsupported('a record left incomplete')
        r = T.fresh('r')
        box = in_range((r,), (d,))
        s = T.app('st', r, sort='I')
        n2 = 2 * n
        half = lift(Fraction(1, 2))
        want, cnt = T.ZERO, T.ZERO
        strings = dict(Jx=lambda i, j: [((1, j + a * n), (1, i + b * n), (0, j + b * n), (0, i + a * n)) for a in (0, 1) for b in (0, 1)],
                       Jp=lambda i, j: [((1, j + a * n), (1, j + (1 - a) * n), (0, i + (1 - a) * n), (0, i + a * n)) for a in (0, 1)])
        for k in which:
            for m in range(len(strings[k](T.ZERO, T.ZERO))):
                def term(i, j, a, k=k, m=m):
                    amp, f = string(s, n2, *strings[k](i, j)[m])
                    return half * a * amp * W_(I_('pos:st', f))

                def one_(i, j, a, k=k, m=m):
                    amp, f = string(s, n2, *strings[k](i, j)[m])
                    return occ(s, n2, *strings[k](i, j)[m]) * V_(I_('pos:st', f))
                want = want + offd(n, k, term)
                cnt = cnt + offd(n, k, one_)
        g.eq('the row of |s> is the sum of 1/2 J_ij <f|c+ c+ c c|s> over pairs and spins, in the columns of f, and nothing else', fold(t.rowacc.get(r), n, which), want, box)
        g.eq('each string of operators that does not vanish is stored once', fold(t.rowcnt.get(r), n, which), cnt, box)
        g.eq('every row is closed', t.G['rows'], d)
        g.unchanged('the diagonal is not touched', vec, 'vec')
        g.eq('square over the sector (rows)', at('shape')[0], d)
        g.eq('square over the sector (columns)', at('shape')[1], d)
        for k in which:
            g.unchanged('%s is not modified' % k, J[k], k)
        g.unchanged('the basis is not modified', st, 'st')


@vc('build_ham_non_local', M + ':build_ham_non_local')
def _(g):
    """hands the couplings, the basis and the diagonal to the construction of the representation and wraps its result"""
    for rep in ('sz', 'N'):
        n, d, nnz = T.var('n'), T.var('d'), T.var('nnz')
        g.pre(T.cmp_le(1, n), T.cmp_le(1, d), T.cmp_le(0, nnz))
        calls = []

        def stub(which):
            def f(I, fn, a, kw):
                a = fock.args(fn, a, kw)
                calls.append((which, a))
                return I.call(I.get(H, 'cs_type'), [sym('x', (nnz,)), sym('ip', (d + 1,), 'I'), sym('ix', (nnz,), 'I'), (d, d)])
            return f
        g.I.contracts['_build_ham_non_local'] = stub('sz')
        g.I.contracts['_N_build_ham_non_local'] = stub('N')
        Jx, Jp, vec = sym('Jx', (n, n)), sym('Jp', (n, n)), sym('vec', (d,))
        up, dw, st = sym('up', (T.var('du'),), 'U'), sym('dw', (T.var('dd'),), 'U'), sym('st', (d,), 'U')
        states = g.call(g.fnc('edpyt.espace', 'SzStates'), up, dw) if rep == 'sz' else st
        sct = g.call(g.fnc('edpyt.espace', 'Sector'), states, d)
        o = g.call(g.fnc(M, 'build_ham_non_local'), Jx, Jp, sct, vec)
        if not calls:
            raise Unsupported('the construction is not reached through the function under contract')
        want = [Jx, Jp, up, dw, vec] if rep == 'sz' else [Jx, Jp, st, vec]
        g.same('%s: one construction, that of the representation' % rep, [c[0] for c in calls] == [rep])
        g.same('%s: with the couplings, the basis and the diagonal' % rep, all(x is y for x, y in zip(calls[-1][1], want)) and len(calls[-1][1]) == len(want))
        at = lambda k: g.I.getattr(o, k)
        g.same('%s: the class is NonLocal' % rep, o.cls.name == 'NonLocal')
        for k, nm, m in (('data', 'x', nnz), ('indices', 'ix', nnz), ('indptr', 'ip', d + 1)):
            g.array('%s: %s' % (rep, k), at(k), (m,), lambda q, nm=nm: T.app(nm, q, sort='R' if nm == 'x' else 'I'))
        g.eq('%s: rows' % rep, at('shape')[0], d)
        g.eq('%s: columns' % rep, at('shape')[1], d)


@vc('build_mb_ham', 'edpyt.build_mb_ham:build_mb_ham')
def _(g):
    """assembly: diagonal, hoppings (separate spins), interaction; from the right matrices"""
    for form in ('array', 'U', 'U+Jx', 'U+Jp', 'U+Jx+Jp'):
        for rep in ('sz', 'N'):
            for nd in (2, 3):
                n, d = T.var('n'), T.var('d')
                g.pre(T.cmp_le(2, n), T.cmp_le(1, d))
                calls = {}
                part = {k: sym('op' + k, (d,)) for k in ('loc', 'up', 'dw', 'non')}

                def rec(k, ret):
                    def f(I, fn, a, kw):
                        if k in calls:
                            raise Unsupported('built twice')
                        names = [x.arg for x in fn.node.args.args]
                        calls[k] = dict(zip(names, a), **kw)
                        return ret
                    return f
                g.I.contracts['build_ham_local'] = rec('loc', part['loc'])
                g.I.contracts['build_ham_hopping'] = rec('hop', (part['up'], part['dw']))
                g.I.contracts['build_ham_non_local'] = rec('non', part['non'])
                Hm = sym('H', (n, n) if nd == 2 else (2, n, n))
                U, Jx, Jp = sym('V', (n, n)), sym('Jx', (n, n)), sym('Jp', (n, n))
                V = U if form == 'array' else {'U': U, **({'Jx': Jx} if 'Jx' in form else {}), **({'Jp': Jp} if 'Jp' in form else {})}
                states = g.call(g.fnc('edpyt.espace', 'SzStates'), sym('up', (T.var('du'),), 'U'), sym('dw', (T.var('dd'),), 'U')) if rep == 'sz' else sym('st', (d,), 'U')
                sct = g.call(g.fnc('edpyt.espace', 'Sector'), states, d)
                ops = g.call(g.fnc('edpyt.build_mb_ham', 'build_mb_ham'), Hm, V, sct)
                if set(calls) != {'loc'} | ({'hop'} if rep == 'sz' else set()) | ({'non'} if 'J' in form else set()):
                    raise Unsupported('the builders reached are %s' % sorted(calls))
                what = '%s, %s, %d-dimensional H' % (form, rep, nd)
                want = [part['loc']] + ([part['up'], part['dw']] if rep == 'sz' else []) + ([part['non']] if 'J' in form else [])
                g.same(what + ': the operators are the diagonal, the hoppings of separate spins and the interaction when present',
                       len(ops) == len(want) and all(x is y for x, y in zip(ops, want)))
                x = calls['loc']
                hs = [x['H']] + ([calls['hop']['H']] if rep == 'sz' else [])
                for hm in hs:
                    i, j = T.fresh('i'), T.fresh('j')
                    for s in (0, 1):
                        g.eq(what + ': matrix of spin %d' % s, hm.get(s, i, j), T.app('H', i, j) if nd == 2 else T.app('H', s, i, j), in_range((i, j), (n, n)))
                g.same(what + ': the interaction matrix', x['V'] is U)
                g.same(what + ': the sector', all(c['sct'] is sct for c in calls.values()))
                if 'J' in form:
                    c = calls['non']
                    g.same(what + ': the couplings, absent ones as None', c['Jx'] is (Jx if 'Jx' in form else None) and c['Jp'] is (Jp if 'Jp' in form else None))
                    g.same(what + ': the exchange is added to the diagonal operator', c['vec_diag'] is part['loc'])
                g.unchanged(what + ': H is not modified', Hm, 'H')


@vc('a single orbital', 'edpyt.build_mb_ham:build_mb_ham')
def _(g):
    """n = 1 has no off-diagonal element: leaving the hoppings out is exact"""
    d = T.var('d')
    g.pre(T.cmp_le(1, d))
    got = []
    loc = sym('oploc', (d,))
    g.I.contracts['build_ham_local'] = lambda I, f, a, kw: loc
    g.I.contracts['build_ham_hopping'] = lambda I, f, a, kw: got.append(1) or (sym('u', (d,)), sym('w', (d,)))
    st = g.call(g.fnc('edpyt.espace', 'SzStates'), sym('up', (T.var('du'),), 'U'), sym('dw', (T.var('dd'),), 'U'))
    sct = g.call(g.fnc('edpyt.espace', 'Sector'), st, d)
    ops = g.call(g.fnc('edpyt.build_mb_ham', 'build_mb_ham'), sym('H', (1, 1)), sym('V', (1, 1)), sct)
    g.same('the diagonal is among the operators', len(ops) in (1, 3) and ops[0] is loc)
    a = T.app('A', 0, 0)
    g.eq('no significant off-diagonal element', ssum(lift(1), lambda i: ssum(lift(1), lambda j: significant(i, j))), 0)


@vc('the two representations', 'lemma')
def _(g):
    """for every number of orbitals, pair and configuration: the strings of operators over 2n orbitals (contracts of c and c+)
    are the products of one-spin hops (contract of cdgc) that the separate-spin construction stores, or the diagonal it adds"""
    import z3, time
    t = time.time()
    count = 0
    bit_ = lambda w, p: z3.Extract(p, p, w)

    def par(w, a, b):
        r = z3.BitVecVal(0, 1)
        for k in range(a, b):
            r = r ^ bit_(w, k)
        return r

    def apply(s, n2, ops):
        ok, sg = [], z3.BitVecVal(0, 1)
        for full, p in ops:
            ok.append(bit_(s, p) == full)
            sg = sg ^ par(s, p + 1, n2)
            s = s ^ z3.BitVecVal(1 << p, 32)
        return z3.And(*ok), sg, s
    bad = None
    for n in range(2, 17):
        up, dw = z3.BitVec('up', n), z3.BitVec('dw', n)
        s = z3.Concat(z3.BitVecVal(0, 32 - 2 * n), dw, up) if n < 16 else z3.Concat(dw, up)
        claims = []
        join = lambda u, w: z3.Concat(z3.BitVecVal(0, 32 - 2 * n), w, u) if n < 16 else z3.Concat(w, u)
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                flip = lambda w: w ^ z3.BitVecVal((1 << i) | (1 << j), n)
                pu, pd = par(up, min(i, j) + 1, max(i, j)), par(dw, min(i, j) + 1, max(i, j))
                O = lambda *o: [(f, p) for f, p in o]
                S = lambda a, b: apply(s, 2 * n, O((1, j + a * n), (1, i + b * n), (0, j + b * n), (0, i + a * n)))
                P = lambda a: apply(s, 2 * n, O((1, j + a * n), (1, j + (1 - a) * n), (0, i + (1 - a) * n), (0, i + a * n)))
                e, f = (lambda w, k: bit_(w, k) == 0), (lambda w, k: bit_(w, k) == 1)
                for w, a in ((up, 0), (dw, 1)):
                    ok, sg, r = S(a, a)
                    claims += [ok == z3.And(f(w, i), f(w, j)), z3.Implies(ok, z3.And(sg == 1, r == s))]
                ok, sg, r = S(0, 1)
                claims += [ok == z3.And(e(up, i), f(up, j), f(dw, i), e(dw, j)), z3.Implies(ok, z3.And(sg == pu ^ pd, r == join(flip(up), flip(dw))))]
                ok, sg, r = S(1, 0)     # the same pair the other way round: J is symmetric
                claims += [ok == z3.And(e(up, j), f(up, i), f(dw, j), e(dw, i)), z3.Implies(ok, z3.And(sg == pu ^ pd, r == join(flip(up), flip(dw))))]
                for a in (0, 1):
                    ok, sg, r = P(a)
                    claims += [ok == z3.And(e(up, i), e(dw, i), f(up, j), f(dw, j)), z3.Implies(ok, z3.And(sg == pu ^ pd, r == join(flip(up), flip(dw))))]
        for k in range(0, len(claims), 240):
            so = z3.Solver()
            so.set('timeout', 60000)
            so.add(z3.Not(z3.And(*claims[k:k + 240])))
            r = so.check()
            count += len(claims[k:k + 240])
            if r != z3.unsat:
                bad = (n, k, r)
                break
        if bad:
            break
    g.add('exchange: sigma = gamma gives -n_i n_j, sigma != gamma the spin-flip product of hops, once for (i,j) and once for (j,i); pair: both orders give the product of the two hops',
          'discharged' if not bad else 'undecided', 'z3 QF_BV', time.time() - t, '%d conditions, n = 2..16 %s' % (count, bad or ''))
    g.assume('C06 representations: the bijection s = up | dw << n between the sectors of N particles and the sectors (nup, ndw) with nup+ndw = N, and the lemma, give one operator up to a permutation of the basis, so one spectrum')
