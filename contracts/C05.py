from pyvc.vc import *
from pyvc.tape import Tape, fold_rows
from pyvc import fock
from pyvc.csr import *

@vc('count_nnz_offdiag', H + ':count_nnz_offdiag')
def _(g):
    n = T.var('n')
    g.pre(T.cmp_le(0, n))
    A = sym('A', (n, n))
    r = g.call(g.fnc(H, 'count_nnz_offdiag'), A)
    g.eq('the number of significant off-diagonal entries', r, ssum(n, lambda i: ssum(n, lambda j: significant(i, j))))
    g.unchanged('the matrix is not modified', A, 'A')


@vc('empty_csrmat', H + ':empty_csrmat')
def _(g):
    nnz, r, c = T.var('nnz'), T.var('r'), T.var('c')
    g.pre(T.cmp_le(0, nnz), T.cmp_le(1, r), T.cmp_le(1, c))
    o = g.call(g.fnc(H, 'empty_csrmat'), nnz, (r, c))
    at = lambda k: g.I.getattr(o, k)
    g.shape('room for nnz values', at('data'), (nnz,))
    g.shape('room for nnz columns', at('indices'), (nnz,))
    g.shape('one row pointer more than rows', at('indptr'), (r + 1,))
    g.eq('the first row pointer is zero', at('indptr').get(0), 0)
    g.same('real values and integer columns', at('data').dtype == 'R' and at('indices').dtype == 'I' and at('indptr').dtype == 'I')
    sh = at('shape')
    g.eq('rows', sh[0], r)
    g.eq('columns', sh[1], c)


for _fn, _mod in (('nnz_offdiag_csrmat', H), ('nnz_csrmat', 'edpyt.ham_non_local')):
    @vc(_fn, '%s:%s' % (_mod, _fn))
    def _(g, fn=_fn, mod=_mod):
        n, nnz = T.var('n'), T.var('nnz')
        g.pre(T.cmp_le(1, n), T.cmp_le(0, nnz))
        A = sym('A', (n, n))
        made = taped(g, n, n)
        o = g.call(g.fnc(mod, fn), A, nnz)
        t = one(g, made)
        sig = significant if fn == 'nnz_offdiag_csrmat' else lambda i, j: T.cmp_lt(TOL, T.app('abs', A_(i, j))).poly()
        r = T.fresh('r')
        box = in_range((r,), (n,))
        g.eq('row r holds the value A[r, j] in column j for every significant entry and nothing else',
             t.rowacc.get(r), ssum(n, lambda j: sig(r, j) * A_(r, j) * W_(j)), box)
        g.eq('each of them once', t.rowcnt.get(r), ssum(n, lambda j: sig(r, j) * V_(j)), box)
        g.eq('every row is closed', t.G['rows'], n)
        g.eq('as many entries as are significant', t.G['g'], ssum(n, lambda i: ssum(n, lambda j: sig(i, j))))
        g.eq('storage of the requested size', t.nnz, nnz)
        g.unchanged('the matrix is not modified', A, 'A')
        fields(g, o, t)


def hops(s, n, a, f):
    """sum over the significant off-diagonal T_ij and configurations with j full and i empty of f(i, j)"""
    return ssum(n, lambda i: ssum(n, lambda j: significant(i, j, a) * (1 - bit(s, i)) * bit(s, j) * f(i, j)))


@vc('add_hoppings', H + ':add_hoppings')
def _(g):
    n, d, ix, cnt = [T.var(x) for x in ('n', 'd', 'ix', 'count')]
    nnz = T.var('room')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, d), in_range((ix,), (d,)), T.cmp_le(0, cnt))
    fock.install(g.I, 'cdgc', 'binsearch')
    st = sym('st', (d,), 'U')
    Tm = stored(g, 't', n, n)
    t = Tape(g.I, d, d, nnz)
    for k, v in (('g', cnt), ('mark', cnt), ('rows', ix)):
        t.setg(k, v)
    sp = g.I.call(g.fnc(H, 'cs_type'), [t.arr('x'), t.arr('ptr'), t.arr('c'), (d, d)])
    r = g.call(g.fnc(H, 'add_hoppings'), ix, st, Tm, cnt, sp)
    s = T.app('st', ix, sort='I')
    par = lambda i, j: T.app('par', s, i, j, sort='I')
    pos = lambda i, j: T.app('pos:st', T.app('hop', s, i, j, sort='I'), sort='I')
    acc, rec = t.rowacc.get(ix), t.rowcnt.get(ix)
    g.eq('the row holds T_ij <f|c+_i c_j|s> in the column of f for every allowed hop and nothing else',
         unfold(acc, 't', n, A_), hops(s, n, A_, lambda i, j: A_(i, j) * par(i, j) * W_(pos(i, j))))
    g.eq('each of them once', unfold(rec, 't', n, A_), hops(s, n, A_, lambda i, j: V_(pos(i, j))))
    g.eq('the cursor advances by the number of records', unfold(t.G['g'] - cnt, 't', n, A_), hops(s, n, A_, lambda i, j: 1))
    g.eq('the new cursor is returned', r, t.G['g'])
    g.eq('exactly this row is closed', t.G['rows'], ix + 1)
    g.unchanged('the basis is not modified', st, 'st')
    for k, nm in (('data', 'tx'), ('indices', 'tix'), ('indptr', 'tip')):
        g.unchanged('the one-body matrix is not modified (%s)' % k, g.I.getattr(Tm, k), nm)


@vc('number of hops', 'lemma')
def _(g):
    lean(g, 'Pairs.lean', {
        'pairs_count': 'of the configurations of p+1 particles on n orbitals, C(n-2, p) have orbital i empty and orbital j full (i != j)',
        'pairs_count_zero': 'and none of those without particles'})


@vc('build_ham_hopping', H + ':build_ham_hopping')
def _(g):
    n, du, dd = T.var('n'), T.var('dup'), T.var('dwn')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, du), T.cmp_le(1, dd))
    fock.install(g.I, 'cdgc', 'binsearch')
    g.I.contracts['count_bits'] = lambda I, f, a, kw: T.app('popcount', I.num(a[0]), I.num(a[1]), sort='I')
    g.I.contracts['binom'] = lambda I, f, a, kw: T.app('binom', I.num(a[0]), I.num(a[1]), sort='I')
    made = taped(g, None, None)
    sp = lambda at: 'hu' if at.args[1].is_const() and at.args[1].is_zero() else 'hd' if at.args[1] == lift(1) else None
    one_body(g, sp)
    Hm = sym('H', (2, n, n))
    up, dw = sym('up', (du,), 'U'), sym('dw', (dd,), 'U')
    mk = g.fnc('edpyt.espace', 'Sector')
    st = g.call(g.fnc('edpyt.espace', 'SzStates'), up, dw)
    sct = g.call(mk, st, du * dd)
    res = g.call(g.fnc(H, 'build_ham_hopping'), Hm, sct)
    if not (isinstance(res, tuple) and len(res) == 2 and len(made) == 2):
        raise Unsupported('two operators expected')
    for k, (o, t, d, other, name, tag, cls, opp) in enumerate(zip(res, made, (du, dd), (dd, du), ('up', 'dw'), ('hu', 'hd'), ('UpHopping', 'DwHopping'), ('dwn', 'dup'))):
        a = lambda i, j, k=k: T.app('H', k, i, j)
        u = lambda p, tag=tag, a=a: unfold(p, tag, n, a)
        r = T.fresh('r')
        s = T.app(name, r, sort='I')
        par = lambda i, j: T.app('par', s, i, j, sort='I')
        pos = lambda i, j: T.app('pos:' + name, T.app('hop', s, i, j, sort='I'), sort='I')
        box = in_range((r,), (d,))
        g.same('%s: the class is %s' % (name, cls), o.cls.name == cls)
        fields(g, o, t)
        g.eq('%s: row of |s> holds <f|sum T_ij c+_i c_j|s> in the column of |f>' % name,
             u(t.rowacc.get(r)), hops(s, n, a, lambda i, j: a(i, j) * par(i, j) * W_(pos(i, j))), box)
        g.eq('%s: each hop is stored once' % name, u(t.rowcnt.get(r)), hops(s, n, a, lambda i, j: V_(pos(i, j))), box)
        g.eq('%s: a row for every configuration' % name, t.G['rows'], d)
        at = lambda k: g.I.getattr(o, k)
        g.eq('%s: the matrix is square over the spin basis (rows)' % name, at('shape')[0], d)
        g.eq('%s: the matrix is square over the spin basis (columns)' % name, at('shape')[1], d)
        g.eq('%s: the other spin species is the spectator' % name, at(opp), other)
        st0 = T.app(name, 0, sort='I')
        np_ = T.app('popcount', st0, n, sort='I')
        g.eq('%s: storage for (significant entries) x C(n-2, N-1) values' % name, t.nnz, T.var(tag + 'nnz') * T.app('binom', n - 2, np_ - 1, sort='I'))
        pairs = lambda i, j: ssum(d, lambda q: (1 - bit(T.app(name, q, sort='I'), i)) * bit(T.app(name, q, sort='I'), j))
        g.eq('%s: the number of values stored is the sum over significant entries of the configurations that allow the hop' % name,
             u(t.G['g']), ssum(n, lambda i: ssum(n, lambda j: significant(i, j, a) * pairs(i, j))))
        g.unchanged('%s: the basis is not modified' % name, (up, dw)[k], name)
    g.unchanged('the Hamiltonian is not modified', Hm, 'H')
    g.assume('C05 storage: the two counting obligations and the theorem pairs_count give that the storage is exactly filled (the basis holds every configuration once: C01)')


@vc('build_ham_hopping, total-number basis', H + ':build_ham_hopping')
def _(g):
    n, d = T.var('n'), T.var('d')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, d))
    sct = g.call(g.fnc('edpyt.espace', 'Sector'), sym('st', (d,), 'U'), d)
    f = g.fnc(H, 'build_ham_hopping')
    kinds = [(k, str(v)) for pc, k, v in g.run(lambda: g.I.call(f, [sym('H', (2, n, n)), sct]))]
    g.same('is refused', bool(kinds) and all(k == 'exc' and 'NotImplementedError' in v for k, v in kinds), str(kinds))


@vc('a hop and its reverse', 'lemma')
def _(g):
    """symmetry: the reverse hop exists, leads back and has the same sign (bit-precise, from the code of cdgc and the checks)"""
    import z3
    from pyvc.bv import U, BVExec
    from pyvc.bvsweep import sweep, Check, POS2
    X = BVExec(g.root, 'numba')
    m = X.mod('edpyt.operators')
    s = z3.BitVec('s', 32)
    S = U(s, 32, False)

    def run(X, i, j):
        a, f = X.call(m['cdgc'], S, i, j)
        b, s2 = X.call(m['cdgc'], f, j, i)
        return a, b, s2, X.call(m['check_empty'], f, j), X.call(m['check_full'], f, i)

    def post(X, k, v, i, j):
        if k != 'ok':
            return [('value', z3.BoolVal(False))]
        a, b, s2, e, fu = v
        hyp = z3.And(z3.Extract(i, i, s) == 0, z3.Extract(j, j, s) == 1)
        return [('same sign', z3.Implies(hyp, X.wide(a) == X.wide(b))), ('leads back', z3.Implies(hyp, X.wide(s2) == z3.ZeroExt(34, s))),
                ('allowed', z3.Implies(hyp, z3.And(X.wide(e) != 0, X.wide(fu) != 0)))]
    sweep(g, 'for i empty and j full the reverse hop is allowed, leads back and has the same sign', X, POS2, Check(run, post))
