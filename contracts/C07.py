from pyvc.vc import *

S = 'edpyt._psparse'
M = 'edpyt.matvec_product'


def csr(g, tag, rows, cols):
    """a CSR matrix in canonical storage: any row pointers, column numbers in range, any entries"""
    nnz = T.var(tag + 'nnz')
    ix, ip = tag + 'ix', tag + 'ip'
    g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_lt(Poly.atom(a), cols)] if a.kind == 'App' and a.args[0] == ix else [])
    g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_le(Poly.atom(a), nnz)] if a.kind == 'App' and a.args[0] == ip else [])
    x, i, p = sym(tag + 'x', (nnz,)), sym(ix, (nnz,), 'I'), sym(ip, (rows + 1,), 'I')
    return nnz, x, i, p


def entry(tag, r, c):
    """element (r, c) of that matrix"""
    p = T.fresh('p')
    return T.mk_sum(p, T.app(tag + 'ip', r, sort='I'), T.app(tag + 'ip', r + 1, sort='I'),
                    T.app(tag + 'x', p) * T.cmp_eq(T.app(tag + 'ix', p, sort='I'), c).poly())


def row(tag, r, w):
    """row r of that matrix times the vector w(column)"""
    p = T.fresh('p')
    return T.mk_sum(p, T.app(tag + 'ip', r, sort='I'), T.app(tag + 'ip', r + 1, sort='I'),
                    T.app(tag + 'x', p) * w(T.app(tag + 'ix', p, sort='I')))


def mat(g, tag, rows, cols, fmt='csr'):
    nnz, x, i, p = csr(g, tag, rows, cols)
    o = Obj(Cls('matrix'))
    o.attrs.update(data=x, indices=i, indptr=p, shape=(rows, cols), format=fmt)
    return nnz, o


def kept(g, tag, o, W=None):
    g.unchanged('the stored entries are left unchanged', o.attrs['data'], tag + 'x')
    g.unchanged('the column numbers are left unchanged', o.attrs['indices'], tag + 'ix')
    g.unchanged('the row pointers are left unchanged', o.attrs['indptr'], tag + 'ip')
    if W is not None:
        g.unchanged('the input vector is left unchanged', W, 'W')


def dims(g, *more):
    nu, nd = T.var('nup'), T.var('ndw')
    g.pre(T.cmp_le(1, nu), T.cmp_le(1, nd), *more)
    return nu, nd


Wf = lambda i: T.app('W', i)
Rf = lambda i: T.app('R', i)


for _which in ('UPmultiply', 'DWmultiply', 'Multiply'):
    @vc('compiled ' + _which, S + ':' + _which)
    def _(g, which=_which):
        nu, nd = dims(g)
        D = {'UPmultiply': nu, 'DWmultiply': nd, 'Multiply': nu * nd}[which]
        nnz, X = mat(g, 'm', D, D)
        W, R = sym('W', (nu * nd,)), sym('R', (nu * nd,))
        g.pre(T.cmp_le(1, nu), T.cmp_le(1, nd), T.cmp_le(1, nnz))
        g.call(g.fnc(S, which), X, W, R)
        a, b = T.fresh('iu'), T.fresh('id')
        add = {'UPmultiply': lambda: row('m', a, lambda c: Wf(c + b * nu)),
               'DWmultiply': lambda: row('m', b, lambda c: Wf(a + c * nu)),
               'Multiply': lambda: row('m', a + b * nu, Wf)}[which]()
        g.shape('the buffer keeps its shape', R, (nu * nd,))
        g.eq('the matrix times the vector is added to element iu + id*dup of the result', R.get(a + b * nu), Rf(a + b * nu) + add,
             in_range((a, b), (nu, nd)))
        kept(g, 'm', X, W)

    @vc('compiled %s, column storage' % _which, S + ':' + _which)
    def _(g, which=_which):
        nu, nd = dims(g)
        nnz, X = mat(g, 'm', nu * nd, nu * nd, 'csc')
        W, R = sym('W', (nu * nd,)), sym('R', (nu * nd,))
        f = g.fnc(S, which)
        kinds = [(k, getattr(v, 'name', v)) for pc, k, v in g.run(lambda: g.I.call(f, [X, W, R]))]
        g.same('column storage is refused', bool(kinds) and all(k == 'exc' and 'NotImplementedError' in str(n) for k, n in kinds), str(kinds))
        g.unchanged('the result is not touched', R, 'R')


@vc('entries and rows', 'lemma')
def _(g):
    nu, nd = dims(g)
    csr(g, 'u', nu, nu)
    csr(g, 'd', nd, nd)
    csr(g, 'n', nu * nd, nu * nd)
    a, b = T.fresh('iu'), T.fresh('id')
    two = lambda f: ssum(nd, lambda y: ssum(nu, lambda x: f(x, y)))
    eq = lambda x, y: T.cmp_eq(x, y).poly()
    box = in_range((a, b), (nu, nd))
    g.eq('(I x H_up) W, element by element, is the up row times W', two(lambda x, y: eq(y, b) * entry('u', a, x) * Wf(x + y * nu)),
         row('u', a, lambda c: Wf(c + b * nu)), box)
    g.eq('(H_dw x I) W, element by element, is the down row times W', two(lambda x, y: eq(x, a) * entry('d', b, y) * Wf(x + y * nu)),
         row('d', b, lambda c: Wf(a + c * nu)), box)
    r = a + b * nu
    g.eq('the full matrix times W is its row times W', ssum(nu * nd, lambda c: entry('n', r, c) * Wf(c)), row('n', r, Wf), box)


def terms(g, nu, nd):
    """one operator of each kind, over symbolic storage, built by the real classes"""
    H, N = 'edpyt.ham_hopping', 'edpyt.ham_non_local'
    D = nu * nd
    _, ux, ui, up = csr(g, 'u', nu, nu)
    _, dx, di, dp = csr(g, 'd', nd, nd)
    _, nx, ni, np_ = csr(g, 'n', D, D)
    loc = g.do(lambda: g.I.call(g.I.getattr(sym('v', (D,)), 'view'), [g.fnc('edpyt.ham_local', 'Local')]))
    U = g.call(g.fnc(H, 'UpHopping'), (ux, ui, up), nd, shape=(nu, nu))
    W = g.call(g.fnc(H, 'DwHopping'), (dx, di, dp), nu, shape=(nd, nd))
    X = g.call(g.fnc(N, 'NonLocal'), (nx, ni, np_), shape=(D, D))
    return dict(l=loc, u=U, d=W, n=X)


def setup(g):
    nu, nd = dims(g)
    more = [T.cmp_le(1, T.var(x + 'nnz')) for x in 'udn']
    g.pre(T.cmp_le(1, nu), T.cmp_le(1, nd), *more)
    return nu, nd, terms(g, nu, nd)


def operands_kept(g, o, which):
    if 'l' in which:
        g.unchanged('the diagonal is left unchanged', o['l'], 'v')
    for k in which:
        if k != 'l':
            kept(g, k, o[k])


def acts(which, nu, a, b):
    r = a + b * nu
    t = dict(l=lambda: T.app('v', r) * Wf(r), u=lambda: row('u', a, lambda c: Wf(c + b * nu)),
             d=lambda: row('d', b, lambda c: Wf(a + c * nu)), n=lambda: row('n', r, Wf))
    s = T.ZERO
    for k in which:
        s = s + t[k]()
    return s


def dense(which, nu, a, b, c, d):
    eq = lambda x, y: T.cmp_eq(x, y).poly()
    t = dict(l=lambda: eq(a, c) * eq(b, d) * T.app('v', a + b * nu), u=lambda: eq(b, d) * entry('u', a, c),
             d=lambda: eq(a, c) * entry('d', b, d), n=lambda: entry('n', a + b * nu, c + d * nu))
    s = T.ZERO
    for k in which:
        s = s + t[k]()
    return s


for _which in ('l', 'lu', 'ld', 'ln', 'lud', 'ldu', 'ludn', 'lnud'):
    @vc('matvec of %s' % _which, M + ':matvec_operator')
    def _(g, which=_which):
        nu, nd, o = setup(g)
        W = sym('W', (nu * nd,))
        f = g.call(g.fnc(M, 'matvec_operator'), *[o[k] for k in which])
        a, b = T.fresh('iu'), T.fresh('id')
        box = in_range((a, b), (nu, nd))
        r = g.do(lambda: g.I.call(f, [W]))
        g.shape('the result has the length of the vector', r, (nu * nd,))
        g.eq('element iu + id*dup is the sum of the terms', r.get(a + b * nu), acts(which, nu, a, b), box)
        g.unchanged('the vector is left unchanged', W, 'W')
        out = sym('R', (nu * nd,))
        r = g.do(lambda: g.I.call(f, [W, out]))
        g.eq('a supplied buffer receives the same', out.get(a + b * nu), acts(which, nu, a, b), box)
        g.same('and is what is returned', r is out or isinstance(r, Arr) and r.buf is out.buf and r.fwd is None)
        g.unchanged('the vector is left unchanged again', W, 'W')
        operands_kept(g, o, which)


for _which in ('l', 'u', 'd', 'n', 'lu', 'ul', 'ud', 'lud', 'ludn', 'dn', 'nul', 'ln'):
    @vc('todense of %s' % _which, M + ':todense')
    def _(g, which=_which):
        nu, nd, o = setup(g)
        r = g.call(g.fnc(M, 'todense'), *[o[k] for k in which])
        a, b, c, d = [T.fresh(x) for x in ('a', 'b', 'c', 'd')]
        g.shape('a square matrix over the product basis', r, (nu * nd, nu * nd))
        g.eq('element (a + b*dup, c + d*dup) is diag + I x H_up + H_dw x I + non-local', r.get(a + b * nu, c + d * nu),
             dense(which, nu, a, b, c, d), in_range((a, b, c, d), (nu, nd, nu, nd)))
        operands_kept(g, o, which)
