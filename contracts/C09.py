"""Distributed operations: every rank runs the same program, so the code is proved for an arbitrary rank r of `size` ranks; the collective
calls hand rank r what the other ranks' copies of the same expression hold (the rank symbol replaced)."""
from pyvc.vc import *

V_ = 'edpyt.vector_transpose'
P = 'edpyt.matvec_product'
O = 'edpyt.observs'
D = 'edpyt.nano_dmft'

R, SZ, MM = T.var('rank', 'I'), T.var('size', 'I'), T.var('m', 'I')


def atom(v):
    (m, _), = v.t.items()
    return m[0][0]


def ranks(g, *more):
    g.pre(T.cmp_le(1, SZ), T.cmp_le(0, R), T.cmp_lt(R, SZ), T.cmp_le(1, MM), *more)


def buf(I, x):
    x = list(I.seq(x))
    if len(x) != 2 or not isinstance(x[0], Arr):
        raise Unsupported('an MPI buffer')
    return x[0], I.num(x[1])


def total(a):
    t = lift(1)
    for d in a.shape:
        t = t * lift(d)
    return t


def flatget(I, a):
    """element q of the array in storage order"""
    from pyvc import npmodel
    return npmodel.flat(I, a).get if a.ndim != 1 else a.get


def mpi(g, tot=None):
    """the communicator: this rank is `rank`; the other ranks hold the same terms with their own number"""
    c = Obj(Cls('comm'))
    I = g.I

    def alltoall(I, s, r):
        (s, cs), (r, cr) = buf(I, s), buf(I, r)
        if not I.solver.iszero(cs - cr, I.pc) or not I.solver.iszero(cs * SZ - total(s), I.pc) or not I.solver.iszero(total(r) - total(s), I.pc):
            raise Unsupported('Alltoall: counts that do not cover the buffers')
        get, rk = flatget(I, s), atom(R)
        x0 = [lift(1)]
        for d in reversed(r.shape[1:]):
            x0.insert(0, x0[0] * lift(d))

        def fn(*idx):
            q = lift(0)
            for i, w in zip(idx, x0):
                q = q + lift(i) * w
            # element k of the block from rank p is element k of the block that p sent to this rank
            p, k = I.ctx(T.floordiv(q, cr)), I.ctx(T.mod(q, cr))
            o = T.fresh('p')
            I.pc.extend(hyp(o))
            try:
                x = I.ctx(T.subst(lift(get(DEST * cr + k)), {rk: o}))
            finally:
                del I.pc[-2:]
            return T.subst(x, {atom(DEST): R, atom(o): p})
        I.store_all(r, fn)
    def own(f, o):
        """the term f() as rank o holds it"""
        n = len(I.pc)
        t = T.fresh('o')
        I.pc.extend(hyp(t))
        try:
            x = I.ctx(T.subst(lift(f()), {atom(R): t}))
        finally:
            del I.pc[n:]
        return T.subst(x, {atom(t): lift(o)})

    def allreduce(I, s, r, op=None):
        (s, cs), (r, cr) = buf(I, s), buf(I, r)
        same = lambda x, y: I.solver.iszero(lift(x) - lift(y), I.pc)
        if op is not c.sum or not same(cs, cr) or not same(cs, total(s)) or not same(cr, total(r)) or s.ndim != r.ndim \
                or not all(I.same_dim(x, y) for x, y in zip(s.shape, r.shape)) or s.dtype != r.dtype:
            raise Unsupported('Allreduce')
        f = s.snap()
        I.store_all(r, lambda *i: ssum(SZ, lambda o: own(lambda: f(*i), o)))

    def allgather(I, s, r):
        (s, cs), (r, cr) = buf(I, s), buf(I, r)
        same = lambda x, y: I.solver.iszero(lift(x) - lift(y), I.pc)
        if not same(cs, cr) or not same(cs, total(s)) or not same(total(r), cs * SZ) or s.dtype != r.dtype or r.ndim != 1:
            raise Unsupported('Allgather')
        f = flatget(I, s)
        I.store_all(r, lambda q: own(lambda: f(I.ctx(T.mod(q, cs))), I.ctx(T.floordiv(q, cs))))
    c.sum = T.var('SUMop')
    c.attrs.update(Allreduce=Native(allreduce), Allgather=Native(allgather))
    c.attrs.update(Alltoall=Native(alltoall), Get_size=Native(lambda I: SZ), Get_rank=Native(lambda I: R), size=SZ, rank=R)
    return c


DEST = T.var('dest', 'I')
hyp = lambda o: [T.cmp_le(0, o), T.cmp_lt(o, SZ)]


def mods(g):
    c = mpi(g)
    m = Module('mpi4py.MPI', {'SUM': c.sum, 'COMM_WORLD': c})
    g.I.modules['mpi4py.MPI'] = m
    g.I.modules['mpi4py'] = Module('mpi4py', {'MPI': m})
    return c


ELEM = lambda d, u: T.app('V', d, u)


def rep(g):
    """row p0*m+i0, column j0: an arbitrary element, owned by rank p0"""
    i, j, p = T.var('i0', 'I'), T.var('j0', 'I'), T.var('p0', 'I')
    g.pre(*hyp(p), T.cmp_le(0, i), T.cmp_lt(i, MM), T.cmp_le(0, j), T.cmp_lt(j, MM))
    return p, i, j


def elem(a, p, i, q, j):
    return a.get(p * MM + i, q * MM + j)


def packed(g, which='V'):
    """this rank's rows of the global array, in the down-split layout, and its columns in the up-split layout"""
    f = lambda d, u: T.app(which, d, u)
    return (new((MM, MM * SZ), lambda i, u: f(R * MM + i, u), 'R'), new((MM * SZ, MM), lambda d, j: f(d, R * MM + j), 'R'))


FORMS = {'given communicator': lambda c: {'comm': c}, 'default communicator': lambda c: {}}

for _how in FORMS:
    @vc('to the up-split layout, ' + _how, V_ + ':collect_dw')
    def _(g, how=_how):
        ranks(g)
        c = mods(g)
        a, _ = packed(g)
        b = g.call(g.fnc(V_, 'collect_dw'), a, **FORMS[how](c))
        p, i, j = rep(g)
        g.shape('all rows, this rank\'s columns', b, (MM * SZ, MM))
        g.same('it takes the storage of the argument', b.buf is a.buf)
        g.eq('row d, column u of the global array', g.I.ctx(lift(b.get(p * MM + i, j))), ELEM(p * MM + i, R * MM + j))

    @vc('to the down-split layout, ' + _how, V_ + ':collect_up')
    def _(g, how=_how):
        ranks(g)
        c = mods(g)
        _, b = packed(g)
        a = g.call(g.fnc(V_, 'collect_up'), b, **FORMS[how](c))
        p, i, j = rep(g)
        g.shape('this rank\'s rows, all columns', a, (MM, MM * SZ))
        g.same('it takes the storage of the argument', b.buf is a.buf)
        g.eq('row d, column u of the global array', g.I.ctx(lift(a.get(i, p * MM + j))), ELEM(R * MM + i, p * MM + j))


@vc('there and back', V_)
def _(g):
    ranks(g)
    c = mods(g)
    a, b = packed(g)
    down, up = g.fnc(V_, 'collect_dw'), g.fnc(V_, 'collect_up')
    p, i, j = rep(g)
    r = g.call(up, g.call(down, a, c), c)
    g.eq('the original rows come back', g.I.ctx(lift(r.get(i, p * MM + j))), ELEM(R * MM + i, p * MM + j))
    r = g.call(down, g.call(up, b, c), c)
    g.eq('the original columns come back', g.I.ctx(lift(r.get(p * MM + i, j))), ELEM(p * MM + i, R * MM + j))


@vc('arrays of other shapes are refused', V_)
def _(g):
    ranks(g)
    c = mods(g)
    n = T.var('n', 'I')
    g.pre(T.cmp_le(1, n), T.cmp_ne(MM * SZ, n) if hasattr(T, 'cmp_ne') else bnot(T.cmp_eq(MM * SZ, n)))
    for fn, sh in (('collect_dw', (MM, n)), ('collect_up', (n, MM))):
        f = g.fnc(V_, fn)
        a = new(sh, lambda i, j: ELEM(i, j), 'R')
        kinds = [(k, getattr(v, 'name', v)) for pc, k, v in g.run(lambda: g.I.call(f, [a, c]))]
        g.same(fn + ' raises', bool(kinds) and all(k == 'exc' for k, v in kinds), str(kinds))


# ------------------------------------------------------------------ the distributed product

def generic(I, a, sh, first):
    """element (i, u) of the array `a` of an arbitrary rank o, as a function of (o, i, u)"""
    if not isinstance(a, Arr) or a.ndim != 2 or not all(I.same_dim(x, y) for x, y in zip(a.shape, sh)):
        raise Unsupported('shape of a distributed array')
    o, i, u = T.fresh('o'), T.fresh('i'), T.fresh('u')
    n = len(I.pc)
    I.pc.extend(hyp(o) + [in_range((i, u), sh)])
    try:
        x = I.ctx(T.subst(I.ctx(lift(a.get(i, u))), {atom(R): o}))
    finally:
        del I.pc[n:]
    return lambda p, j, v: T.subst(x, {atom(o): lift(p), atom(i): lift(j), atom(u): lift(v)})


def place(I, a, sh, fn):
    """the result takes the storage of the argument"""
    from pyvc import npmodel
    r = npmodel.reshape(I, a, sh)
    if r.buf is not a.buf:
        raise Unsupported('storage that is not contiguous')
    I.store_all(r, fn)
    return r


def transposers(g, c):
    """the two redistributions by the contracts proved above"""
    N = MM * SZ
    M = g.I.load(V_)

    def same(I, comm):
        if comm is not None and comm is not c:
            raise Unsupported('another communicator')

    def dw(I, a, comm=None):
        same(I, comm)
        x = generic(I, a, (MM, N), R)
        return place(I, a, (N, MM), lambda d, j: x(I.ctx(T.floordiv(d, MM)), I.ctx(T.mod(d, MM)), R * MM + j))

    def up(I, b, comm=None):
        same(I, comm)
        x = generic(I, b, (N, MM), R)
        return place(I, b, (MM, N), lambda i, u: x(I.ctx(T.floordiv(u, MM)), R * MM + i, I.ctx(T.mod(u, MM))))
    M.ns['collect_dw'], M.ns['collect_up'] = Native(dw), Native(up)


def operators(g):
    from contracts.C07 import mat
    N = MM * SZ
    g.pre(*[T.cmp_le(1, T.var(x + 'nnz')) for x in 'ud'])
    return mat(g, 'u', N, N)[1], mat(g, 'd', N, N)[1]


def flatrows(f, dt='R'):
    """the local vector: this rank's rows one after the other"""
    N = MM * SZ
    return new((MM * N,), lambda q: f(R * MM + T.floordiv(q, N), T.mod(q, N)), dt)


def product(g, which, out, W, D):
    from contracts.C07 import row
    p, i, j = rep(g)
    u, d = p * MM + j, R * MM + i
    g.shape('as many elements as this rank holds', out, (MM * MM * SZ,))
    w = lambda x, y: T.app(W, x, y)
    g.eq('the rows of (diag + I x H_up + H_dw x I) W that this rank holds', g.I.ctx(lift(out.get(i * MM * SZ + u))),
         T.app(D, d, u) * w(d, u) + row('u', u, lambda c: w(d, c)) + row('d', d, lambda c: w(c, u)))


@vc('distributed product', P + ':_matvec_operator_mpi')
def _(g):
    ranks(g)
    c = mods(g)
    up, dw = operators(g)
    transposers(g, c)
    diag, vec = flatrows(lambda d, u: T.app('D', d, u)), flatrows(lambda d, u: T.app('W', d, u))
    f = g.call(g.fnc(P, 'matvec_operator'), diag, up, dw, comm=c)
    out = g.do(lambda: g.I.call(f, [vec]))
    product(g, '', out, 'W', 'D')
    p, i, j = [T.var(x, 'I') for x in ('p0', 'i0', 'j0')]
    q = i * MM * SZ + p * MM + j
    for a, n in ((diag, 'D'), (vec, 'W')):
        g.eq('%s is left unchanged' % ('the diagonal' if n == 'D' else 'the vector'), g.I.ctx(lift(a.get(q))), T.app(n, R * MM + i, p * MM + j))


@vc('sectors that cannot be divided are refused', P + ':_matvec_operator_mpi')
def _(g):
    c = mods(g)
    u, d = T.var('nup', 'I'), T.var('ndw', 'I')
    g.pre(T.cmp_le(1, SZ), T.cmp_le(0, R), T.cmp_lt(R, SZ), T.cmp_le(1, u), T.cmp_le(1, d), *[T.cmp_le(1, T.var(x + 'nnz')) for x in 'ud'])
    from contracts.C07 import mat
    f = g.fnc(P, 'matvec_operator')
    diag = sym('D', (T.var('loc', 'I'),))

    def kinds(sh):
        up, dw = mat(g, 'u', sh[0], sh[0])[1], mat(g, 'd', sh[1], sh[1])[1]
        out = [(pc, k, getattr(v, 'name', v)) for pc, k, v in g.run(lambda: g.I.call(f, [diag, up, dw], {'comm': c}))]
        return out
    out = kinds((u, d))
    g.same('different numbers of up and down configurations', any(k == 'exc' for pc, k, v in out) and
           all(k == 'exc' and 'NotImplementedError' in str(v) for pc, k, v in out if not g.S.unsat(g.I.pc + list(pc) + [bnot(T.cmp_eq(u, d))])), str([o[1:] for o in out]))
    out = kinds((d, d))
    rem = T.mod(d, SZ)
    g.same('a number of ranks that does not divide them', any(k == 'exc' for pc, k, v in out) and
           all(k == 'exc' and 'ValueError' in str(v) for pc, k, v in out if not g.S.unsat(g.I.pc + list(pc) + [bnot(T.cmp_eq(rem, 0))])), str([o[1:] for o in out]))


# ------------------------------------------------------------------ occupations

bit = lambda x, i: T.app('bit', x, i, sort='I')

for _f in 'CF':
    for _w in (False, True):
        @vc('distributed occupation, %s-ordered vectors, %s weights' % (_f, 'with' if _w else 'no'), O + ':_get_evecs_occupation_mpi')
        def _(g, f=_f, w=_w):
            ranks(g)
            c = mods(g)
            n, du, nev = [T.var(x, 'I') for x in ('n', 'dup', 'nev')]
            g.pre(*[T.cmp_le(1, x) for x in (n, du, nev)])
            v = new((MM * du, nev), lambda q, j: T.app('V', R * MM + T.floordiv(q, du), T.mod(q, du), j), 'R')
            if f == 'F':
                v.attrs['f'] = True
            up, dw, cf = sym('up', (du,), 'U'), sym('dw', (MM * SZ,), 'U'), sym('c', (nev,))
            r = g.call(g.fnc(O, 'get_evecs_occupation'), v, up, dw, n, cf if w else None, c)
            sq = lambda d, u, j: T.app('V', d, u, j) * T.app('V', d, u, j) * (T.app('c', j) if w else lift(1))
            tot = lambda f: ssum(SZ, lambda o: ssum(MM, lambda i: ssum(du, lambda u: f(o * MM + i, u))))
            g.array('up occupation of site k: sum over the configurations of every rank', r[0], (n, nev),
                    lambda k, j: tot(lambda d, u: bit(T.app('up', u, sort='I'), k) * sq(d, u, j)))
            g.array('down occupation of site k: sum over the configurations of every rank', r[1], (n, nev),
                    lambda k, j: tot(lambda d, u: bit(T.app('dw', d, sort='I'), k) * sq(d, u, j)))


@vc('blocks', 'lemma')
def _(g):
    lean(g, 'Blocks.lean', {'blocks_sum': 'the sum over the ranks of the sums over their rows is the sum over all rows',
                            'blocks_unique': 'each row is row i of exactly one rank p'})
    g.assume('every rank runs this program with its own rank number; Alltoall, Allgather and Allreduce(SUM) give the blocks and sums of the MPI standard')
    g.assume('distributed occupation: each rank holds m rows of the configurations, the number of ranks times m being all of them')


# ------------------------------------------------------------------ Lanczos

@vc('Lanczos step', 'edpyt.lanczos:_sl_step_mpi')
def _(g):
    import contracts.C13
    from pyvc import vc
    next(f for n, fn, lim, tiers, f in vc.GROUPS if n == 'one step, distributed')(g)


for _fn in ('build_sl_tridiag', 'sl_solve'):
    @vc(_fn + ' takes the distributed step', 'edpyt.lanczos:' + _fn)
    def _(g, fn=_fn):
        from pyvc.interp import PyExc
        L = 'edpyt.lanczos'
        M = g.I.load(L)
        c, mv, n = Obj(Cls('comm')), Native(lambda I, v: v), T.var('N', 'I')
        k = T.var('k', 'I')
        g.pre(T.cmp_le(1, n), T.cmp_le(1, k))
        M.ns['eigh_tridiagonal'] = Native(lambda I, a, b, *x, **kw: (sym('w', (k,)), sym('u', (k, k))))

        def step(I, m, comm=None):
            raise PyExc('Step', (m is mv and comm is c,))
        M.ns['sl_step'] = Native(step)
        f = g.fnc(L, fn)
        v = sym('v', (n,))
        args = [mv, v] if fn == 'build_sl_tridiag' else [mv, sym('a', (k,)), sym('b', (k,)), v]
        out = [(kd, x) for pc, kd, x in g.run(lambda: g.I.call(f, args, {'comm': c}))]
        g.same('with the operator and communicator it was given', bool(out) and all(kd == 'exc' and 'Step' in str(x) and 'True' in str(x) for kd, x in out), str(out))


# ------------------------------------------------------------------ sites shared by the ranks

def nano(g, spins):
    n, z = T.var('n', 'I'), T.var('nz', 'I')
    q = MM * SZ
    ranks(g, T.cmp_le(1, n), T.cmp_le(1, z))
    g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_lt(Poly.atom(a), n if a.args[0] == 'neq' else q)] if a.kind == 'App' and a.args[0] in ('neq', 'inv') else [])
    a, b = T.var('P', 'I'), T.var('Q', 'I')
    g.pre(in_range((a, b), (n, n)))
    c = mods(g)
    cls = g.fnc(D, 'Gfloc')
    C = lambda nm, *x: T.app(nm, *x, sort='C')
    H, S = sym('H', (n, n)), sym('S', (n, n))
    hyb = Native(lambda I, x: new((n, n), lambda i, j: C('Hyb', I.num(x), i, j), 'C'))
    o = g.do(lambda: g.I.call(cls, [H, S, hyb, sym('neq', (q,), 'I'), sym('inv', (n,), 'I')], {'comm': c}))
    call = lambda f, *x, **kw: g.do(lambda: g.I.call(f, list(x), kw))
    at = lambda k: g.do(lambda: g.I.getattr(o, k))
    call(at('update'), T.var('mu', 'R'))
    sp = ([2] if spins else [])
    sg = Native(lambda I, x: new((MM, *sp, z), lambda s, *i: C('Sigma', R * MM + s, *i[:-1], x.get(i[-1])), 'C'))
    call(at('set_local'), sg)

    def minv(I, x):
        if not isinstance(x, Arr) or x.ndim != 2:
            raise Unsupported('inverse of something else')
        e = lift(x.get(a, b))
        return new(x.shape, lambda i, j: C('Inv', e, i, j), 'C')
    g.I.load('numpy').ns['linalg'].ns['inv'] = Native(minv)
    return n, z, o, call, at, C


for _sp in (False, True):
    @vc('sites shared by the ranks%s' % (', two spins' if _sp else ''), D + ':Gfloc')
    def _(g, spins=_sp):
        n, m, o, call, at, C = nano(g, spins)
        mu, P_, Q_ = T.var('mu', 'R'), T.var('P', 'I'), T.var('Q', 'I')
        z = sym('z', (m,), 'C')
        zk = lambda k: C('z', k)
        iv, neq = (lambda k: T.app('inv', k, sort='I')), (lambda k: T.app('neq', k, sort='I'))
        p, s = T.var('p0', 'I'), T.var('s0', 'I')
        k = T.var('k0', 'I')
        g.pre(*hyp(p), in_range((s, k), (MM, m)))
        f0 = lambda x, i, j: (x + mu) * T.app('S', i, j) - T.app('H', i, j) - C('Hyb', x, i, j)
        ctx = lambda x: g.I.ctx(lift(x))
        sig = call(at('get_sigma'), z)
        g.shape('the gathered self-energy has one row per inequivalent site', sig, (MM * SZ, *([2] if spins else []), m))
        ed = at('ed')
        g.shape('levels of the sites of this rank', ed, (MM,))
        g.eq('level of a site of this rank', ctx(ed.get(s)), T.app('H', neq(R * MM + s), neq(R * MM + s)))
        vals = [call(o, z), call(at('Weiss'), z), call(at('Delta'), z)]
        for sp in ((lift(0),), (lift(1),)) if spins else ((),):
            t = 'spin %s: ' % sp if spins else ''
            Sg = lambda d: C('Sigma', d, *sp, zk(k))
            g.eq(t + 'row p*m + s is the self-energy of site s of rank p', ctx(sig.get(p * MM + s, *sp, k)), Sg(p * MM + s))
            e = f0(zk(k), P_, Q_) - T.cmp_eq(P_, Q_).poly() * Sg(iv(P_))
            d = R * MM + s
            G = C('Inv', e, neq(d), neq(d))
            g.eq(t + 'interacting function of a site of this rank: that of the serial computation', ctx(vals[0].get(s, *sp, k)), G)
            g.eq(t + 'Weiss field of a site of this rank', ctx(vals[1].get(s, *sp, k)), T.inv(G) + Sg(d))
            g.eq(t + 'hybridisation of a site of this rank', ctx(vals[2].get(s, *sp, k)), zk(k) + mu - T.app('H', neq(d), neq(d)) - T.inv(G) - Sg(d))

    @vc('occupations of shared sites%s' % (', two spins' if _sp else ''), D + ':_get_occps_method')
    def _(g, spins=_sp):
        n, m, o, call, at, C = nano(g, spins)
        k = T.var('k0', 'I')
        g.pre(in_range((k,), (n,)), T.cmp_le(2, n))
        mu = T.var('mup', 'R')

        def integrate(I, gf, x, *y, **kw):
            if gf is not o or y or kw or not (lift(I.num(x)) - mu).is_zero():
                raise Unsupported('what is integrated')
            return new((MM, 2) if spins else (MM,), lambda s, *i: T.app('occ', R * MM + s, *i), 'R')
        g.I.load(D).ns['integrate_gf'] = Native(integrate)
        r = call(at('get_occps'), mu)
        iv = T.app('inv', k, sort='I')
        g.shape('one per site', r, (n, 2) if spins else (n,))
        for sp in ((lift(0),), (lift(1),)) if spins else ((),):
            g.eq('%soccupation of a site is that of its inequivalent site, on whichever rank' % ('spin %s: ' % sp if spins else ''),
                 g.I.ctx(lift(r.get(k, *sp))), T.app('occ', iv, *sp))
        t = call(at('integrate'), mu)
        g.shape('total per site', t, (n,))
        g.eq('integrate: both spins', g.I.ctx(lift(t.get(k))), T.app('occ', iv, 0) + T.app('occ', iv, 1) if spins else 2 * T.app('occ', iv))
