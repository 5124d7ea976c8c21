from pyvc.vc import *
from pyvc.loops import Invariant

F = 'edpyt.lanczos'
N = T.var('N')
inv = T.inv
A_ = lambda i, j: T.app('A', i, j, sort='R')
v_ = lambda i: T.app('v', i)
l_ = lambda i: T.app('l', i)


def blas(M):
    """reference semantics of the two BLAS-1 routines, both in place"""
    def scal(I, a, x, n=None, offx=0, incx=1):
        if n is not None or size(offx) != 0 or size(incx) != 1:
            raise Unsupported('arguments of scal')
        a, old = I.num(a), x.snap()
        I.setitem(x, slice(None), new(x.shape, lambda *i: a * lift(old(*i)), x.dtype))
        return x

    def axpy(I, x, y, n=None, a=None, offx=0, incx=1, offy=0, incy=1):
        if n is not None and not I.same_dim(n, x.shape[0]):
            raise Unsupported('length given to axpy')
        if any(size(k) != w for k, w in ((offx, 0), (offy, 0), (incx, 1), (incy, 1))) or not I.same_shape(x.shape, y.shape):
            raise Unsupported('arguments of axpy')
        a = lift(1) if a is None else I.num(a)
        p, q = x.snap(), y.snap()
        I.setitem(y, slice(None), new(y.shape, lambda i: a * lift(p(i)) + lift(q(i)), y.dtype))
        return y
    M.ns['axpy'] = Native(axpy)
    M.ns['scal'] = Native(scal)


def size(x):
    x = lift(x)
    return int(x.cval()) if x.is_const() else None


def matvec(g, record=None):
    def mv(I, x):
        if not isinstance(x, Arr) or x.ndim != 1 or not I.same_dim(x.shape[0], N):
            raise Unsupported('argument of the operator')
        old = x.snap()
        return new((N,), lambda i: ssum(N, lambda j: A_(i, j) * lift(old(j))), 'R')
    return Native(mv)


@vc('one step', F + ':_sl_step')
def _(g):
    g.pre(T.cmp_le(1, N))
    M = g.I.load(F)
    blas(M)
    v, l = sym('v', (N,)), sym('l', (N,))
    f = g.fnc(F, 'sl_step')
    st = g.do(lambda: g.I.call(f, [matvec(g)]))
    a, b, q, w = g.do(lambda: g.I.call(st, [v, l]))
    step_post(g, a, b, q, w, lambda x: x)
    g.array('the incoming vector is the one that is normalised', v, (N,), lambda i: v_(i) * T.inv(b))
    g.unchanged('the previous vector is kept', l, 'l')


def step_post(g, a, b, q, w, tot):
    n2 = tot(ssum(N, lambda i: v_(i) * v_(i)))
    b = g.I.num(b)
    g.eq('b^2 is the squared norm of the incoming vector', b * b, n2)
    g.true('b is not negative', T.cmp_le(0, b))
    nz = T.cmp_lt(0, b)
    g.array('the new Lanczos vector is v/b', q, (N,), lambda i: v_(i) * T.inv(b), nz)
    V = lambda i: v_(i) * T.inv(b)
    AV = lambda i: ssum(N, lambda j: A_(i, j) * V(j))
    al = tot(ssum(N, lambda i: V(i) * AV(i)))
    g.eq('a is its expectation value', a, al, nz)
    g.array('the residual is A v - a v - b l', w, (N,), lambda i: AV(i) - al * V(i) - b * l_(i), nz)


@vc('one step, distributed', F + ':_sl_step_mpi')
def _(g):
    g.pre(T.cmp_le(1, N))
    M = g.I.load(F)
    blas(M)
    SUM = T.var('SUMop')
    mods(g, SUM)
    v, l = sym('v', (N,)), sym('l', (N,))
    tot = lambda x: T.app('tot', x)

    def allreduce(I, x, op=None):
        if op is not None and op is not SUM:
            raise Unsupported('reduction')
        return tot(I.num(x))
    comm = Obj(Cls('comm'))
    comm.attrs['allreduce'] = Native(allreduce)
    g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a))] if a.kind == 'App' and a.args[0] == 'tot' and 'A' not in str(a) else [])
    f = g.fnc(F, 'sl_step')
    st = g.do(lambda: g.I.call(f, [matvec(g)], {'comm': comm}))
    a, b, q, w = g.do(lambda: g.I.call(st, [v, l]))
    step_post(g, a, b, q, w, tot)
    g.assume('allreduce(SUM) returns the sum over the ranks; the sum of the local squares is not negative')


def mods(g, SUM):
    old = g.I.load
    m = Module('mpi4py.MPI', {'SUM': SUM})
    g.I.modules['mpi4py.MPI'] = m
    g.I.modules['mpi4py'] = Module('mpi4py', {'MPI': m})


# ---------------------------------------------------------------- the driver
# The step is replaced by its contract: the k-th call of the recursion turns (W(k), L(k)) into alpha(k), beta(k), L(k+1), W(k+1).
al = lambda k: T.app('alpha', k)
be = lambda k: T.app('beta', k)
W_ = lambda k: new((N,), lambda i: T.app('W', k, i), 'R')
L_ = lambda k: new((N,), lambda i: T.app('L', k, i), 'R')
prev = lambda k, i: ite(T.cmp_eq(k, 0), lift(0), T.app('L', k, i))       # the first step has no previous vector


def vec_no(I, x, name):
    """k when x is the array name(k, .)"""
    if not isinstance(x, Arr) or x.ndim != 1 or not I.same_dim(x.shape[0], N):
        raise Unsupported('a vector handed to the step')
    i = T.fresh('i')
    p = lift(x.get(i))
    for a in p.atoms():
        if a.kind == 'App' and a.args[0] == name and len(a.args) == 3:
            k = a.args[1]
            if (p - T.app(name, k, i)).is_zero():
                return lift(k)
    return None


def step_stub(g, M):
    def step(I, v, l):
        k = vec_no(I, v, 'W')
        i = T.fresh('i')
        if k is None or not I.solver.iszero(lift(l.get(i)) - prev(k, i), I.pc + [in_range((i,), (N,))]):
            raise Unsupported('the vectors handed to the step')
        I.setitem(v, slice(None), L_(k + 1))
        return al(k), be(k), v, W_(k + 1)
    M.ns['sl_step'] = Native(lambda I, mv, comm=None: Native(step))
    g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), bor(bnot(T.cmp_eq(a.args[1], 0)), T.cmp_eq(Poly.atom(a), be(0)))]
                     if a.kind == 'App' and a.args[0] == 'beta' else [])


def pick(fr, *names):
    out = []
    for x in names:
        if x not in fr.vars:
            raise Unsupported('no variable %s at the loop' % x)
        out.append(fr.vars[x])
    return out


maxn, ND, dl, tol = T.var('maxn'), T.var('ND'), T.var('delta', 'R'), T.var('tol', 'R')
egs = lambda n: T.app('egs', n)
INF = T.app('inf')


@vc('driver', F + ':build_sl_tridiag')
def _(g):
    I = g.I
    g.pre(T.cmp_le(1, N), T.cmp_le(2, maxn), T.cmp_le(1, ND))
    M = I.load(F)
    step_stub(g, M)

    def egsf(I, a, b):
        n = lift(a.shape[0])
        i = T.fresh('i')
        ok = (I.same_dim(b.shape[0], n - 1) and I.solver.iszero(lift(a.get(i)) - al(i), I.pc + [in_range((i,), (n,))])
              and I.solver.iszero(lift(b.get(i)) - be(i + 1), I.pc + [in_range((i,), (n - 1,))]))
        if not ok:
            raise Unsupported('the matrix whose ground state is tested')
        return egs(n)
    M.ns['egs_tridiag'] = Native(egsf)
    g.S.facts.append(lambda a: [T.cmp_lt(Poly.atom(a) + tol, INF)] if a.kind == 'App' and a.args[0] == 'egs' else [])

    def fill(a, f, n):
        """the array holds f(k) for k < n, anything above"""
        nm = 'junk!%d' % next(T._fresh)
        I.setbuf(a.buf, lambda k: ite(T.cmp_lt(k, n), f(k), T.app(nm, k)))

    def put(fr, n):
        a, b = pick(fr, 'a', 'b')
        pick(fr, 'n', 'v', 'l')
        fill(a, al, n)
        fill(b, be, n)
        I.set(fr.vars, 'n', n)
        I.set(fr.vars, 'v', W_(n))
        I.set(fr.vars, 'l', new((N,), lambda i: prev(n, i), 'R'))

    def vectors(fr, n):
        a, b, v, l = pick(fr, 'a', 'b', 'v', 'l')
        k, i = T.fresh('k'), T.fresh('i')
        inn = band(T.cmp_le(0, k), T.cmp_lt(k, n)).poly()
        return [('the coefficients so far are stored', inn * (lift(a.get(k)) - al(k))),
                ('the couplings so far are stored', inn * (lift(b.get(k)) - be(k))),
                ('v is the next vector', lift(v.get(i)) - T.app('W', n, i)),
                ('l is the previous Lanczos vector', lift(l.get(i)) - prev(n, i))]

    def outer(I, fr, c):
        n = T.fresh('n')
        put(fr, n)
        I.set(fr.vars, 'egs_prev', ite(T.cmp_eq(n, 0), INF, egs(n)))
        I.set(fr.vars, 'converged', False)
        return [T.cmp_le(0, n), T.cmp_lt(n, maxn)]

    def outer_ok(I, fr, c):
        n, e = pick(fr, 'n', 'egs_prev')
        n = lift(n)
        return [('n is within the limit', band(T.cmp_le(0, n), T.cmp_lt(n, maxn))),
                ('the energy of the last check is kept', lift(e) - ite(T.cmp_eq(n, 0), INF, egs(n)))] + vectors(fr, n)

    def enter(I, fr):
        I.set(fr.vars, '!n0', pick(fr, 'n')[0])

    def inner(I, fr, c):
        n = lift(fr.vars['!n0']) + c
        put(fr, n)
        return [T.cmp_lt(n, maxn)]

    def inner_ok(I, fr, c):
        n = lift(pick(fr, 'n')[0])
        return [('n counts the steps', n - lift(fr.vars['!n0']) - c), ('n is within the limit', T.cmp_lt(n, maxn))] + vectors(fr, n)
    I.invariants[('build_sl_tridiag', 0)] = Invariant(g, 'outer loop', outer, outer_ok)
    I.invariants[('build_sl_tridiag', 1)] = Invariant(g, 'inner loop', inner, inner_ok, enter)
    f = g.fnc(F, 'build_sl_tridiag')
    I.split = 1
    seen = dict(ok=0, zero=0)
    for pc, kind, r in g.run(lambda: I.call(f, [None, W_(lift(0)), maxn, dl, tol, ND])):
        if kind == 'exc':
            seen['zero'] += 1
            g.same('the only exception is ZeroNormInitialVector', r.cls.name == 'ZeroNormInitialVector', r)
            g.true('it is raised for a zero start vector only', T.cmp_lt(be(0), dl))
            continue
        seen['ok'] += 1
        a, b = r
        n = lift(a.shape[0])
        k = T.fresh('k')
        tag = 'path %d: ' % seen['ok']
        g.true(tag + 'at least one step, at most maxn - 1', band(T.cmp_le(1, n), T.cmp_lt(n, maxn)))
        g.array(tag + 'a holds the expectation values', a, (n,), al)
        g.array(tag + 'b holds the norms', b, (n,), be)
    g.same('both outcomes are reached', seen['ok'] > 0 and seen['zero'] > 0, seen)


@vc('second pass', F + ':sl_solve')
def _(g):
    I = g.I
    m, p = T.var('m'), T.var('p')
    g.pre(T.cmp_le(1, N), T.cmp_le(1, m), T.cmp_le(1, p))
    M = I.load(F)
    step_stub(g, M)
    U = lambda r, k: T.app('U', r, k)
    sel, rng = T.var('selrange'), T.var('x')

    def eig(I, a, b, select=0, select_range=(0, 0), eigvals_only=False):
        i = T.fresh('i')
        ok = (I.same_dim(a.shape[0], m) and I.same_dim(b.shape[0], m - 1) and I.solver.iszero(lift(a.get(i)) - T.app('a', i), I.pc)
              and I.solver.iszero(lift(b.get(i)) - T.app('b', i + 1), I.pc + [in_range((i,), (m - 1,))]))
        if not ok or size(select) != 2 or select_range is not rg:
            raise Unsupported('the tridiagonal problem that is solved')
        w = sym('w', (p,))
        return w if eigvals_only else (w, sym('U', (m, p)))
    rg = (T.var('lo'), T.var('hi'))
    M.ns['eigh_tridiagonal'] = Native(eig)
    acc = lambda i, k, c: ssum(c, lambda q: U(q, i) * T.app('L', q + 1, k))

    # the same sum with its last term written out
    last = lambda i, k, c: lift(0) if lift(c).is_zero() else acc(i, k, c - 1) + U(c - 1, i) * T.app('L', c, k)

    def state(I, fr, c):
        r, = pick(fr, 'r')
        I.set(fr.vars, 'v', W_(c))
        I.set(fr.vars, 'l', new((N,), lambda i: prev(c, i), 'R'))
        I.setbuf(r.buf, lambda i, k: acc(i, k, c))
        return []

    def check(I, fr, c):
        r, v, l = pick(fr, 'r', 'v', 'l')
        i, k = T.fresh('i'), T.fresh('k')
        if len(r.shape) != 2 or not I.same_shape(r.shape, (p, N)):
            raise Unsupported('shape of the result')
        inn = in_range((i, k), (p, N)).poly()
        return [('the vectors so far are accumulated', inn * (lift(r.get(i, k)) - last(i, k, c))),
                ('v is the next vector', lift(v.get(k)) - T.app('W', c, k)), ('l is the previous one', lift(l.get(k)) - prev(c, k))]
    I.invariants[('sl_solve', 0)] = Invariant(g, 'second pass', state, check)
    f = g.fnc(F, 'sl_solve')
    I.split = 1
    n = 0
    for pc, kind, r in g.run(lambda: I.call(f, [None, sym('a', (m,)), sym('b', (m,)), W_(lift(0))], dict(select=2, select_range=rg))):
        if not g.same('no exception', kind != 'exc', r):
            continue
        n += 1
        g.array('the Ritz values are returned', r[0], (p,), lambda k: T.app('w', k))
        g.array('Ritz vector k is sum_m U(m, k) (Lanczos vector m)', r[1], (N, p), lambda i, k: last(k, i, m))
    g.same('the result is reached', n > 0)
    w = g.do(lambda: I.call(f, [None, sym('a', (m,)), sym('b', (m,))], dict(select=2, select_range=rg, eigvals_only=True)))
    g.array('values only', w, (p,), lambda k: T.app('w', k))


D = 'edpyt.tridiag'


def lapack(g, n, nev):
    """stand-ins that check their arguments and return symbolic eigenpairs"""
    M = g.I.load(D)
    seen = []

    def same(x, name, k, off=0):
        i = T.fresh('i')
        return g.I.same_dim(x.shape[0], k) and g.I.solver.iszero(lift(x.get(i)) - T.app(name, i), g.I.pc + [in_range((i,), (k,))])

    def stebz(I, d, e, rng, vl, vu, il, iu, tol, order):
        if size(rng) != 2 or not isinstance(order, str):
            raise Unsupported('range of stebz')
        seen.append(('stebz', d, e, il, iu, order, tol))
        return nev, sym('w' + order, (n,)), sym('iblock', (n,), 'U'), sym('isplit', (n,), 'U'), 0

    def stein(I, d, e, w, ib, isp):
        seen.append(('stein', d, e, w, ib, isp))
        return sym('v', (n, n)), 0
    M.ns['stebz'], M.ns['stein'] = Native(stebz), Native(stein)
    return seen


def args_of(g, what, seen, n, lo, hi, order):
    c = next((x for x in seen if x[0] == 'stebz'), None)
    if not g.same(what + ': bisection is asked for an index range', c is not None, seen):
        return
    _, d, e, il, iu, o, tl = c
    g.array(what + ': diagonal', d, (n,), lambda i: T.app('a', i))
    g.array(what + ': couplings', e, (n - 1,), lambda i: T.app('b', i))
    g.eq(what + ': first index (from 1)', il, lo + 1)
    g.eq(what + ': last index', iu, hi + 1)
    g.eq(what + ': full accuracy', tl, 0)
    g.same(what + ': order', o == order, o)


@vc('partial tridiagonal problem', D + ':eigh_tridiagonal')
def _(g):
    n, nev, lo, hi = T.var('n'), T.var('nev'), T.var('lo'), T.var('hi')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, nev), T.cmp_le(nev, n), T.cmp_le(0, lo), T.cmp_le(lo, hi), T.cmp_lt(hi, n))
    seen = lapack(g, n, nev)
    a, b = sym('a', (n,)), sym('b', (n - 1,))
    w, v = g.call(g.fnc(D, 'eigh_tridiagonal'), a, b, 2, (lo, hi))
    args_of(g, 'pairs', seen, n, lo, hi, 'B')
    c = next((x for x in seen if x[0] == 'stein'), None)
    if g.same('inverse iteration is called', c is not None, seen):
        g.array('inverse iteration: diagonal', c[1], (n,), lambda i: T.app('a', i))
        g.array('inverse iteration: couplings', c[2], (n - 1,), lambda i: T.app('b', i))
        g.array('inverse iteration: the values found', c[3], (nev,), lambda i: T.app('wB', i))
        g.array('inverse iteration: block numbers', c[4], (n,), lambda i: T.app('iblock', i, sort='I'))
        g.array('inverse iteration: split points', c[5], (n,), lambda i: T.app('isplit', i, sort='I'))
    g.array('the values found', w, (nev,), lambda i: T.app('wB', i))
    g.array('their vectors', v, (n, nev), lambda i, k: T.app('v', i, k))
    del seen[:]
    w = g.call(g.fnc(D, 'eigh_tridiagonal'), a, b, 2, (lo, hi), True)
    args_of(g, 'values only', seen, n, lo, hi, 'E')
    g.array('values only', w, (nev,), lambda i: T.app('wE', i))
    g.unchanged('the diagonal is not modified', a, 'a')
    g.unchanged('the couplings are not modified', b, 'b')
    for name in ('egs_tridiag', 'gs_tridiag'):
        del seen[:]
        r = g.do(lambda: g.I.call(g.I.load(D).ns[name], [a, b]))
        args_of(g, name, seen, n, lift(0), lift(0), 'E' if name[0] == 'e' else 'B')
        if name == 'egs_tridiag':
            g.eq('the lowest value', r, T.app('wE', 0))
        else:
            g.array('the lowest values', r[0], (nev,), lambda i: T.app('wB', i))
            g.array('the lowest vectors', r[1], (n, nev), lambda i, k: T.app('v', i, k))
    g.assume('LAPACK stebz(range = I) returns the eigenvalues il..iu of the tridiagonal matrix and stein their eigenvectors, info = 0')


@vc('full tridiagonal problem', D + ':eigh_tridiagonal')
def _(g):
    n = T.var('n')
    g.pre(T.cmp_le(1, n))
    M = g.I.load(D)
    seen = {}
    a, b = sym('a', (n,)), sym('b', (n - 1,))

    def stemr(I, d, e, rng, vl, vu, il, iu, compute_v=True, lwork=None, liwork=None):
        if size(rng) != 0:
            raise Unsupported('range of stemr')
        seen.update(d=d, e=e, cv=compute_v)
        return n, sym('w', (n,)), sym('v', (n, n)), 0
    M.ns['stemr_lwork'] = Native(lambda I, *args, **kw: (T.var('lwork'), T.var('liwork'), 0))
    M.ns['stemr'] = Native(stemr)
    for only in (False, True):
        r = g.call(g.fnc(D, 'eigh_tridiagonal'), a, b, 0, (0, 0), only)
        tag = 'values only: ' if only else ''
        if g.same(tag + 'stemr is called', bool(seen) and seen['cv'] is (not only), seen):
            g.array(tag + 'diagonal', seen['d'], (n,), lambda i: T.app('a', i))
            i = T.fresh('i')
            g.shape(tag + 'couplings are handed over in a buffer of n', seen['e'], (n,))
            g.eq(tag + 'couplings', seen['e'].get(i), T.app('b', i), in_range((i,), (n - 1,)))
        g.array(tag + 'values', r if only else r[0], (n,), lambda k: T.app('w', k))
        if not only:
            g.array('vectors', r[1], (n, n), lambda i, k: T.app('v', i, k))
    g.unchanged('the diagonal is not modified', a, 'a')
    g.unchanged('the couplings are not modified', b, 'b')
    g.assume('LAPACK stemr returns all eigenvalues and orthonormal eigenvectors, info = 0')


for _rows in (True, False):
    for _norm in (True, False):
        @vc('gram_schmidt_rows, row_vecs=%s, norm=%s' % (_rows, _norm), F + ':gram_schmidt_rows')
        def _(g, rows=_rows, norm=_norm):
            I = g.I
            m, d = T.var('m'), T.var('d')
            g.pre(T.cmp_le(2, m), T.cmp_le(1, d))
            G = lambda r, j: T.app('G', r, j)
            X = lambda r, j: T.app('X', r, j)                       # row r >= 1 of the input
            full = lambda r, j: ite(T.cmp_eq(r, 0), G(0, j), X(r, j))   # its first row is the first row of the result
            # row r of the recurrence, from the rows above it
            E = lambda r, j: X(r, j) - ssum(r, lambda q: ssum(d, lambda t: X(r, t) * G(q, t)) * inv(ssum(d, lambda t: G(q, t) * G(q, t))) * G(q, j))

            def state(I, fr, c):
                I.set(fr.vars, 'Y', new((c + 1, d), G, 'R'))
                return []

            def value(c):
                return lambda r, j: ite(T.cmp_lt(r, c), G(r, j), E(c, j))

            def check(I, fr, c):
                y, = pick(fr, 'Y')
                if not isinstance(y, Arr) or not I.same_shape(y.shape, (c + 1, d)):
                    raise Unsupported('shape of the rows so far')
                r, j = T.fresh('r'), T.fresh('j')
                inn = in_range((r, j), (c + 1, d)).poly()
                G0 = G if lift(c).is_zero() else value(c)
                return [('the rows so far', inn * (lift(y.get(r, j)) - G0(r, j)))]
            I.invariants[('gram_schmidt_rows', 0)] = Invariant(g, 'rows', state, check)
            f = g.fnc(F, 'gram_schmidt_rows')
            I.split = 1
            a = new((m, d), full, 'R') if rows else new((d, m), lambda j, r: full(r, j), 'R')
            n = 0
            for pc, kind, y in g.run(lambda: I.call(f, [a], dict(row_vecs=rows, norm=norm))):
                if not g.same('no exception', kind != 'exc', y):
                    continue
                n += 1
                S = value(m - 1)
                w = (lambda r, j: S(r, j) * inv(T.REBUILD['sqrt'](ssum(d, lambda t: S(r, t) * S(r, t))))) if norm else S
                if rows:
                    g.array('rows of the result', y, (m, d), w)
                else:
                    g.array('columns of the result', y, (d, m), lambda j, r: w(r, j))
            g.same('the result is reached', n > 0)



@vc('gram_schmidt_columns is the QR factor', F + ':gram_schmidt_columns')
def _(g):
    m, d = T.var('m'), T.var('d')
    g.pre(T.cmp_le(1, d), T.cmp_le(d, m))
    X = sym('X', (m, d))

    def qr(I, a, mode='reduced'):
        i, j = T.fresh('i'), T.fresh('j')
        if mode != 'reduced' or not I.same_shape(a.shape, (m, d)) or not I.solver.iszero(lift(a.get(i, j)) - T.app('X', i, j), I.pc):
            raise Unsupported('the matrix that is factorised')
        return sym('Q', (m, d)), sym('Rf', (d, d))
    g.I.load('numpy').ns['linalg'].ns['qr'] = Native(qr)
    f = g.fnc(F, 'gram_schmidt_columns')
    g.array('the orthonormal factor', g.call(f, X), (m, d), lambda i, j: T.app('Q', i, j))
    g.unchanged('the input is not modified', X, 'X')
    g.assume('numpy.linalg.qr returns orthonormal columns that span those of its argument')


@vc('what the recursion gives', 'lemma')
def _(g):
    lean(g, 'Lanczos.lean', {
        'orthonormal': 'the Lanczos vectors are orthonormal for every symmetric operator',
        'tridiagonal': 'the matrix of the operator between them is the tridiagonal matrix of a and b[1:]',
        'ritz_bound': 'no eigenvalue of that matrix is below a lower bound of the operator',
        'ritz_vector': 'when the residual vanishes, sum_m U(m, k) v(m) is an eigenvector of the operator with the Ritz value',
        'gram_schmidt': 'rows made by the Gram-Schmidt recurrence are orthogonal',
        'gram_schmidt_span': 'and span the input rows'})
