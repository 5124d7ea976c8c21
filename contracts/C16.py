"""The C minimiser.  The objective is an arbitrary function; an invariant for each loop holds for any number of iterations."""
from pyvc.vc import *
from pyvc.loops import Invariant, Join
import ast

C = 'C:edpyt_backend'
fn_ = lambda x: T.app('f', x)
df_ = lambda x: T.app('df', x)
RV = lambda nm: T.var(nm, 'R')


def cell(x=None):
    return new((1,), lambda i: lift(x if x is not None else T.fresh('uninit', 'R')), 'R')


def put(I, b, x):
    I.setbuf(b.buf, lambda i: lift(x))


def val(b):
    return lift(b.get(0))


def bracket(a, b, c, fa, fb, fc):
    """b strictly between a and c and not higher than either"""
    return [('b lies strictly between a and c', T.cmp_lt(0, (b - a) * (c - b))),
            ('f(b) <= f(a)', T.cmp_le(fb, fa)), ('f(b) <= f(c)', T.cmp_le(fb, fc)),
            ('fa is f(a)', fa - fn_(a)), ('fb is f(b)', fb - fn_(b)), ('fc is f(c)', fc - fn_(c))]


def oblige(g, what, x):
    g.true(what, x) if isinstance(x, (B, bool)) else g.zero(what, x)


@vc('mnbrak', C + ':mnbrak')
def _(g):
    I = g.I
    I.cuts = {'u'}
    A, Bq = RV('A0'), RV('B0')
    g.pre(bnot(T.cmp_eq(A, Bq)))
    names = ('ax', 'bx', 'cx', 'fa', 'fb', 'fc')
    box = [cell(A), cell(Bq), cell(), cell(), cell(), cell()]
    f = Native(lambda I, x: fn_(I.num(x)))

    def get(fr):
        return [val(fr.vars[x]) for x in names]

    def facts(fr):
        a, b, c, fa, fb, fc = get(fr)
        return bracket(a, b, c, fa, fb, fc)[:2] + bracket(a, b, c, fa, fb, fc)[3:] + [
            ('still going down', T.cmp_lt(fc, fb)),
            ('f(b) is not above f at the first point', T.cmp_le(fb, fn_(A))), ('f(b) is not above f at the second point', T.cmp_le(fb, fn_(Bq)))]

    def state(I, fr, c):
        xs = [T.fresh(x, 'R') for x in names[:3]]
        for nm, x in zip(names, xs + [fn_(x) for x in xs]):
            put(I, fr.vars[nm], x)
        return [x for what, x in facts(fr) if isinstance(x, B)]
    I.split = 1
    I.invariants[('mnbrak', 0)] = Invariant(g, 'widening', state, lambda I, fr, c: facts(fr))
    fn = g.fnc(C, 'mnbrak')
    n = 0
    for pc, kind, v in g.run(lambda: I.call(fn, box + [f])):
        if not g.same('no exception', kind != 'exc', v):
            continue
        n += 1
        a, b, c, fa, fb, fc = map(val, box)
        tag = 'exit %d: ' % n
        for what, x in bracket(a, b, c, fa, fb, fc) + [('f(b) is not above f at the first point', T.cmp_le(fb, fn_(A))),
                                                      ('f(b) is not above f at the second point', T.cmp_le(fb, fn_(Bq)))]:
            oblige(g, tag + what, x)
    g.same('an exit is reached', n > 0)


@vc('dbrent, bracket from left to right', C + ':dbrent', limit=300)
def _(g):
    search(g, True)


@vc('dbrent, bracket from right to left', C + ':dbrent', limit=300)
def _(g):
    search(g, False)


def search(g, up):
    """an arbitrary iteration of the line search, on an arbitrary objective and derivative"""
    I = g.I
    I.maxdec = 24
    I.cuts = {'d1', 'd2'}
    A, Bq, Cq = RV('A0'), RV('B0'), RV('C0')
    lo, hi = (A, Cq) if up else (Cq, A)
    g.pre(T.cmp_lt(lo, Bq), T.cmp_lt(Bq, hi), T.cmp_lt(lo, hi), T.cmp_le(fn_(Bq), fn_(A)), T.cmp_le(fn_(Bq), fn_(Cq)))
    tol = lift(Fraction(1, 5000))
    f, df = Native(lambda I, x: fn_(I.num(x))), Native(lambda I, x: df_(I.num(x)))
    xmin = cell()
    before = {}
    V = lambda fr, n: lift(I.num(fr.vars[n]))
    ab = lambda x: ite(T.cmp_lt(x, 0), -x, x)

    def stops(a, b, x):
        return T.cmp_le(ab(x - (a + b) * Fraction(1, 2)), 2 * (tol * ab(x) + lift(1.0e-10)) - (b - a) * Fraction(1, 2))

    def held(fr):
        a, b, x, w, v = (V(fr, n) for n in 'abxwv')
        inside = band(T.cmp_le(a, x), T.cmp_le(x, b), T.cmp_lt(a, b))
        low = band(T.cmp_le(V(fr, 'fx'), fn_(a)), T.cmp_le(V(fr, 'fx'), fn_(b)))
        return [('the best point lies in the bracket, or the search ends', bor(inside, stops(a, b, x))),
                ('the ends of the bracket are not lower', low),
                ('fx is f(x)', V(fr, 'fx') - fn_(x)), ('fw is f(w)', V(fr, 'fw') - fn_(w)), ('fv is f(v)', V(fr, 'fv') - fn_(v)),
                ('dx is df(x)', V(fr, 'dx') - df_(x)), ('dw is df(w)', V(fr, 'dw') - df_(w)), ('dv is df(v)', V(fr, 'dv') - df_(v)),
                ('not above the middle point', T.cmp_le(V(fr, 'fx'), fn_(Bq)))]

    def check(I, fr, c):
        r = held(fr)
        if before and not I.solver.implied(I.pc, T.cmp_eq(c, 0)):
            r += [('the value never goes up', T.cmp_le(V(fr, 'fx'), before['fx'])), ('not above the point just tried', T.cmp_le(V(fr, 'fx'), fn_(V(fr, 'u'))))]
        return r

    def state(I, fr, c):
        for n in 'abxwvde':
            I.set(fr.vars, n, T.fresh(n, 'R'))
        for n in 'xwv':
            I.set(fr.vars, 'f' + n, fn_(V(fr, n)))
            I.set(fr.vars, 'd' + n, df_(V(fr, n)))
        before['fx'] = V(fr, 'fx')
        return [x for what, x in held(fr) if isinstance(x, B)]
    I.split = 1
    I.invariants[('dbrent', 0)] = Invariant(g, 'line search', state, check)

    def step(I, fr):
        a, b, x, d = (V(fr, n) for n in 'abxd')
        short = band(T.cmp_lt(d, V(fr, 'tol1')), T.cmp_lt(-d, V(fr, 'tol1')))
        return [('the step does not leave the bracket on the left or is shorter than the tolerance', bor(short, T.cmp_le(a, x + d))),
                ('the step does not leave the bracket on the right or is shorter than the tolerance', bor(short, T.cmp_le(x + d, b)))]
    sets = lambda s: {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    I.join = Join(g, 'step', lambda s, fr: 'd' in sets(s) and sets(s) <= {'d', 'e', 'd1', 'd2', 'u1', 'u2', 'ok1', 'ok2', 'olde', 'u'} and
                  not any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.For, ast.While)) for x in ast.walk(s)), step)
    fn = g.fnc(C, 'dbrent')
    I.load(C).ns['nrerror'] = Native(lambda I, *a: fail())
    n = 0
    for pc, kind, v in g.run(lambda: I.call(fn, [A, Bq, Cq, f, df, tol, xmin])):
        if kind == 'exc':
            g.same('only the limit of iterations stops it otherwise', 'nrerror' in str(v), v)
            continue
        n += 1
        x = val(xmin)
        tag = 'exit %d: ' % n
        g.zero(tag + 'the value returned is f at the point returned', lift(v) - fn_(x))
        g.true(tag + 'not above the middle point', T.cmp_le(lift(v), fn_(Bq)))
    g.same('an exit is reached', n > 0)


def fail():
    raise PyExc('nrerror', ())


# ------------------------------------------------------- functions of a vector: F(p) is an arbitrary function of all entries
def key(n, v):
    return ssum(n, lambda j: T.app('tag', j) * lift(v(j)))


def vec(n, nm):
    return new((n,), lambda j: T.app(nm, j), 'R')


def dims(g):
    n = T.var('n')
    g.pre(T.cmp_le(1, n))
    return n


F = lambda k: T.app('F', k)
pv, xv = (lambda j: T.app('p', j)), (lambda j: T.app('xi', j))


def func(n):
    return Native(lambda I, x: F(key(n, lambda j: x.get(j))))


def dfunc(n):
    def run(I, x, d):
        k = key(n, lambda j: x.get(j))
        I.store_all(d, lambda j: T.app('G', j, k))
    return Native(run)


@vc('f1dim, df1dim', C + ':f1dim')
def _(g):
    I, n = g.I, dims(g)
    M = I.load(C)
    p, xi = sym('p', (n,)), sym('xi', (n,))
    M.ns.update(ncom=n, pcom=p, xicom=xi, nrfunc=func(n), nrdfunc=dfunc(n))
    x = RV('x')
    k = key(n, lambda j: pv(j) + x * xv(j))
    g.eq('the objective at p + x xi', g.call(M.ns['f1dim'], x), F(k))
    g.eq('the slope along xi at p + x xi', g.call(M.ns['df1dim'], x), ssum(n, lambda j: T.app('G', j, k) * xv(j)))
    g.unchanged('p is left alone', p, 'p')
    g.unchanged('xi is left alone', xi, 'xi')


@vc('dlinmin', C + ':dlinmin')
def _(g):
    I, n = g.I, dims(g)
    M = I.load(C)
    p, xi, fret = sym('p', (n,)), sym('xi', (n,)), cell()
    fu, dfu = func(n), dfunc(n)
    phi = lambda t: F(key(n, lambda j: pv(j) + lift(t) * xv(j)))
    f1, d1 = M.ns['f1dim'], M.ns['df1dim']
    st = {}

    def globs():
        j = T.fresh('j')
        r = in_range((j,), (n,))
        g.eq('the start is handed over', M.ns['pcom'].get(j), pv(j), r)
        g.eq('the direction is handed over', M.ns['xicom'].get(j), xv(j), r)
        g.eq('the dimension is handed over', M.ns['ncom'], n)
        g.same('objective and gradient are handed over', M.ns['nrfunc'] is fu and M.ns['nrdfunc'] is dfu)

    def mn(I, a, b, c, fa, fb, fc, f):
        globs()
        g.same('bracketing uses the objective along the line', f is f1)
        A, Bq = val(a), val(b)
        g.true('two distinct points to start from', bnot(T.cmp_eq(A, Bq)))
        st['start'] = (A, Bq)
        xs = [T.fresh(x, 'R') for x in 'abc']
        for bx, x in zip((a, b, c, fa, fb, fc), xs + [phi(x) for x in xs]):
            put(I, bx, x)
        st['abc'] = xs
        I.assume(T.cmp_lt(0, (xs[1] - xs[0]) * (xs[2] - xs[1])))
        for y in (xs[0], xs[2], A, Bq):
            I.assume(T.cmp_le(phi(xs[1]), phi(y)))

    def db(I, a, b, c, f, df, tol, xm):
        globs()
        g.same('the line search uses objective and slope along the line', f is f1 and df is d1)
        for what, u, v in zip(('left end', 'middle', 'right end'), (a, b, c), st['abc']):
            g.eq('the bracket is handed on: ' + what, u, v)
        g.true('tolerance for which the line search was verified', T.cmp_eq(tol, Fraction(1, 5000)))
        x = T.fresh('xmin', 'R')
        put(I, xm, x)
        I.assume(T.cmp_le(phi(x), phi(lift(b))))
        st['x'] = x
        return phi(x)
    M.ns['mnbrak'], M.ns['dbrent'] = Native(mn), Native(db)
    fn = g.fnc(C, 'dlinmin')
    for pc, kind, v in g.run(lambda: I.call(fn, [p, xi, n, fret, fu, dfu])):
        if not g.same('no exception', kind != 'exc', v):
            continue
        if 'x' not in st:
            raise Unsupported('no line search')
        x = st['x']
        g.true('one of the points the search starts from is the current one', bor(*[T.cmp_eq(v, 0) for v in st['start']]))
        g.array('the point moves along the direction by the minimiser found', p, (n,), lambda j: pv(j) + x * xv(j))
        g.array('the direction becomes the displacement', xi, (n,), lambda j: x * xv(j))
        g.eq('the value reported is the objective at the new point', val(fret), F(key(n, lambda j: p.get(j))))
        g.true('not above the objective at the old point', T.cmp_le(val(fret), F(key(n, pv))))


@vc('frprmn', C + ':frprmn')
def _(g):
    I, n = g.I, dims(g)
    M = I.load(C)
    p, fret, it = sym('p', (n,)), cell(), cell()
    fu, dfu = func(n), dfunc(n)
    at = lambda q: F(key(n, lambda j: q.get(j)))
    f0 = F(key(n, pv))

    def anyvec(I, v, nm):
        t = str(T.fresh(nm, 'R')).replace('!', '_')
        I.store_all(v, lambda j: T.app(t, j))

    def dl(I, q, xi, m, fr, f, df):
        g.same('a line minimisation of the objective from the current point', q is p and fr is fret and f is fu and df is dfu)
        g.eq('in all directions', m, n)
        old = at(q)
        anyvec(I, q, 'pn')
        anyvec(I, xi, 'xin')
        put(I, fr, at(q))
        I.assume(T.cmp_le(at(q), old))
    M.ns['dlinmin'] = Native(dl)

    def check(I, fr, c):
        return [('fp is the objective at p', lift(fr.vars['fp']) - at(p)), ('the objective is not above the start', T.cmp_le(at(p), f0))]

    def state(I, fr, c):
        for nm in ('g', 'h', 'xi'):
            anyvec(I, fr.vars[nm], nm)
        anyvec(I, p, 'pp')
        I.set(fr.vars, 'fp', at(p))
        return [T.cmp_le(at(p), f0)]
    I.invariants[("frprmn", 1)] = Invariant(g, "descent", state, check)
    I.split = 1
    M.ns['nrerror'] = Native(lambda I, *a: fail())
    fn = g.fnc(C, 'frprmn')
    k = 0
    for pc, kind, v in g.run(lambda: I.call(fn, [p, n, lift(1e-10), it, fret, fu, dfu])):
        if kind == 'exc':
            g.same('only the limit of iterations stops it otherwise', 'nrerror' in str(v), v)
            continue
        k += 1
        g.eq('exit %d: the value reported is the objective at the point returned' % k, val(fret), at(p))
        g.true('exit %d: it is not above the objective at the start' % k, T.cmp_le(at(p), f0))
    g.same('an exit is reached', k > 0)
