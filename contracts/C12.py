from fractions import Fraction
from pyvc.vc import *
from pyvc import npmodel as npm, fock
from pyvc.proj import names, sector_q, I_
from pyvc.loops import Invariant

L = 'edpyt.gf_lanczos'
L2 = 'edpyt.gf2_lanczos'
EF = lambda J, j: T.app('EF', *J, j)              # the complete spectrum of a sector
E_ = lambda s, i: T.app('E', *s, i)               # the retained energies of a sector
nev = lambda s: T.app('nev', *s, sort='I')
dim = lambda s: I_('dim:bs', s[0]) * I_('dim:bs', s[1])
w_ = lambda x: T.app('w', x)


def ov(spin, full, p, J, I, j, i):
    """<J j| op_p |I i> with j an eigenstate of the complete sector J, i a retained state of I"""
    return T.app('ov%d%s' % (spin, 'c' if full else 'd'), p, *J, *I, j, i)


def world(g, spin, retained=False):
    """everything the assembly calls, by contract"""
    names(g)
    n, K = T.var('n'), T.var('K')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, K))
    g.S.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_le(Poly.atom(a), n)] if a.kind == 'App' and a.args[0] in ('qup', 'qdw') else [])
    key = lambda k: (I_('qup', k), I_('qdw', k))
    I = g.I
    cls = Cls('dict')
    es = Obj(cls)

    def charges(k):
        if not isinstance(k, tuple) or len(k) != 2:
            raise PyExc('KeyError')
        return tuple(lift(I.num(x)) for x in k)

    def item(I, s, k):
        q = charges(k)
        if not all(len([a for a in x.atoms() if a.kind == 'App' and a.args[0] in ('qup', 'qdw')]) == 1 and x == Poly.atom(list(x.atoms())[0]) for x in q):
            raise Unsupported('a sector that may be absent')
        return sector_q(g, *q)

    def get(I, k, default=None):
        q = charges(k)
        return sector_q(g, *q) if retained else default
    cls.ns['__getitem__'] = Native(item)
    cls.ns['__getitem__'].method = True
    es.attrs['get'] = Native(get)
    es.attrs['values'] = Native(lambda I: SList(K, lambda k: sector_q(g, *key(k))))
    es.attrs['keys'] = Native(lambda I: SList(K, key))
    es.attrs['items'] = Native(lambda I: SList(K, lambda k: (key(k), sector_q(g, *key(k)))))
    Hm, V = sym('H', (n, n)), T.var('V', 'R')

    def empty(I, f, a, kw):
        if len(a) != 3 or kw:
            raise Unsupported('arguments of build_empty_sector')
        m, a_, b_ = a
        if not (lift(m) - n).is_zero():
            raise Unsupported('number of orbitals of a sector')
        o = sector_q(g, lift(I.num(a_)), lift(I.num(b_)))
        I.setattr(o, 'eigvals', None)
        I.setattr(o, 'eigvecs', None)
        return o

    def solve(I, f, a, kw):
        h, v, s = a[:3]
        if h is not Hm or v is not V or len(a) > 3 or kw:
            raise Unsupported('the sector that is solved')
        q = s.attrs['charges']
        return new((dim(q),), lambda j: EF(q, j), 'R'), new((dim(q), dim(q)), lambda r, j: T.app('vecF', *q, r, j), 'R')

    def exact(sp):
        def f(I, f, a, kw):
            p, m, op, sI, sJ = fock.args(f, a, kw)
            full, qI, qJ = moved(I, sp, p, m, op, sI, sJ)
            x = T.fresh('j')
            e = I.getattr(sJ, 'eigvals')
            if not isinstance(e, Arr) or not I.same_dim(e.shape[0], dim(qJ)) or not I.solver.iszero(lift(e.get(x)) - EF(qJ, x), I.pc):
                raise Unsupported('the sector that is projected on is not solved completely')
            return new((dim(qJ), nev(qI)), lambda j, i: ov(sp, full, I.num(p), qJ, qI, j, i), 'R')
        return f

    def moved(I, sp, p, m, op, sI, sJ):
        full = op.name.split('.')[-1] == 'c'
        if not full and op.name.split('.')[-1] != 'cdg':
            raise Unsupported('projection of an unknown operator')
        qI, qJ = sI.attrs['charges'], sJ.attrs['charges']
        d = -1 if full else 1
        want = (qI[0] + d, qI[1]) if sp == 0 else (qI[0], qI[1] + d)
        ok = band(in_range((I.num(p),), (n,)), T.cmp_eq(I.num(m), n), *[T.cmp_eq(x, y) for x, y in zip(want, qJ)])
        if not I.solver.implied(I.pc, ok):
            raise Unsupported('projection outside its precondition')
        return full, qI, want

    def rows(sp):
        def f(I, f, a, kw):
            p, m, op, sI, sJ = fock.args(f, a, kw)
            full, qI, qJ = moved(I, sp, p, m, op, sI, sJ)
            return new((nev(qI), dim(qJ)), lambda i, k: T.app('pv%d%s' % (sp, 'c' if full else 'd'), I.num(p), *qJ, *qI, i, k), 'R')
        return f

    def ham(I, f, a, kw):
        if a[0] is not Hm or a[1] is not V or len(a) > 3 or kw:
            raise Unsupported('Hamiltonian of a sector')
        o = Obj(Cls('Hamiltonian'))
        o.attrs['charges'] = a[2].attrs['charges']
        return (o,)

    def lanczos(I, f, a, kw):
        if len(a) != 2 or kw:
            raise Unsupported('arguments of the Lanczos driver')
        op, v = a
        J = op.attrs['charges']
        if not I.same_shape(v.shape, (dim(J),)):
            raise Unsupported('length of the start vector')
        k = T.fresh('k')
        parts = overlaps(lift(v.get(k)), k, spin, J)
        if I.decide(T.cmp_eq(norm2(J, parts), 0)):
            raise PyExc(I.load('edpyt.lanczos').ns['ZeroNormInitialVector'], ())
        t = []
        for name in 'ab':
            o = Obj(Cls('coefficients'))
            o.attrs['of'] = (name, J, parts)
            t.append(o)
        return tuple(t)

    def coeff(kind):
        def f(I, f, a, kw):
            v = I.bind(f, a, kw)
            A, Bb, Ei, ex, sg = [v[x.arg] for x in f.node.args.args]
            (na, J, parts), (nb, _, _) = A.attrs['of'], Bb.attrs['of']
            if (na, nb) != ('a', 'b') or A.attrs['of'][1:] != Bb.attrs['of'][1:]:
                raise Unsupported('coefficients')
            o = Obj(Cls('kernel data'))
            o.attrs['kernel'] = (kind, J, parts, I.num(Ei), I.num(ex), sg)
            return o, o
        return f
    c = I.contracts
    c['build_empty_sector'], c['solve_sector'], c['build_mb_ham'], c['build_sl_tridiag'] = empty, solve, ham, lanczos
    c['matvec_operator'] = lambda I, f, a, kw: a[0]
    c['project_exact_up'], c['project_exact_dw'], c['project_up'], c['project_dw'] = exact(0), exact(1), rows(0), rows(1)
    c['build_gf_coeff_cf'], c['build_gf_coeff_sp'] = coeff('continued_fraction'), coeff('spectral')
    for x in ('edpyt.lanczos', 'edpyt.tridiag', L, L2):
        I.load(x)
    g.assume('solve_sector returns the complete spectrum EF of a sector (C08); project_exact_* return <J j|op|I i> (C11); project_* return the vectors op|I i> (groups below), whose overlaps with the eigenvectors of J are the matrix elements (lemma scattered)')
    g.assume('the Lanczos coefficients of a start vector v, turned into a kernel (C10, C13), give sum_j <j|v>^2 f(s(EF_j - E)): exact when the recursion '
             'runs until the Krylov space is exhausted; a vector of zero norm contributes nothing')
    return n, K, key, es, Hm, V


def overlaps(p, k, spin, J):
    """v as a combination of projected states: list of (coefficient, j -> overlap with eigenstate j)"""
    out = []
    for m, c in p.t.items():
        rest, hit = [], None
        for a, e in m:
            if a.kind == 'App' and a.args[0][:2] == 'pv' and e == 1 and hit is None and lift(a.args[-1]) == k:
                hit = a
            elif T.the_var(k) in a.vars():
                raise Unsupported('start vector')
            else:
                rest.append((a, e))
        if hit is None:
            raise Unsupported('start vector')
        q = hit.args
        if [lift(x) for x in q[2:4]] != [lift(x) for x in J]:
            raise Unsupported('start vector in another sector')
        out.append((Poly({tuple(rest): c}, 'R'), 'ov' + q[0][2:], q[1:-1]))
    return out


def overlap(parts, j):
    acc = T.ZERO
    for c, name, q in parts:
        acc = acc + c * T.app(name, *q[:-1], j, q[-1])
    return acc


def norm2(J, parts):
    def sq(j):
        x = overlap(parts, j)
        return x * x
    return ssum(dim(J), sq)


class Gfs:
    """the Green's functions that are built: ghost value sum of weight * w(pole), for a test function w nothing is known about"""

    def __init__(self, g, M):
        self.g, self.made = g, []
        self.kernels = {k: g.fnc(L, k) for k in ('spectral', 'continued_fraction')}
        M.ns['Gf'] = Native(self.make)

    def make(self, I):
        o = Obj(Cls('Gf'))
        acc = NDict({'v': T.var('gf0', 'R') * 0})
        o.attrs['acc'] = acc
        o.attrs['add'] = Native(lambda I, kernel, *a: self.add(I, acc, kernel, a))
        o.attrs['number'] = len(self.made)
        self.made.append(o)
        return o

    def add(self, I, acc, kernel, a):
        kd = getattr(a[0], 'attrs', {}).get('kernel')
        if kd is not None:
            kind, J, parts, Ei, ex, sg = kd
            if len(a) != 2 or a[1] is not a[0] or kernel is not self.kernels[kind] and getattr(kernel, 'name', None) != kind:
                raise Unsupported('kernel')

            def term(j):
                x = overlap(parts, j)
                return ex * x * x * w_(sg * (EF(J, j) - Ei))
            x = ssum(dim(J), term)
        else:
            if getattr(kernel, 'name', None) != 'spectral' or len(a) != 2:
                raise Unsupported('kernel')
            fs = []
            for v in a:
                fl = v.attrs.get('flat')
                if fl is not None and fl[2] is v.buf.fn:
                    fs.append(fl[:2])
                else:
                    fs.append((v.shape, v.snap()))
            (s1, l), (s2, q) = fs
            if not I.same_shape(s1, s2):
                raise Unsupported('poles and residues')

            def tot(k, idx):
                return q(*idx) * w_(l(*idx)) if k == len(s1) else ssum(s1[k], lambda t: tot(k + 1, idx + (t,)))
            x = tot(0, ())
        I.set(acc, 'v', acc['v'] + x)


def expected(n, K, key, spin, beta, egs, ps, part, lim):
    """sum over the retained states: electron part 'e', hole part 'h'"""
    bw = lambda s, i: npm.exp(-beta * (E_(s, i) - egs))

    def one(k):
        I = key(k)
        d = 1 if part == 'e' else -1
        J = (I[0] + d, I[1]) if spin == 0 else (I[0], I[1] + d)
        room = (T.cmp_lt(I[spin], n) if d > 0 else T.cmp_le(1, I[spin])).poly()

        def state(i):
            amp = lambda j: sum((ov(spin, d < 0, p, J, I, j, i) for p in ps), T.ZERO)
            tot = ssum(dim(J), lambda j: amp(j) * amp(j))
            full = ssum(dim(J), lambda j: bw(I, i) * amp(j) * amp(j) * w_(d * (EF(J, j) - E_(I, i))))
            alive = bnot(T.cmp_eq(tot, 0)).poly()
            return full * (alive if lim is None else ite(T.cmp_le(dim(J), lim), lift(1), alive))
        return room * ssum(nev(I), state)
    return ssum(K, one)


def partition(K, key, beta, egs):
    return ssum(K, lambda k: ssum(nev(key(k)), lambda j: npm.exp(-beta * (E_(key(k), j) - egs))))


for _spin in (0, 1):
    for _rep in ('cf', 'sp'):
        for _sep in (False, True):
            @vc('build_gf_lanczos, spin %d, %s%s' % (_spin, _rep, ', separate' if _sep else ''), L + ':build_gf_lanczos', limit=300)
            def _(g, spin=_spin, rep=_rep, sep=_sep):
                n, K, key, es, Hm, V = world(g, spin)
                beta, egs, p = T.var('beta', 'R'), T.var('egs', 'R'), T.var('p')
                g.I.pc.append(in_range((p,), (n,)))
                G_ = Gfs(g, g.I.load(L))
                r = g.call(g.fnc(L, 'build_gf_lanczos'), Hm, V, es, beta, egs, p, rep, spin, sep)
                check(g, G_, r, sep, lambda part: expected(n, K, key, spin, beta, egs, [p], part, 10), partition(K, key, beta, egs))


def check(g, G_, r, sep, want, Z):
    if sep:
        ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, Obj) and 'acc' in x.attrs for x in r) and r[0] is not r[1]
        if g.same('two functions are returned', ok, r):
            for x, part, nm in zip(r, 'eh', ('particle', 'hole')):
                g.eq('%s part' % nm, x.attrs['acc']['v'], want(part))
                g.eq('%s part: Z' % nm, x.attrs['Z'], Z)
    elif g.same('one function is returned', isinstance(r, Obj) and 'acc' in r.attrs, r):
        g.eq('weights and poles', r.attrs['acc']['v'], want('e') + want('h'))
        g.eq('Z is the partition function of the retained states', r.attrs['Z'], Z)


for _spin in (0, 1):
    for _rep, _sep in (('cf', False), ('sp', True)):
        @vc('build_gf_offdiag, spin %d, %s%s' % (_spin, _rep, ', separate' if _sep else ''), L2 + ':build_gf_offdiag', limit=300)
        def _(g, spin=_spin, rep=_rep, sep=_sep):
            n, K, key, es, Hm, V = world(g, spin)
            beta, egs, p, q = T.var('beta', 'R'), T.var('egs', 'R'), T.var('p'), T.var('q')
            g.I.pc.append(in_range((p, q), (n, n)))
            G_ = Gfs(g, g.I.load(L2))
            r = g.call(g.fnc(L2, 'build_gf_offdiag'), Hm, V, es, beta, p, q, spin, egs, rep, sep)
            check(g, G_, r, sep, lambda part: expected(n, K, key, spin, beta, egs, [p, q], part, None), partition(K, key, beta, egs))


class Matrix:
    """a matrix of functions: ghost arrays with the arguments and the part of the function stored in every element"""

    def __init__(self, I, n):
        self.src = [new((n, n), lambda i, j: lift(-1), 'I') for _ in range(3)]
        c = Cls('ndarray')
        self.obj = o = Obj(c)
        o.attrs['shape'] = (n, n)

        def put(I, s, k, v):
            for a, x in zip(self.src, v.attrs['made']):
                I.setitem(a, k, x)
        c.ns['__setitem__'] = Native(put)
        c.ns['__setitem__'].method = True


for _spin in (0, 1):
    for _sep in (False, True):
        @vc('build_gf2_lanczos, spin %d%s' % (_spin, ', separate' if _sep else ''), L2 + ':build_gf2_lanczos')
        def _(g, spin=_spin, sep=_sep):
            n, p, q = T.var('n'), T.var('p'), T.var('q')
            g.pre(T.cmp_le(1, n))
            I = g.I
            M = I.load(L2)
            Hm, V, es = sym('H', (n, n)), T.var('V', 'R'), Obj(Cls('dict'))
            beta, egs = T.var('beta', 'R'), T.var('egs', 'R')
            made = []

            def nd(I, shape=None, dtype=None):
                m = Matrix(I, n)
                m.shape = tuple(shape)
                made.append(m)
                return m.obj
            I.load('numpy').ns['ndarray'] = Native(nd)

            def build(diag):
                def f(I, f, a, kw):
                    v = I.bind(f, a, kw)
                    i, j = (v['pos'], v['pos']) if diag else (v['ipos'], v['jpos'])
                    if v['H'] is not Hm or v['V'] is not V or v['espace'] is not es or v['ispin'] != spin or v['repr'] != 'sp' or bool(v['separate']) != sep \
                            or not (lift(v['beta']) - beta).is_zero() or not (lift(v['egs']) - egs).is_zero():
                        raise Unsupported('arguments of an element')
                    if not diag and I.solver.implied(I.pc, T.cmp_eq(I.num(i), I.num(j))):
                        raise Unsupported('off-diagonal element on the diagonal')
                    out = []
                    for part in range(2 if sep else 1):
                        o = Obj(Cls('Gf'))
                        o.attrs['made'] = (I.num(i), I.num(j), lift(part))
                        out.append(o)
                    return tuple(out) if sep else out[0]
                return f
            I.contracts['build_gf_lanczos'], I.contracts['build_gf_offdiag'] = build(True), build(False)
            got = []
            M.ns['Gf2'] = Native(lambda I, e, h=None: got.append((e, h)))
            g.call(g.fnc(L2, 'build_gf2_lanczos'), Hm, V, es, beta, egs, spin, 'sp', sep)
            if len(got) != 1:
                raise Unsupported('not one matrix of functions')
            e, h = got[0]
            own = {id(m.obj): m for m in made}
            if id(e) not in own or sep and id(h) not in own:
                raise Unsupported('matrices of functions')
            g.same('one matrix per part', (h is None) == (not sep) and e is not h, got)
            I.pc.append(band(in_range((p, q), (n, n)), T.cmp_le(p, q)))
            for x, part in ((e, 0), (h, 1))[:2 if sep else 1]:
                m = own[id(x)]
                g.same('one function per pair of sites [%s]' % 'eh'[part], all(I.same_dim(a, n) for a in m.shape))
                for s, want, nm in zip(m.src, (p, q, lift(part)), ('row', 'column', 'part')):
                    g.eq('element (p <= q) is the function of these sites [%s, %s]' % ('eh'[part], nm), s.get(p, q), want)


def functions(g, n, m, E, eta, tag):
    c = Cls('ndarray')
    o = Obj(c)
    o.attrs['shape'] = (n, n)
    val = lambda p1, p2, x: T.app('gf%sr' % tag, p1, p2, x) + g.I.num(1j) * T.app('gf%si' % tag, p1, p2, x)

    def get(I, s, k):
        p1, p2 = k

        def f(I, e, et):
            if e is not E or not (lift(I.num(et)) - eta).is_zero():
                raise Unsupported('functions evaluated somewhere else')
            return new((m,), lambda x: val(p1, p2, x), 'C')
        return Native(f)
    c.ns['__getitem__'] = Native(get)
    c.ns['__getitem__'].method = True
    return o, val


def polar(val):
    h = lift(Fraction(1, 2))

    def f(i, j, x):
        lo, hi = ite(T.cmp_lt(i, j), i, j), ite(T.cmp_lt(i, j), j, i)
        return ite(T.cmp_eq(i, j), val(i, i, x), h * (val(lo, hi, x) - val(i, i, x) - val(j, j, x)))
    return f


@vc('Gf2: evaluation', L2 + ':Gf2')
def _(g):
    n, m, i, j = T.var('n'), T.var('m'), T.var('i'), T.var('j')
    g.pre(T.cmp_le(1, n), T.cmp_le(1, m))
    E, eta = sym('e', (m,)), T.var('eta', 'R')
    oe, ve = functions(g, n, m, E, eta, 'e')
    oh, vh = functions(g, n, m, E, eta, 'h')
    G2 = g.fnc(L2, 'Gf2')
    one = g.call(G2, oe)
    g.array('one matrix: all elements', g.call(one, E, eta), (n, n, m), polar(ve))
    two = g.call(G2, oe, oh)
    r = g.call(two, E, eta)
    g.same('two parts', isinstance(r, tuple) and len(r) == 2, r)
    g.array('two matrices: particle part', r[0], (n, n, m), polar(ve))
    g.array('two matrices: hole part', r[1], (n, n, m), polar(vh))
    pc = list(g.I.pc)
    for c, tag in ((T.cmp_lt(i, j), 'i < j'), (T.cmp_eq(i, j), 'i = j')):
        g.I.pc[:] = pc + [in_range((i, j), (n, n)), c]
        f = g.call(g.fnc(L2, '_Gf2').ns['__getitem__'], one, (i, j))
        g.array('one matrix: element (%s)' % tag, g.call(f, E, eta), (m,), lambda x: polar(ve)(i, j, x))
        f = g.call(two.cls.ns['__getitem__'], two, (i, j))
        g.array('two matrices: element (%s) is the sum of the parts' % tag, g.call(f, E, eta), (m,), lambda x: polar(ve)(i, j, x) + polar(vh)(i, j, x))


for _spin, _fn in enumerate(('project_up', 'project_dw')):
    for _full in (False, True):
        for _part in ('reached', 'not reached'):
            @vc('%s of %s: configurations %s' % (_fn, 'c' if _full else 'c+', _part), L + ':' + _fn)
            def _(g, spin=_spin, fn=_fn, full=_full, part=_part):
                projection(g, spin, fn, full, part)


def projection(g, spin, fn, full, part):
    """the vectors op_p |I i>: value at the configuration reached from configuration (qs, r) of sector I; zero at a configuration that is
    reached from none"""
    names(g)
    I = g.I
    n, p, a, b = [T.var(x) for x in ('n', 'p', 'a', 'b')]
    d = -1 if full else 1
    a2, b2 = (a + d, b) if spin == 0 else (a, b + d)
    x, x2, y = (a, a2, b) if spin == 0 else (b, b2, a)
    D, D2, R = I_('dim:bs', x), I_('dim:bs', x2), I_('dim:bs', y)
    qs, r, i, ks = [T.var(v) for v in ('qs', 'r', 'is', 'ks')]
    nI = nev((a, b))
    g.pre(in_range((p,), (n,)), *[T.cmp_le(0, v) for v in (a, b, a2, b2)], *[T.cmp_le(v, n) for v in (a, b, a2, b2)],
          in_range((r, i), (R, nI)), in_range((ks,), (D2,)), in_range((qs,), (D,)))
    sI, sJ = sector_q(g, a, b), sector_q(g, a2, b2)
    occ = lambda q: T.cmp_eq(fock.bit(I_('bs', x, q), p), 1 if full else 0)
    to = lambda q: I_('pos:bs', x2, I_('flip', I_('bs', x, q), p))

    def fact(t):
        """the places reached by different configurations differ; ks is not reached"""
        if t.kind != 'App' or t.args[0] != 'pos:bs':
            return []
        fl = list(lift(t.args[2]).atoms())
        if len(fl) != 1 or fl[0].kind != 'App' or fl[0].args[0] != 'flip':
            return []
        w = list(lift(fl[0].args[1]).atoms())
        if len(w) != 1 or w[0].kind != 'App' or w[0].args[0] != 'bs' or not (lift(w[0].args[1]) - x).is_zero() or not (lift(t.args[1]) - x2).is_zero() \
                or not (lift(fl[0].args[2]) - p).is_zero():
            return []
        q = w[0].args[2]
        on = band(in_range((q,), (D,)), occ(q))
        if part == 'reached':
            return [bor(bnot(on), bnot(occ(qs)), T.cmp_eq(q, qs), bnot(T.cmp_eq(Poly.atom(t), to(qs))))]
        return [bor(bnot(on), bnot(T.cmp_eq(Poly.atom(t), ks)))]
    g.S.facts.append(fact)
    g.assume('configurations of a sector are distinct and op changes one orbital: different occupied configurations are sent to different places')
    if part == 'reached':
        g.I.pc.append(occ(qs))
        t = to(qs)
        kJ, kI = (t + D2 * r, qs + D * r) if spin == 0 else (r + R * t, r + R * qs)
        val = I_('sgn', I_('bs', x, qs), p, n) * T.app('vec', a, b, kI, i)
    else:
        kJ = ks + D2 * r if spin == 0 else r + R * ks
    want = lambda c: val * T.cmp_lt(qs, c).poly() if part == 'reached' else lift(0)

    def state(I, fr, c):
        v = fr.vars['v0']
        I.setbuf(v.buf, lambda s, k: ite(band(T.cmp_eq(s, i), T.cmp_eq(k, kJ)), want(c), T.app('v0', s, k)))
        if part == 'reached' and not I.decide(T.cmp_eq(c, qs)):
            I.decide(T.cmp_lt(to(c), to(qs)))
        return []

    def check(I, fr, c):
        return [('element of the result', lift(fr.vars['v0'].get(i, kJ)) - want(c))]
    I.invariants[(fn, 0)] = Invariant(g, 'configurations', state, check)
    f = g.fnc(L, fn)
    op = g.fnc('edpyt.operators', 'c' if full else 'cdg')
    I.split = 1
    k = 0
    for pc, kind, v in g.run(lambda: I.call(f, [p, n, op, sI, sJ])):
        if not g.same('no exception', kind != 'exc', v):
            continue
        k += 1
        g.same('path %d: one vector per retained state' % k, v.ndim == 2 and I.same_dim(v.shape[0], nI) and I.same_dim(v.shape[1], dim((a2, b2))), v.shape)
        g.eq('path %d: element' % k, v.get(i, kJ), want(D))
    g.same('the result is reached', k > 0)


@vc('from squares to products', L2 + ':build_gf_offdiag')
def _(g):
    lean(g, 'Polarisation.lean', {
        'polarisation': 'half of (function of i + j minus functions of i and of j) has the products of the overlaps as weights',
        'zero_norm': 'a start vector of zero norm has zero weights: leaving it out changes nothing',
        'scattered': 'projecting the start vector on an eigenvector gives the matrix element of the operator'})
