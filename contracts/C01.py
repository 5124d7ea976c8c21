"""Sector bases.  The successor step is proved bit-precisely for every 32-bit word; the counting argument is a Lean lemma."""
import ast, os, subprocess, time, json
import z3
from pyvc.vc import *
from pyvc import bv
from pyvc.bv import U, BVExec, BVUnsupported, ArrV, Nat, valid, popcount, Cast

S = 'edpyt.sector'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Lin:
    """N + off (the length) or i + off (the loop index)"""

    def __init__(self, base, off=0):
        self.base, self.off = base, off


class States(ArrV):
    def __init__(self, X, size=None, count=None):
        self.X, self.count = X, count
        self.size = Lin('N')
        self.first = None
        self.done = False


class Ex(BVExec):
    """adds: one array of words of unknown length, filled by an inductively verified loop"""
    table = {}

    def __init__(self, root, mode):
        super().__init__(root, mode)
        self.loop_hook = Ex.hook
        self.steps = []            # (type signature, obligations) of the loops met
        self.facts = []

    def mod(self, name):
        if name in self.mods:
            return self.mods[name]
        m = super().mod(name)
        # names from outside that the sources use: the installed scipy's binom, by table
        for s in ast.parse(open(os.path.join(self.root, *name.split('.')) + '.py').read()).body:
            if isinstance(s, ast.ImportFrom) and s.module in ('scipy.special', 'math', 'scipy.misc'):
                for a in s.names:
                    if a.name in ('binom', 'comb'):
                        m[a.asname or a.name] = Nat(lambda n, p, k=s.module + '.' + a.name: self.binom(n, p, k))
        return m

    def binom(self, n, p, k):
        if k == 'math.comb':
            import math
            return math.comb(n, p) if n >= 0 and p >= 0 else (_ for _ in ()).throw(BVUnsupported('comb of a negative number'))
        if k == 'scipy.special.binom' and isinstance(n, int) and isinstance(p, int):
            v = self.table.get('%d,%d' % (n, p))
            if v is not None:
                return float.fromhex(v)
        raise BVUnsupported('%s(%r, %r)' % (k, n, p))

    def call(self, f, *args):
        return super().call(f, *args)

    def e_Attribute(self, e, loc, mod):
        v = self.ev(e.value, loc, mod)
        if v == 'numpy' and e.attr in ('rint', 'round', 'around'):
            return Nat(lambda x: float(round(x)))
        if v == 'numpy' and e.attr in ('zeros', 'empty'):
            return Nat(lambda n, *a: self.alloc(n, a))
        if isinstance(v, States) and e.attr in ('size',):
            return Lin('N')
        if isinstance(v, States) and e.attr == 'shape':
            return (Lin('N'),)
        return super().e_Attribute(e, loc, mod)

    def alloc(self, n, a):
        if not isinstance(n, (int, float)) or n != int(n) or isinstance(n, float):
            raise BVUnsupported('size %r' % (n,))
        if len(a) != 1 or not isinstance(a[0], Cast) or (a[0].w, a[0].signed) != (32, False):
            raise BVUnsupported('element type')
        return States(self, count=n)

    def e_Call(self, e, loc, mod):
        f = self.ev(e.func, loc, mod)
        kw = {k.arg: self.ev(k.value, loc, mod) for k in e.keywords}
        a = [self.ev(x, loc, mod) for x in e.args]
        if set(kw) == {'dtype'}:
            a.append(kw['dtype'])
        elif kw:
            raise BVUnsupported('keywords')
        if isinstance(e.func, ast.Name) and e.func.id in ('int', 'round') and len(a) == 1 and isinstance(a[0], float):
            return int(a[0]) if e.func.id == 'int' else round(a[0])
        if isinstance(e.func, ast.Name) and e.func.id == 'len' and isinstance(a[0], States):
            return Lin('N')
        return self.call(f, *a)

    def binop(self, op, l, r):
        for x, y, s in ((l, r, 1), (r, l, -1)):
            if isinstance(x, Lin) and isinstance(y, int):
                if isinstance(op, ast.Add):
                    return Lin(x.base, x.off + y)
                if isinstance(op, ast.Sub) and s == 1:
                    return Lin(x.base, x.off - y)
        if isinstance(l, float) or isinstance(r, float):
            if isinstance(l, (int, float)) and isinstance(r, (int, float)):
                return {'Add': lambda: l + r, 'Sub': lambda: l - r, 'Mult': lambda: l * r, 'Div': lambda: l / r}[type(op).__name__]()
            raise BVUnsupported('float operand')
        if isinstance(l, int) and isinstance(r, int) and isinstance(op, ast.Div):
            return l / r
        return super().binop(op, l, r)

    def e_Subscript(self, e, loc, mod):
        a, k = self.ev(e.value, loc, mod), self.ev(e.slice, loc, mod)
        if isinstance(a, States):
            if isinstance(k, int) and k == 0 and not a.done and not getattr(self, 'inloop', False):
                if a.first is None:
                    raise BVUnsupported('states[0] read before it is set')
                return a.first
            if isinstance(k, Lin) and k.base == 'i' and getattr(self, 'inloop', False):
                if a is self.arr and k.off + self.widx == -1 + 0:
                    return U(self.X0, 32, False)
                if a is self.arr and k.off + self.widx == 0 and self.written is not None:
                    return self.written
            raise BVUnsupported('array read')
        return super().e_Subscript(e, loc, mod)

    def assign(self, t, v, loc, mod):
        if isinstance(t, ast.Subscript):
            a, k = self.ev(t.value, loc, mod), self.ev(t.slice, loc, mod)
            if isinstance(a, States):
                if isinstance(k, int) and k == 0 and not getattr(self, 'inloop', False) and not a.done:
                    a.first = self.cast(v, 32, False) if not isinstance(v, (bool, int)) else U(z3.BitVecVal(int(v), 32), 32, False)
                    return
                if isinstance(k, Lin) and k.base == 'i' and getattr(self, 'inloop', False) and a is self.arr and k.off + self.widx == 0:
                    self.written = self.cast(v, 32, False)
                    return
                raise BVUnsupported('array write')
        return super().assign(t, v, loc, mod)

    # ------------------------------------------------------------ the filling loop
    def hook(self, s, it, loc, mod):
        lo, hi = (0, it[1]) if len(it) == 2 else it[1:3]
        if len(it) > 3 or not isinstance(lo, int) or not isinstance(hi, Lin) or hi.base != 'N' or not isinstance(s.target, ast.Name):
            raise BVUnsupported('loop range')
        arrs = {id(v): v for v in loc.values() if isinstance(v, States)}
        if len(arrs) != 1:
            raise BVUnsupported('one array expected')
        a = list(arrs.values())[0]
        if a.first is None or a.done:
            raise BVUnsupported('loop over an unset array')
        # element written at index i must be 1 at the first and N-1 at the last iteration
        c = 1 - lo
        if hi.off - 1 + c != -1:
            raise BVUnsupported('the loop does not cover 1..N-1')
        assigned = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - {s.target.id}
        carried = [v for v in assigned if v in loc]
        X = z3.BitVec('X', 32)
        keep = {}
        for v in carried:
            w = loc[v]
            if isinstance(w, U) and valid(self.wide(w) == self.wide(a.first))[0] == 'discharged':
                keep[v] = (w.w, w.signed)
        self.arr, self.widx, self.X0 = a, -c, X
        key = (ast.dump(s), tuple(sorted(keep.items())), self.mode, tuple(sorted((k, repr(v)) for k, v in loc.items() if isinstance(v, int))))
        if key not in CACHE:
            CACHE[key] = self.induct(s, loc, mod, keep, a)
        self.steps.append(CACHE[key])
        a.done = True

    def induct(self, s, loc, mod, keep, a):
        base = {k: v for k, v in loc.items()}
        assigned = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - {s.target.id}
        todo, seen, obl = [dict(keep)], [], []
        t0 = time.time()
        nq = 0
        while todo:
            sig = todo.pop()
            if sig in seen:
                continue
            seen.append(sig)
            if len(seen) > 6:
                raise BVUnsupported('types of the carried variables do not settle')
            nxt = None
            for k in range(1, 33):
                for t in range(0, 32 - k):
                    m = t + k + 1
                    P = z3.BitVec('P', 32 - m) if m < 32 else None
                    cat = lambda low: z3.Concat(P, z3.BitVecVal(low, m)) if P is not None else z3.BitVecVal(low, 32)
                    x = cat(((1 << k) - 1) << t)
                    want = cat((1 << (m - 1)) | ((1 << (k - 1)) - 1))
                    self.X0, self.pc, self.div_obl = x, [], []
                    def body():
                        self.inloop, self.written = True, None
                        l2 = {q: v for q, v in base.items() if q not in assigned}
                        for q, (w, sg) in sig.items():
                            l2[q] = U(z3.ZeroExt(w - 32, x) if w > 32 else x, w, sg)
                        l2[s.target.id] = Lin('i')
                        try:
                            self.block(s.body, l2, mod)
                        finally:
                            self.inloop = False
                        if self.written is None:
                            raise BVUnsupported('nothing written')
                        return self.written, {q: l2.get(q) for q in sig}
                    dec = (getattr(self, 'dec', None), getattr(self, 'pos', 0), getattr(self, 'pc2', []), getattr(self, 'fork', None))
                    try:
                        ps = self.paths(body)
                    finally:
                        self.dec, self.pos, self.pc2, self.fork = dec
                    for pc, kind, v in ps:
                        if kind != 'ok':
                            raise BVUnsupported('the step raises %s' % v)
                        w, car = v
                        sg2 = {q: (c.w, c.signed) for q, c in car.items() if isinstance(c, U)}
                        if nxt is None:
                            nxt = sg2
                        if nxt != sg2:
                            raise BVUnsupported('types differ between paths')
                        claims = [('next word', w.e == want)] + [('carried %s' % q, self.wide(c) == z3.ZeroExt(34, w.e)) for q, c in car.items() if isinstance(c, U)]
                        claims += [('exact division', z3.Implies(z3.And(*dpc) if dpc else z3.BoolVal(True), c)) for dpc, c in self.div_obl]
                        for nm, cl in claims:
                            nq += 1
                            st, d = ('discharged', '') if z3.is_true(z3.simplify(cl)) else valid(cl, list(pc))
                            if st != 'discharged':
                                if nm != 'next word' and st == 'refuted':
                                    raise BVUnsupported('%s is not preserved (run of %d ones above %d zeros)' % (nm, k, t))
                                return [('step', st, '%s: word with a run of %d ones above %d zeros: %s' % (nm, k, t, d))], nq, time.time() - t0
            if nxt is None:
                raise BVUnsupported('no step')
            todo.append(nxt)
        return [('step', 'discharged', '%d bit-vector conditions, carried-variable types %s' % (nq, seen))], nq, time.time() - t0


CACHE = {}


def table(root):
    """binom values of the installed scipy for 0 <= n <= 64, -2 <= p <= n + 2 (hexadecimal floats)"""
    code = ("import sys, json, math; from scipy.special import binom\n"
            "print(json.dumps({'%d,%d' % (n, p): float(binom(n, p)).hex() for n in range(65) for p in range(-2, n + 3)}))")
    r = subprocess.run(['/opt/venv/bin/python', '-c', code], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120,
                       cwd='/', env={'PATH': '/usr/bin:/bin'})
    Ex.table = json.loads(r.stdout.strip().splitlines()[-1])


for _mode in ('numpy', 'numba'):
    @vc('generate_states, permutations [%s integers]' % _mode, S + ':generate_states')
    def _(g, mode=_mode):
        import math
        table(g.root)
        X = Ex(g.root, mode)
        m = X.mod(S)
        t0 = time.time()
        n_ok = 0
        for n in range(0, 33):
            for p in range(n + 1):
                try:
                    ps = X.paths(lambda: X.call(m['generate_states'], n, p))
                except BVUnsupported as e:
                    g.add('generate_states(n, p) sets up and fills the basis', 'undecided', '', time.time() - t0, 'n=%d p=%d: %s' % (n, p, e))
                    return
                if len(ps) != 1 or ps[0][1] != 'ok' or not isinstance(ps[0][2], States):
                    g.add('generate_states(n, p) returns the array', 'undecided', '', time.time() - t0, 'n=%d p=%d: %r' % (n, p, [q[1:] for q in ps]))
                    return
                a = ps[0][2]
                if a.count != math.comb(n, p):
                    g.add('the array has C(n,p) entries', 'refuted', 'evaluation', time.time() - t0, 'n=%d p=%d: %r entries, C(n,p)=%d' % (n, p, a.count, math.comb(n, p)))
                    return
                st, d = valid(a.first.e == z3.BitVecVal((1 << p) - 1, 32)) if a.first is not None else ('undecided', 'first entry not set')
                if st != 'discharged':
                    g.add('the first word is the smallest one', st, 'z3 QF_BV', time.time() - t0, 'n=%d p=%d: %s' % (n, p, d))
                    return
                if not a.done and a.count > 1:
                    g.add('the filling loop runs over entries 1..N-1', 'undecided', '', time.time() - t0, 'n=%d p=%d' % (n, p))
                    return
                n_ok += 1
        g.add('the array has C(n,p) entries of 32-bit unsigned type', 'discharged', 'evaluation of the source with the installed binom', time.time() - t0, '%d pairs (n,p), n <= 32' % n_ok)
        g.add('the first word is the smallest one, (1<<p)-1', 'discharged', 'z3 QF_BV', 0., '%d pairs' % n_ok)
        g.add('the filling loop writes entry i from entry i-1, for i = 1..N-1', 'discharged', 'induction over the loop', 0., 'invariant: carried variables equal states[i-1]')
        done = set()
        for st in X.steps:
            if id(st) in done:
                continue
            done.add(id(st))
            for nm, s_, d in st[0]:
                g.add('loop step maps P 0 1^k 0^t to P 1 0^(t+1) 1^(k-1), every k, t and prefix P, width 32', s_, 'z3 QF_BV', st[2], d)
        g.extra += sorted(X.seen)


@vc('the step is the next larger word with as many bits (lemma)', S)
def _(g):
    t0 = time.time()
    nq = 0
    for k in range(1, 33):
        for t in range(0, 32 - k):
            m = t + k + 1
            L = z3.BitVec('L', m)
            lo, hi = ((1 << k) - 1) << t, (1 << (m - 1)) | ((1 << (k - 1)) - 1)
            if bin(lo).count('1') != bin(hi).count('1') or not lo < hi:
                g.add('same number of bits, larger', 'refuted', 'evaluation', 0., (k, t))
                return
            st, d = valid(z3.Not(z3.And(z3.UGT(L, lo), z3.ULT(L, hi))), [popcount(L, m) == k], 30000)
            nq += 1
            if st != 'discharged':
                g.add('no word with k bits lies between', st, 'z3 QF_BV', time.time() - t0, '%r %s' % ((k, t), d))
                return
    g.add('no word with as many bits lies strictly between a word and its image', 'discharged', 'z3 QF_BV', time.time() - t0, '%d pairs (k, t)' % nq)


def nolimit():
    import resource
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))


@vc('counting lemma (Lean)', S)
def _(g):
    t0 = time.time()
    f = os.path.join(HERE, 'lemmas', 'Enumeration.lean')
    try:
        r = subprocess.run(['lean', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100, cwd='/tmp', preexec_fn=nolimit)
        ok = r.returncode == 0 and 'error' not in r.stdout and 'sorry' not in r.stdout and 'sorry' not in open(f).read()
        out = r.stdout[-500:]
    except Exception as e:
        ok, out = False, str(e)
    for nm in ('starting at the minimum and moving to the next larger element card-1 times enumerates the set in order (theorem enumerates)',
               'the set of words with p of n bits has C(n,p) elements (theorem card_words)'):
        g.add(nm, 'discharged' if ok else 'undecided', 'Lean 4 + Mathlib', time.time() - t0, out)


@vc('get_sector_dim', S + ':get_sector_dim')
def _(g):
    import math
    table(g.root)
    X = Ex(g.root, 'numpy')
    f = X.mod(S)['get_sector_dim']
    t0 = time.time()
    k = 0
    for n in range(33):
        for p in range(n + 1):
            for q in range(n + 1):
                try:
                    ps = X.paths(lambda: X.call(f, n, p, q))
                except BVUnsupported as e:
                    g.add('product of the two binomials', 'undecided', '', 0., str(e))
                    return
                if len(ps) != 1 or ps[0][1] != 'ok' or not isinstance(ps[0][2], int) or ps[0][2] != math.comb(n, p) * math.comb(n, q):
                    g.add('product of the two binomials', 'refuted' if len(ps) == 1 and ps[0][1] == 'ok' and isinstance(ps[0][2], (int, float)) else 'undecided',
                          'evaluation', time.time() - t0, '(%d,%d,%d): %r' % (n, p, q, [x[1:] for x in ps]))
                    return
                k += 1
    g.add('product of the two binomials, exactly, for every n <= 32', 'discharged', 'complete evaluation of the source with the installed binom', time.time() - t0, '%d triples' % k)
    g.extra += sorted(X.seen)


E_ = 'edpyt.espace'


def C(n, p):
    return T.app('C', lift(n), lift(p), sort='I')


def gs(I, f, args, kw):
    """contract of generate_states: C(n,p) words W(n,p,0..)"""
    n, p = [lift(x) for x in args]
    return new((C(n, p),), lambda i: T.app('W', n, p, i, sort='I'), 'U')


def gd(I, f, args, kw):
    n, p, q = args
    return C(n, p) * C(n, q)


def under(g):
    g.I.contracts['generate_states'] = gs
    g.I.contracts['get_sector_dim'] = gd
    g.I.contracts['binom'] = lambda I, f, a, kw: C(a[0], a[1][0] if isinstance(a[1], tuple) else a[1])
    g.assume('callees by contract: generate_states, get_sector_dim, binom (each decided by its own obligations for n <= 32)')


def words(g, what, a, n, p):
    g.array(what, a, (C(n, p),), lambda i: T.app('W', lift(n), lift(p), i, sort='I'))


@vc('build_empty_sector', E_ + ':build_empty_sector')
def _(g):
    under(g)
    n, p, q = T.var('n'), T.var('p'), T.var('q')
    g.pre(T.cmp_le(1, n), in_range((p, q), (n + 1, n + 1)), T.cmp_le(1, C(n, p)), T.cmp_le(1, C(n, q)))
    f = g.fnc(E_, 'build_empty_sector')
    r = g.call(f, n, p, q)
    ga = lambda o, a: g.I.getattr(o, a)
    g.eq('(nup, ndw): dimension C(n,nup) C(n,ndw)', ga(r, 'd'), C(n, p) * C(n, q))
    words(g, '(nup, ndw): up basis', ga(ga(r, 'states'), 'up'), n, p)
    words(g, '(nup, ndw): down basis', ga(ga(r, 'states'), 'dw'), n, q)
    g.same('no eigenpairs yet', ga(r, 'eigvals') is None and ga(r, 'eigvecs') is None)
    N = T.var('N')
    g.pre(T.cmp_le(1, n), in_range((N,), (2 * n + 1,)), T.cmp_le(1, C(2 * n, N)))
    r = g.call(f, n, N)
    g.eq('N: dimension C(2n,N)', ga(r, 'd'), C(2 * n, N))
    words(g, 'N: basis over 2n spin orbitals', ga(r, 'states'), 2 * n, N)


for _m in (None, 'given'):
    for _sy in ('sz', 'N'):
        @vc('get_espace_dim, %s, neig_max %s' % (_sy, _m), E_ + ':get_espace_dim')
        def _(g, mx=_m, sy=_sy):
            under(g)
            n, m = T.var('n'), T.var('m')
            g.pre(T.cmp_le(1, n), T.cmp_le(1, m))
            a = g.call(g.fnc(E_, 'get_espace_dim'), n, m if mx else None, sy)
            clip = (lambda x: ite(T.cmp_le(x, m), x, m)) if mx else (lambda x: x)
            if sy == 'sz':
                if g.shape('(n+1)^2 sectors', a, ((n + 1) * (n + 1),)):
                    p, q = T.fresh('p'), T.fresh('q')
                    g.eq('entry nup*(n+1)+ndw', a.get(p * (n + 1) + q), clip(C(n, p) * C(n, q)), in_range((p, q), (n + 1, n + 1)))
            else:
                g.array('entry N', a, (2 * n + 1,), lambda k: clip(C(2 * n, k)))


for _sy in ('sz', 'N'):
    @vc('_%s_iter_sectors' % _sy, E_ + ':_%s_iter_sectors' % _sy)
    def _(g, sy=_sy):
        under(g)
        n = T.var('n')
        ga = lambda o, a: g.I.getattr(o, a)
        gen = g.fnc(E_, '_%s_iter_sectors' % sy)
        g.bounded.append('_%s_iter_sectors: number of sites 1..4, contents symbolic' % sy)
        for N in range(1, 5):
            g.I.pc = []
            it = g.do(lambda: list(g.I.seq(g.I.call(gen, [N]))))
            keys = []
            for q, sct in it:
                q = tuple(lift(x).cval() for x in q)
                keys.append(q)
                if sy == 'sz':
                    g.eq('n=%d sector %s: dimension' % (N, q), ga(sct, 'd'), C(N, q[0]) * C(N, q[1]))
                    words(g, 'n=%d sector %s: up' % (N, q), ga(ga(sct, 'states'), 'up'), N, q[0])
                    words(g, 'n=%d sector %s: down' % (N, q), ga(ga(sct, 'states'), 'dw'), N, q[1])
                else:
                    g.eq('n=%d sector %s: dimension' % (N, q), ga(sct, 'd'), C(2 * N, q[0]))
                    words(g, 'n=%d sector %s: basis' % (N, q), ga(sct, 'states'), 2 * N, q[0])
            want = [(a, b) for a in range(N + 1) for b in range(N + 1)] if sy == 'sz' else [(a,) for a in range(2 * N + 1)]
            g.same('n=%d: every sector once' % N, keys == want, keys)
