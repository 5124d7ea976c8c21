"""Discharging obligations: canonical forms first, then bracket reasoning with z3, case splits, numeric refutation."""
import time
import random
from fractions import Fraction
import z3
from . import terms as T
from .terms import Poly, B, lift, band, bnot


class Solver:
    def __init__(self, timeout=400):
        self.gfacts = []
        self.timeout = timeout
        self.cache = {}
        self.facts = []            # functions atom -> list of B (contract facts about an application)
        self.consts = {}
        self.ncalls = 0
        self.time = 0.
        self.s = None

    # ------------------------------------------------------------ translation
    def zpoly(self, p, fx):
        real = p.sort != 'I' or any(isinstance(c, Fraction) for c in p.t.values())
        acc = []
        for m, c in p.t.items():
            x = z3.RealVal(str(c)) if isinstance(c, Fraction) else z3.IntVal(c)
            for a, e in m:
                v = self.zatom(a, fx)
                if e < 0:
                    v = 1 / z3.ToReal(v) if v.is_int() else 1 / v
                    e = -e
                for _ in range(e):
                    x = x * v if not (z3.is_int_value(x) and x.as_long() == 1) else v
            acc.append(x)
        if not acc:
            return z3.IntVal(0)
        return z3.Sum(acc) if len(acc) > 1 else acc[0]

    def zatom(self, a, fx):
        k = a.kind
        if k == 'Iv':
            return z3.If(self.zbool(a, fx), z3.IntVal(1), z3.IntVal(0))
        r = self.consts.get(a)
        if r is None:
            if a.sort == 'I' and k in ('Var', 'App', 'Sum', 'Div', 'Mod'):
                r = z3.Int('a%d' % a.uid)
            else:
                r = z3.Real('a%d' % a.uid)
            self.consts[a] = r
        if a not in fx:
            fx[a] = []
            if T.is_01_atom(a):
                fx[a].append(z3.And(r >= 0, r <= 1))
            if k == 'App' and a.args[0] in T.PM1:
                fx[a].append(z3.Or(r == 1, r == -1))
            if k in ('Div', 'Mod'):
                q = self.zpoly(a.args[1], fx)
                pp = self.zpoly(a.args[0], fx)
                if k == 'Div':
                    fx[a].append(z3.Implies(q > 0, z3.And(q * r <= pp, pp < q * r + q)))
                else:
                    fx[a].append(z3.Implies(q > 0, z3.And(r >= 0, r < q)))
            if k == 'Sum' and a.sort == 'I' and _nonneg(a.args[1]):
                fx[a].append(r >= 0)
            if k == 'App' and a.args[0] in NONNEG:
                fx[a].append(r >= 0)
            if k == 'App' and a.args[0] == 'abs' and len(a.args) == 2 and isinstance(a.args[1], Poly) and a.args[1].sort != 'C':
                x = self.zpoly(a.args[1], fx)
                fx[a].append(z3.And(r >= x, r >= -x, z3.Or(r == x, r == -x)))
            if k == 'App' and a.args[0] in POSITIVE:
                fx[a].append(r > 0)
            for f in self.facts:
                for b in f(a) or ():
                    fx[a].append(self.zb(b, fx))
        return r

    def zbool(self, a, fx):
        kind, p = a.args
        if kind == 'b':
            return self.zpoly(p, fx) != 0
        x = self.zpoly(p, fx)
        return x <= 0 if kind == 'le' else x < 0 if kind == 'lt' else x == 0

    def zb(self, b, fx):
        if b.op == 'c':
            return z3.BoolVal(b.args)
        if b.op == 'a':
            return self.zbool(b.args, fx)
        if b.op == 'not':
            return z3.Not(self.zb(b.args, fx))
        f = z3.And if b.op == 'and' else z3.Or
        return f(*[self.zb(x, fx) for x in b.args])

    # ------------------------------------------------------------ queries
    def unsat(self, bs):
        """True if the conjunction is unsatisfiable (False: satisfiable or unknown)"""
        bs = [b for b in bs if not (b.op == 'c' and b.args)]
        if any(b.op == 'c' for b in bs):
            return True
        if not bs:
            return False
        bs = bs + self.gfacts
        key = tuple(sorted(repr_key(b) for b in bs))
        r = self.cache.get(key)
        if r is not None:
            return r
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        fx = {}
        for b in bs:
            s.add(self.zb(b, fx))
        done = set()
        while len(done) < len(fx):
            for a in list(fx):
                if a not in done:
                    done.add(a)
                    for c in fx[a]:
                        s.add(c)
        r = s.check() == z3.unsat
        self.ncalls += 1
        self.time += time.time() - t
        self.cache[key] = r
        return r

    def relevant(self, pc, c):
        return pc

    def implied(self, pc, c):
        if c.op == 'c':
            return c.args
        return self.unsat(list(pc) + [bnot(c)])

    def sat(self, bs):
        s = z3.Solver()
        s.set('timeout', 5000)
        fx = {}
        for b in bs:
            s.add(self.zb(b, fx))
        for a in list(fx):
            for c in fx[a]:
                s.add(c)
        return s.check() == z3.sat

    # ------------------------------------------------------------ simplification under a context
    def simplify_ctx(self, p, pc):
        """Div/Mod with operands in range, decided brackets"""
        if not isinstance(p, Poly) or not any(_has_divmod(a) for a in p.atoms()):
            return p
        return self.simp(p, list(pc), divmod_only=True)

    def simp(self, p, pc, divmod_only=False):
        acc = T.ZERO
        for m, c in p.t.items():
            acc = acc + self.simp_mono(m, pc, divmod_only) * c
        return Poly(acc.t, T.jsort(acc.sort, p.sort)) if acc.sort != p.sort else acc

    def simp_mono(self, m, pc, dm):
        ivs = [(a, e) for a, e in m if a.kind == 'Iv']
        rest = [(a, e) for a, e in m if a.kind != 'Iv']
        ctx = list(pc)
        res = T.ONE
        if not dm:
            # decide brackets: each one in the context of the others
            w = self.window([a for a, e in ivs], pc)
            if w:
                q = w[2].poly()
                for a, e in m:
                    if a is not w[0] and a is not w[1]:
                        q = q * _pw(a, e)
                return self.simp(q, pc)
            keep = list(ivs)
            for a, e in ivs:
                b = B('a', a)
                others = [B('a', x) for x, _ in keep if x is not a]
                if self.implied(pc + others, b):
                    keep = [x for x in keep if x[0] is not a]
                elif self.implied(pc + others, bnot(b)):
                    return T.ZERO
            out = []
            for a, e in keep:
                b = self.simp_iv(a, pc + [B('a', x) for x, _ in keep if x is not a])
                out.append(b)
            q = T.ONE
            for b in out:
                q = q * b
            res = q
            ctx = pc + [B('a', a) for a, _ in keep]
            if len(q.t) != 1 or any(a.kind != 'Iv' for mm in q.t for a, _ in mm):
                r2 = T.ONE
                for a, e in rest:
                    r2 = r2 * _pw(a, e)
                return q * r2
        else:
            for a, e in ivs:
                res = res * Poly.atom(a)
            ctx = pc + [B('a', a) for a, _ in ivs]
        for a, e in rest:
            s = self.simp_atom(a, ctx, dm)
            res = res * (s ** e if e >= 0 else T.inv(s) ** (-e))
            if res.is_zero():
                return res
        return res

    def simp_iv(self, a, ctx):
        kind, p = a.args
        if kind == 'eq':
            r = self.radix(p, ctx)
            if r is not None:
                return band(*[T.mk_iv('eq', x) for x in r]).poly()
        if any(_has_divmod(x) for x in p.atoms()):
            q = self.simp(p, ctx, True)
            if q != p:
                return (T.bool_of_poly(q) if kind == 'b' else T.mk_iv(kind, q)).poly()
        elif kind != 'b' and any(x.kind == 'Sum' for x in p.atoms()):
            q = self.simp(p, ctx)
            if q != p:
                return T.mk_iv(kind, q).poly()
        return Poly.atom(a)

    def radix(self, p, ctx):
        """r + D*q == 0 with |r| < D  ->  r == 0 and q == 0"""
        cands = set()
        for m, c in p.t.items():
            if len(m) >= 2:
                for a, e in m:
                    if a.sort == 'I' and e == 1:
                        cands.add(a)
        for D in cands:
            q, r = {}, {}
            ok = True
            for m, c in p.t.items():
                d = dict(m)
                if D in d:
                    if d[D] != 1:
                        ok = False
                    d.pop(D)
                    q[tuple(sorted(d.items(), key=lambda z: z[0].uid))] = c
                else:
                    r[m] = c
            if not ok or not r:
                continue
            q, r = Poly(q, 'I'), Poly(r, 'I')
            Dp = Poly.atom(D)
            if self.implied(ctx, T.cmp_lt(r, Dp)) and self.implied(ctx, T.cmp_lt(-Dp, r)):
                return [r, q]
        return None

    def window(self, ivs, ctx):
        """D*y <= r and r < D*y + D with 0 <= r < D known  <=>  y == 0: replaces the pair of brackets"""
        les = [a for a in ivs if a.args[0] == 'le']
        for a in les:
            for b in les:
                if a is b:
                    continue
                D = T.ONE - (a.args[1] + b.args[1])
                if D.is_const():
                    continue
                # an atom that occurs in D alone and with coefficient one
                for Da in [m[0][0] for m, c in D.t.items() if c == 1 and len(m) == 1 and m[0][1] == 1]:
                    if sum(1 for m in D.t for x, e in m if x is Da) == 1:
                        break
                else:
                    continue
                y = {}
                ok = True
                for mm, c in a.args[1].t.items():
                    d = dict(mm)
                    if Da in d:
                        if d[Da] != 1:
                            ok = False
                        d.pop(Da)
                        y[tuple(sorted(d.items(), key=lambda z: z[0].uid))] = c
                if not ok or not y:
                    continue
                y = Poly(y, 'I')
                r = D * y - a.args[1]
                if self.implied(ctx, band(T.cmp_le(0, r), T.cmp_lt(r, D))):
                    return a, b, T.mk_iv('eq', y)
        return None

    def simp_atom(self, a, ctx, dm):
        k = a.kind
        if k in ('Div', 'Mod'):
            r = self.simp(a.args[0], ctx, dm)
            q = self.simp(a.args[1], ctx, dm)
            if self.implied(ctx, band(T.cmp_le(0, r), T.cmp_lt(r, q))):
                return T.ZERO if k == 'Div' else r
            return T.floordiv(r, q) if k == 'Div' else T.mod(r, q)
        if k == 'Sum' and not (dm and not _has_divmod(a)):
            nb, m = a.args
            fr = [T.fresh('s') for _ in range(nb)]
            body = T.subst(Poly({m: 1}, a.sort), dict(zip(T.bvars(a), fr)))
            body2 = self.simp_open(body, ctx, dm, [T.the_var(f) for f in fr])
            if body2 is body:
                return Poly.atom(a)
            for f in fr:
                try:
                    body2 = T.mk_sum_raw(T.the_var(f), body2)
                except ValueError:
                    return Poly.atom(a)
            return body2
        if k == 'App' and len(a.args) > 1:
            args = [self.simp(x, ctx, dm) for x in a.args[1:]]
            if all(x == y for x, y in zip(args, a.args[1:])):
                return Poly.atom(a)
            if a.args[0] in T.REBUILD:
                return T.REBUILD[a.args[0]](*args)
            return T.app(a.args[0], *args, sort=a.sort)
        if k == 'Inv':
            return T.inv(self.simp(a.args[0], ctx, dm))
        if k in ('Re', 'Im'):
            q = self.simp(Poly({a.args[0]: 1}, 'C'), ctx, dm)
            return T.re_(q) if k == 'Re' else T.im_(q)
        return Poly.atom(a)

    def simp_open(self, body, ctx, dm, bound):
        """simplify a sum body; brackets on the binders are kept unless redundant with the others"""
        acc = T.ZERO
        for m, c in body.t.items():
            if dm:
                acc = acc + self.simp_mono(m, ctx, dm) * c
                continue
            ivs = [a for a, e in m if a.kind == 'Iv']
            w = self.window(ivs, ctx)
            if w:
                q = w[2].poly()
                for a, e in m:
                    if a is not w[0] and a is not w[1]:
                        q = q * _pw(a, e)
                acc = acc + self.simp_open(q, ctx, dm, bound) * c
                continue
            keep = list(ivs)
            zero = False
            for a in ivs:
                others = [B('a', x) for x in keep if x is not a]
                b = B('a', a)
                if self.implied(ctx + others, bnot(b)):
                    zero = True
                    break
                if self.implied(ctx + others, b) and not _needed(a, keep, bound):
                    keep.remove(a)
            if zero:
                continue
            q = T.ONE
            cc = ctx + [B('a', x) for x in keep]
            for a in keep:
                q = q * self.simp_iv(a, ctx + [B('a', x) for x in keep if x is not a])
            for a, e in m:
                if a.kind == 'Iv':
                    continue
                s = self.simp_atom(a, cc, dm)
                q = q * (s ** e if e >= 0 else T.inv(s) ** (-e))
            acc = acc + q * c
        return Poly(acc.t, T.jsort(acc.sort, body.sort))

    # ------------------------------------------------------------ proving p == 0
    def iszero(self, p, pc=(), depth=6, tlimit=20.):
        p = lift(p)
        if p.is_zero():
            return True
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if all(a.kind == 'Iv' and a.args[0] != 'b' for a, e in m) and not self.unsat(list(pc) + [B('a', a) for a, e in m]):
                return False        # a product of brackets that can all hold
        try:
            return bool(self._zero(p, list(pc), depth, time.time() + tlimit))
        except RecursionError:
            return False

    def zero(self, p, pc=(), depth=6, tlimit=20.):
        """-> (status, back end, detail)"""
        end = time.time() + tlimit
        p = lift(p)
        if p.is_zero():
            return 'discharged', 'canonical form', ''
        for b in list(pc):          # an equality that holds: one side stands for the other
            if b.op == 'a' and b.args.kind == 'Iv' and b.args.args[0] == 'eq' and isinstance(b.args.args[1], Poly):
                s = T.solve_eq(b.args.args[1])
                if s is not None and s[0] in p.vars():
                    env = {s[0]: s[1]}
                    p = T.subst(p, env)
                    pc = list(pc) + [T.bool_of_poly(T.subst(c.poly(), env)) for c in pc if c is not b and s[0] in c.vars()]
        if p.is_zero():
            return 'discharged', 'canonical form', ''
        try:
            r = self._zero(p, list(pc), depth, end)
        except RecursionError:
            r = False
        if r:
            return 'discharged', 'canonical form + z3', ''
        m = refute(p, pc, self) if not self.gfacts else None
        if m is not None:
            return 'refuted', 'evaluation', m
        return 'undecided', '', ('difference: %r' % (p,))[:9000]

    def _split(self, p, pc, depth, end):
        if p.is_zero():
            return True
        if time.time() > end:
            return False
        n = {}
        for m in p.t:
            cs = {}
            for a, e in m:
                _free_ivs(a, cs)
            for a in cs:
                n[a] = n.get(a, 0) + 1
        a = max(n, key=lambda a: (n[a], -a.uid), default=None)
        if a is None or depth == 0:
            return self._zero(p, pc, 2, end)
        b = B('a', a)
        for c, val in ((b, 1), (bnot(b), 0)):
            if not self.unsat(pc + [c]) and not self._split(assume(p, a, val), pc + [c], depth - 1, end):
                return False
        return True

    def _zero(self, p, pc, depth, end):
        cs = {}
        for m in p.t:
            for a, e in m:
                _free_ivs(a, cs)
        for a in cs:            # an equality that holds here: one side stands for the other everywhere
            if a.args[0] == 'eq' and self.implied(pc, B('a', a)):
                p = assume(p, a, 1)
        if len(p.t) > 6:
            # many terms: open a common outer sum and split cases before the terms are simplified one by one
            for up in _uppers(p):
                r = _strip(p, up)
                if r is not None:
                    x, q = r
                    if self._split(q, pc + [T.cmp_le(0, x), T.cmp_lt(x, up)], 6, end):
                        return True
        for _ in range(4):
            q = self.simp(p, pc)
            if q.is_zero():
                return True
            if q == p:
                break
            p = q
            if time.time() > end:
                return False
        if _cleared(p):
            return True
        if self.unsat(pc):
            return True
        if depth == 0 or time.time() > end:
            return False
        # case split on a free bracket, equalities first
        cs = {}
        for m in p.t:
            for a, e in m:
                _free_ivs(a, cs)
        cs = sorted(cs, key=lambda a: ({'eq': 0, 'b': 1}.get(a.args[0], 2), a.uid))
        for a in cs[:1]:
            b = B('a', a)
            ok = True
            for c, val in ((b, 1), (bnot(b), 0)):
                q = assume(p, a, val)
                pc2 = pc + [c]
                if self.unsat(pc2):
                    continue
                if not self._zero(q, pc2, depth - 1, end):
                    ok = False
                    break
            return ok
        # a sum over a common range vanishes when its terms do
        for up in _uppers(p):
            r = _strip(p, up)
            if r is not None:
                x, q = r
                return self._zero(q, pc + [T.cmp_le(0, x), T.cmp_lt(x, up)], depth, end)
        return False


def _sums(m):
    return [a for a, e in m if a.kind == 'Sum' and e == 1]


def _range(a, v):
    """upper bound when the brackets of the sum on its binder v include 0 <= v < upper; the bound is free of binders"""
    lo, up = False, None
    for x, e in a.args[1]:
        if x.kind == 'Iv' and x.args[0] == 'le' and v in x.vars():
            c = x.args[1].t.get(((v, 1),), 0)
            r = x.args[1] - Poly.atom(v) * c
            if v in r.vars():
                continue
            if c == -1 and r.is_zero():
                lo = True
            elif c == 1 and not any(y.args[0].startswith('_b') for y in r.vars()):
                up = 1 - r
    return up if lo else None


def _uppers(p):
    out = {}
    for m in list(p.t)[:1]:
        for a in _sums(m):
            for v in T.bvars(a):
                u = _range(a, v)
                if u is not None:
                    out[u] = 1
    return list(out)


def _strip(p, up):
    x = T.fresh('k')
    acc = T.ZERO
    for m, c in p.t.items():
        hits = [(a, v) for a in _sums(m) for v in T.bvars(a) if _range(a, v) == up]
        if len(hits) != 1:
            return None
        (a, v), = hits
        nb, mm = a.args
        keep = tuple((y, e) for y, e in mm if not (y.kind == 'Iv' and y.args[0] == 'le' and v in y.vars()
                     and (y.args[1] == -Poly.atom(v) or y.args[1] == Poly.atom(v) + 1 - up)))
        fr = {b: (x if b is v else T.fresh('s')) for b in T.bvars(a)}
        body = T.subst(Poly({keep: 1}, a.sort), fr)
        for b in T.bvars(a):
            if b is not v:
                body = T.mk_sum_raw(T.the_var(fr[b]), body)
        rest = Poly({tuple((y, e) for y, e in m if y is not a): c}, p.sort)
        acc = acc + rest * body
    return x, acc


def _cleared(p):
    """p vanishes after multiplication by its denominators (where they are defined they are not zero)"""
    dens = {a for m in p.t for a, e in m if a.kind == 'Inv'}
    if not dens or len(dens) > 6:
        return False
    for a in sorted(dens, key=lambda a: a.uid):
        K = max(dict(m).get(a, 0) for m in p.t)
        by = {}
        for m, c in p.t.items():
            k = dict(m).get(a, 0)
            by.setdefault(k, {})[tuple(x for x in m if x[0] is not a)] = c
        if min(by) < 0 or K > 4:
            return False
        q = a.args[0]
        r = lift(0)
        for k, t in by.items():
            r = r + Poly(t, p.sort) * q ** (K - k)
            if len(r.t) > 400:
                return False
        p = r
        if p.is_zero():
            return True
    return False


def _pw(a, e):
    return Poly({((a, e),): 1}, a.sort if e > 0 or a.sort != 'I' else 'R')


def assume(p, iv, val):
    """replace the bracket everywhere by its value (and solve equalities)"""
    q = _repl(p, iv, val)
    if val and iv.args[0] == 'eq':
        s = T.solve_eq(iv.args[1])
        if s is not None:
            q = T.subst(q, {s[0]: s[1]})
    return q


def _repl(p, iv, val):
    acc = T.ZERO
    comp = None
    b = bnot(B('a', iv))
    if b.op == 'a':
        comp = b.args
    for m, c in p.t.items():
        q = Poly.const(c)
        for a, e in m:
            if a is iv:
                q = q * val
            elif a is comp:
                q = q * (1 - val)
            elif a.kind == 'Sum' and _mentions(a, iv, comp):
                nb, mm = a.args
                fr = [T.fresh('s') for _ in range(nb)]
                body = T.subst(Poly({mm: 1}, a.sort), dict(zip(T.bvars(a), fr)))
                body = _repl(body, iv, val)
                for f in fr:
                    body = T.mk_sum_raw(T.the_var(f), body)
                q = q * body ** e
            elif a.kind == 'App' and any(isinstance(x, Poly) and any(_mentions(y, iv, comp) for y in x.atoms()) for x in a.args):
                args = [_repl(x, iv, val) for x in a.args[1:]]
                s = T.REBUILD[a.args[0]](*args) if a.args[0] in T.REBUILD else T.app(a.args[0], *args, sort=a.sort)
                q = q * (s ** e if e >= 0 else T.inv(s) ** -e)
            elif a.kind == 'Inv' and any(_mentions(y, iv, comp) for y in a.args[0].atoms()):
                q = q * T.inv(_repl(a.args[0], iv, val)) ** e
            else:
                q = q * _pw(a, e)
            if q.is_zero():
                break
        acc = acc + q
    return Poly(acc.t, T.jsort(acc.sort, p.sort))


def _mentions(a, iv, comp):
    if a is iv or a is comp:
        return True
    k = a.kind
    if k == 'Sum':
        return any(_mentions(x, iv, comp) for x, _ in a.args[1])
    if k in ('Re', 'Im'):
        return any(_mentions(x, iv, comp) for x, _ in a.args[0])
    return any(isinstance(x, Poly) and any(_mentions(y, iv, comp) for y in x.atoms()) for x in a.args)


def _free_ivs(a, out, bound=False):
    k = a.kind
    if k == 'Iv':
        if not any(v.args[0].startswith('_b') for v in a.vars()):
            out[a] = 1
        return
    if k == 'Sum':
        for x, _ in a.args[1]:
            _free_ivs(x, out)
        return
    if k in ('Re', 'Im'):
        for x, _ in a.args[0]:
            _free_ivs(x, out)
        return
    for x in a.args:
        if isinstance(x, Poly):
            for y in x.atoms():
                _free_ivs(y, out)


def _needed(a, keep, bound):
    """a bracket that is the only lower or upper bound of a binder stays"""
    vs = [v for v in bound if v in a.vars()]
    if not vs:
        return False
    p = a.args[1]
    for v in vs:
        c = p.t.get(((v, 1),), 0)
        if a.args[0] == 'eq':
            return True
        found = False
        for b in keep:
            if b is a or b.args[0] == 'b':
                continue
            cb = b.args[1].t.get(((v, 1),), 0)
            if cb and (cb > 0) == (c > 0):
                found = True
        if not found:
            return True
    return False


def _has_divmod(a):
    k = a.kind
    if k in ('Div', 'Mod'):
        return True
    if k == 'Sum':
        return any(_has_divmod(x) for x, _ in a.args[1])
    if k in ('Re', 'Im'):
        return any(_has_divmod(x) for x, _ in a.args[0])
    return any(isinstance(x, Poly) and any(_has_divmod(y) for y in x.atoms()) for x in a.args)


def _nonneg(m):
    return all(T.is_01_atom(a) or e % 2 == 0 for a, e in m)


NONNEG = set(['abs', 'sqrt', 'exp', 'norm'])
POSITIVE = set(['exp'])


def repr_key(b):
    if b.op == 'c':
        return 'c%s' % b.args
    if b.op == 'a':
        return 'a%d' % b.args.uid
    if b.op == 'not':
        return '!' + repr_key(b.args)
    return '(%s)' % (b.op[0].join(sorted(repr_key(x) for x in b.args)))


# ------------------------------------------------------------------ numeric refutation

INTERP = {}        # name -> numeric interpretation f(*args) for evaluation


def _std():
    import cmath
    import math

    def num(x):
        return complex(*x) if isinstance(x, tuple) else x

    def lim(f):
        def g(x):
            x = num(x)
            if abs(x) > 200:
                raise OverflowError
            return f(x) if isinstance(x, complex) else f(complex(x)).real
        return g

    def sqrt(x):
        x = num(x)
        return cmath.sqrt(x) if isinstance(x, complex) else math.sqrt(x)

    def power(x, y):
        x, y = num(x), num(y)
        r = x ** y
        if isinstance(r, complex) and not isinstance(x, complex):
            raise ValueError
        return r
    INTERP.update(exp=lim(cmath.exp), sinh=lim(cmath.sinh), cosh=lim(cmath.cosh), tanh=lim(cmath.tanh), sqrt=sqrt,
                  abs=lambda x: abs(num(x)), log=lambda x: math.log(x), sign=lambda x: (x > 0) - (x < 0), trunc=lambda x: int(x),
                  bit=lambda x, i: (int(x) >> int(i)) & 1 if i >= 0 else 0,
                  binom=lambda n, k: math.comb(int(n), int(k)) if n >= 0 and k >= 0 else 0, pi=lambda: math.pi)
    INTERP['pow'] = power
    import mpmath
    psi = lambda n, y: complex(mpmath.psi(int(n), mpmath.mpc(.5, y)))
    INTERP.update(psiR=lambda n, y: psi(n, y).real, psiI=lambda n, y: psi(n, y).imag)
    INTERP['pow2'] = lambda n: 2 ** int(n)


_std()
POSINT = set()      # uninterpreted integer functions known to be positive


def refute(p, pc, solver, tries=90, seed=1):
    """random small model of pc in which p is not zero, or None"""
    rs = random.Random(seed)
    vs = set(p.vars())
    for b in pc:
        vs |= b.vars()
    vs = sorted(vs, key=lambda a: a.uid)
    ints = [v for v in vs if v.sort == 'I']
    big = not any(_has_sum(a) for a in p.atoms())
    end = time.time() + 8
    tab = {}
    used = []
    wide = [False]

    def rnd(name, args, sort):
        if args and name in INTERP:
            return INTERP[name](*args)
        key = (name, args)
        if name == 'undef':
            used.append(key)
        if key not in tab:
            if name in T.BITLIKE:
                tab[key] = rs.randint(0, 1)
            elif name in T.PM1:
                tab[key] = rs.choice((-1, 1))
            elif name in POSINT:
                tab[key] = rs.randint(1, 4)
            elif sort == 'I':
                tab[key] = rs.randint(0, 4)
            elif sort == 'C':
                tab[key] = complex(rs.uniform(.2, 2), rs.uniform(.2, 2))
            else:
                tab[key] = rs.uniform(.2, 2) * (1 if name in NONNEG else rs.choice((-1, 1)))
                if wide[0] and rs.random() < .4:
                    tab[key] *= 10 ** rs.uniform(-1.5, 2)
        return tab[key]
    ok = 0
    for t in range(tries):
        if time.time() > end:
            break
        tab.clear()
        used.clear()
        wide[0] = t % 2 == 1
        env = {}
        m = _int_model(pc, ints, solver, rs, rnd, big and t % 3 == 2)
        if m is None:
            continue
        env.update(m)
        try:
            if t % 3 == 2:
                _near(p, env, rnd, rs)
            if not all(_evalb(b, env, rnd) for b in pc):
                continue
            v = T.evaluate(p, env, rnd)
            sc = sum(abs(T.evaluate(Poly({k: c}, p.sort), env, rnd)) for k, c in p.t.items())
        except (T.Undefined, ZeroDivisionError, OverflowError, ValueError, KeyError):
            continue
        ok += 1
        if abs(v) > 1e-7 * (1 + sc):
            if used:
                # a difference counts only when it does not come from memory the model calls uninitialised
                bad = False
                try:
                    for _ in range(3):
                        for k in used:
                            tab.pop(k, None)
                        bad |= not all(_evalb(b, env, rnd) for b in pc) or abs(T.evaluate(p, env, rnd) - v) > 1e-9 * (1 + sc)
                    if bad:
                        continue
                except (T.Undefined, ZeroDivisionError, OverflowError, ValueError, KeyError):
                    continue
            return 'value %s of the difference at %s' % (v, {a.args[0]: env[a] for a in sorted(env, key=lambda a: a.uid) if a in vs})
        if ok >= 24:
            break
    return None


def _near(p, env, rnd, rs):
    """move one real variable so that a condition in p is close to changing"""
    gs = []
    seen = set()

    def walk(a):
        if a in seen:
            return
        seen.add(a)
        if a.kind == 'Iv' and a.args[0] in ('le', 'lt') and any(v.kind == 'Var' and v.sort == 'R' for v in a.args[1].vars()) and \
                not any(_has_sum(x) for x in a.args[1].atoms()):
            gs.append(a)
        for x in a.args:
            if isinstance(x, Poly):
                for y in x.atoms():
                    walk(y)
    for a in p.atoms():
        walk(a)
    if not gs:
        return
    a = rs.choice(sorted(gs, key=lambda a: a.uid))
    q = a.args[1]
    v = rs.choice(sorted((v for v in q.vars() if v.kind == 'Var' and v.sort == 'R'), key=lambda a: a.uid))
    f = []
    for x in (0., 1.):
        env[v] = x
        f.append(T.evaluate(q, env, rnd))
    k = f[1] - f[0]
    if not k:
        env[v] = rs.uniform(-2, 2)
        return
    env[v] = (rs.choice((-1, 1)) * abs(f[0]) * 10 ** rs.uniform(-3, -.3) - f[0]) / k


def _has_sum(a):
    """a sum or recursion, whose evaluation only covers small ranges"""
    if a.kind == 'Sum' or a.kind == 'App' and a.args[0] in T.RECS:
        return True
    for x in a.args:
        if isinstance(x, Poly) and any(_has_sum(y) for y in x.atoms()):
            return True
        if isinstance(x, tuple) and any(_has_sum(y) for y, _ in x):
            return True
    return False


def _int_model(pc, ints, solver, rs, rnd, big=False):
    s = z3.Solver()
    s.set('timeout', 500)
    fx = {}
    for b in pc:
        if all(a.kind == 'Iv' and a.args[1].sort == 'I' and all(x.kind == 'Var' for x in a.args[1].atoms()) for a in b.atoms()):
            s.add(solver.zb(b, fx))
    for v in ints:
        z = solver.zatom(v, fx)
        s.add(z >= -3, z <= (2000 if big else 7))
    for a in list(fx):
        for c in fx[a]:
            s.add(c)
    order = list(ints)
    rs.shuffle(order)
    for v in order:
        s.push()
        s.add(solver.zatom(v, fx) == (rs.choice((0, 1, 2, 3, 50, 51, 101, 150, 500, 1001)) if big else rs.randint(0, 5)))
        if s.check() != z3.sat:
            s.pop()
    if s.check() != z3.sat:
        return None
    m = s.model()
    return {v: m.eval(solver.zatom(v, fx), model_completion=True).as_long() for v in ints}


def _evalb(b, env, rnd):
    if b.op == 'c':
        return b.args
    if b.op == 'a':
        return bool(T.eval_atom(b.args, env, rnd))
    if b.op == 'not':
        return not _evalb(b.args, env, rnd)
    if b.op == 'and':
        return all(_evalb(x, env, rnd) for x in b.args)
    return any(_evalb(x, env, rnd) for x in b.args)
