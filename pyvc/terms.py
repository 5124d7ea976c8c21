"""Terms of the verifier.

Every scalar value of the verified program (integer, real, complex, boolean seen
as 0/1) is a polynomial with rational coefficients over *atoms*:

    Var        free variable                      (sort I, R, C or O)
    App        uninterpreted function / array read
    Iv         Iverson bracket [p <= 0], [p < 0], [p == 0] or [boolean App]
    Sum        finite sum over bound integer variables (multi-binder)
    Inv        multiplicative inverse of a polynomial
    Div, Mod   integer floor division and remainder
    Re, Im     real / imaginary part of a complex monomial
    I          the imaginary unit

Polynomials are kept in a canonical form (bound variables renamed canonically,
sums distributed over monomials, factors free of the bound variable pulled out,
sums over an equality bracket collapsed, independent sums split), so that most
equalities of program values are decided by syntactic identity.
"""
import math
from fractions import Fraction
from itertools import permutations, count as _count

_uid = _count(1)


class Atom:
    __slots__ = ('kind', 'args', 'sort', 'uid', '_vars', '_z3', 'nb', '_h')
    table = {}

    def __new__(cls, kind, args, sort):
        key = (kind, args, sort)
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.args, a.sort = kind, args, sort
            a.uid = next(_uid)
            a._vars = None
            a._z3 = None
            a._h = None
            cls.table[key] = a
        return a

    def __repr__(self):
        k, a = self.kind, self.args
        if k == 'Var':
            return a[0]
        if k == 'App':
            return '%s(%s)' % (a[0], ', '.join(map(repr, a[1:]))) if len(a) > 1 else a[0]
        if k == 'Iv':
            op = {'le': '<=0', 'lt': '<0', 'eq': '==0', 'b': ''}[a[0]]
            return '[%r%s]' % (a[1], op)
        if k == 'Sum':
            return 'Sum{%d}(%s)' % (a[0], mono_repr(a[1]))
        if k == 'Inv':
            return 'Inv(%r)' % (a[0],)
        if k in ('Div', 'Mod'):
            return '(%r %s %r)' % (a[0], '//' if k == 'Div' else '%', a[1])
        if k in ('Re', 'Im'):
            return '%s(%s)' % (k, mono_repr(a[0]))
        return k

    # free variables (set of Var atoms)
    def vars(self):
        if self._vars is None:
            s = set()
            k = self.kind
            if k == 'Var':
                s.add(self)
            elif k == 'Sum':
                for at, _ in self.args[1]:
                    s |= at.vars()
                s -= set(bvars(self))
            elif k in ('Re', 'Im'):
                for at, _ in self.args[0]:
                    s |= at.vars()
            else:
                for x in self.args:
                    if isinstance(x, Poly):
                        s |= x.vars()
            self._vars = frozenset(s)
        return self._vars


def mono_repr(m):
    return '*'.join(repr(a) if e == 1 else '%r^%d' % (a, e) for a, e in m) or '1'


def bvar(i):
    return Atom('Var', ('_b%d' % i,), 'I')


def _height(m):
    return max([height(a) for a, _ in m], default=0)


def height(a):
    """number of bound variables that sums inside this atom use; an enclosing sum numbers its own from there"""
    if a._h is None:
        k = a.kind
        if k == 'Sum':
            h = _height(a.args[1]) + a.args[0]
        elif k in ('Re', 'Im'):
            h = _height(a.args[0])
        else:
            h = max([_height(m) for x in a.args if isinstance(x, Poly) for m in x.t], default=0)
        a._h = h
    return a._h


def bvars(a):
    o = _height(a.args[1])
    return [bvar(o + i) for i in range(a.args[0])]


def _num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def lift(x):
    """Python number / bool / Poly -> Poly."""
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly.atom(x)
    if isinstance(x, B):
        return x.poly()
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, int):
        return Poly.const(x)
    if isinstance(x, Fraction):
        return Poly.const(_num(x), 'R')
    if isinstance(x, float):
        return Poly.const(_num(Fraction(repr(x))), 'R')
    if isinstance(x, complex):
        return lift(x.real) + lift(x.imag) * IU
    raise TypeError('cannot lift %r' % (x,))


_SORT = {'I': 0, 'R': 1, 'C': 2}


def jsort(a, b):
    if a == 'O' or b == 'O':
        return 'O'
    return a if _SORT[a] >= _SORT[b] else b


class Poly:
    __slots__ = ('t', 'sort', '_hash', '_vars')

    def __init__(self, t, sort):
        self.t = t            # dict mono -> coef ; mono = tuple of (Atom, exp) sorted by uid
        self.sort = sort
        self._hash = None
        self._vars = None

    # --- constructors
    @staticmethod
    def const(c, sort='I'):
        if sort == 'I' and isinstance(c, Fraction) and c.denominator != 1:
            sort = 'R'
        return Poly({(): c} if c != 0 else {}, sort)

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): 1}, a.sort)

    # --- structure
    def key(self):
        return frozenset(self.t.items())

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key())
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def is_zero(self):
        return not self.t

    def vars(self):
        if self._vars is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.vars()
            self._vars = frozenset(s)
        return self._vars

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda mc: [(a.uid, e) for a, e in mc[0]]):
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(mono_repr(m))
            else:
                out.append('%s*%s' % (c, mono_repr(m)))
        return ' + '.join(out)

    # --- arithmetic
    def __add__(self, o):
        o = lift(o)
        if not o.t:
            return self if _SORT.get(self.sort, 3) >= _SORT.get(o.sort, 3) else Poly(self.t, o.sort)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = _num(v)
        return Poly(t, jsort(self.sort, o.sort))
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()}, self.sort)

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        s = jsort(self.sort, o.sort)
        if self.is_const():
            c = self.cval()
            return Poly({m: _num(c * k) for m, k in o.t.items()} if c != 0 else {}, s)
        if o.is_const():
            c = o.cval()
            return Poly({m: _num(c * k) for m, k in self.t.items()} if c != 0 else {}, s)
        acc = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in mono_mul(m1, m2):
                    v = acc.get(m, 0) + c * c1 * c2
                    if v == 0:
                        acc.pop(m, None)
                    else:
                        acc[m] = _num(v)
        return Poly(acc, s)
    __rmul__ = __mul__

    def __pow__(self, n):
        assert isinstance(n, int)
        if n < 0:
            return inv(self) ** (-n)
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return Poly(r.t, self.sort)

    def __truediv__(self, o):
        return mul_sort(self, inv(lift(o)))

    def __rtruediv__(self, o):
        return lift(o) * inv(self)

    # comparisons giving booleans
    def le(self, o):
        return cmp_le(self, o)


def mul_sort(a, b):
    return a * b


ZERO = Poly.const(0)
ONE = Poly.const(1)
_I = Atom('I', (), 'C')
IU = Poly.atom(_I)


def is_complex_atom(a):
    return a.sort == 'C'


def mono_mul(m1, m2):
    """product of two monomials -> list of (mono, coef) (normally one)."""
    if not m1:
        return [(m2, 1)]
    if not m2:
        return [(m1, 1)]
    d = dict(m1)
    for a, e in m2:
        if a in d:
            d[a] += e
        else:
            d[a] = e
    return mono_norm(d)


_NORM_CACHE = {}


def mono_norm(d):
    """normalise a dict atom->exp; returns list of (mono, coef)."""
    coef = 1
    ivs = []
    out = {}
    for a, e in d.items():
        if e == 0:
            continue
        if a is _I:
            e4 = e % 4
            if e4 == 0:
                continue
            if e4 == 1:
                out[a] = 1
            elif e4 == 2:
                coef = -coef
            else:
                coef = -coef
                out[a] = 1
        elif a.kind == 'Iv':
            out[a] = 1
            ivs.append(a)
        elif a.kind == 'App' and a.args[0] in PM1:      # value in {-1,+1}
            if e % 2:
                out[a] = 1
        elif a.kind == 'App' and a.args[0] in SQRT_LIKE and abs(e) > 1:
            # sqrt(x)^2 = x
            q, r = divmod(e, 2)
            if r:
                out[a] = 1
            rest = Poly({tuple(sorted(((x, k) for x, k in out.items()), key=lambda z: z[0].uid)): coef}, 'R')
            others = {x: k for x, k in d.items() if x is not a and x not in out}
            p = rest * (a.args[1] ** q)
            for x, k in others.items():
                p = p * Poly({((x, k),): 1}, x.sort)
            return list(p.t.items())
        else:
            out[a] = e
    if len(ivs) > 1:
        # cheap simplifications between brackets
        key = frozenset(ivs)
        r = _NORM_CACHE.get(key)
        if r is None:
            r = _simplify_ivs(ivs)
            _NORM_CACHE[key] = r
        if r == 0:
            return []
        drop = r
        for a in drop:
            out.pop(a, None)
        ivs = [a for a in ivs if a not in drop]
    # use equality brackets to rewrite the rest
    for a in ivs:
        if a.args[0] == 'eq':
            sub = solve_eq(a.args[1])
            if sub is None:
                continue
            v, e = sub
            touched = [x for x in out if x is not a and v in x.vars()]
            if touched:
                p = Poly.const(coef)
                keep = {x: k for x, k in out.items() if x not in touched}
                p = p * Poly({tuple(sorted(keep.items(), key=lambda z: z[0].uid)): 1}, 'I')
                for x in touched:
                    p = p * (subst_atom(x, {v: e}) ** out[x])
                return list(p.t.items())
    m = tuple(sorted(out.items(), key=lambda z: z[0].uid))
    return [(m, coef)]


PM1 = set()          # names of uninterpreted functions with values -1/+1
SQRT_LIKE = {'sqrt'}


def _simplify_ivs(ivs):
    drop = set()
    for i, a in enumerate(ivs):
        for b in ivs[i + 1:]:
            ka, kb = a.args[0], b.args[0]
            if ka == 'b' or kb == 'b':
                continue
            p, q = a.args[1], b.args[1]
            if ka == 'eq' and kb == 'eq':
                d = p - q
                if d.is_const() and d.cval() != 0:
                    return 0
                d = p + q
                if d.is_const() and d.cval() != 0:
                    return 0
                continue
            if ka == 'eq' or kb == 'eq':
                if kb == 'eq':
                    a2, b2, p2, q2 = b, a, q, p
                else:
                    a2, b2, p2, q2 = a, b, p, q
                # p2 == 0 ; q2 <= 0 or q2 < 0
                for d in (q2 - p2, q2 + p2):
                    if d.is_const():
                        c = d.cval()
                        ok = c <= 0 if b2.args[0] == 'le' else c < 0
                        if ok:
                            drop.add(b2)
                        else:
                            return 0
                        break
                continue
            s = p + q
            if s.is_const():
                c = s.cval()
                if c > 0 or (c == 0 and (ka == 'lt' or kb == 'lt')):
                    return 0
            d = p - q
            if d.is_const():
                c = d.cval()
                if c > 0 or (c == 0 and ka == 'lt'):
                    drop.add(b)        # a stronger
                else:
                    drop.add(a)
    return frozenset(drop)


def _order_var(v):
    # which variable to eliminate first: bound variables, then later created
    n = v.args[0]
    return (n.startswith('_b'), v.uid)


def solve_eq(p):
    """p == 0 with an integer variable of coefficient +-1 occurring only linearly -> (var, poly)."""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'Var' and m[0][0].sort == 'I' and c in (1, -1):
            v = m[0][0]
            if all(m2 is m or v not in a.vars() for m2 in p.t for a, _ in m2):
                if best is None or _order_var(v) > _order_var(best[0]):
                    rest = Poly({k: x for k, x in p.t.items() if k != m}, p.sort)
                    best = (v, -rest if c == 1 else rest)
    return best


# ---------------------------------------------------------------- booleans

class B:
    """Boolean terms: ('c',bool) ('a',Atom) ('not',b) ('and',(..)) ('or',(..))."""
    __slots__ = ('op', 'args', '_p')

    def __init__(self, op, args):
        self.op, self.args, self._p = op, args, None

    def poly(self):
        if self._p is None:
            if self.op == 'c':
                self._p = ONE if self.args else ZERO
            elif self.op == 'a':
                k, q = self.args.args[:2]
                if k == 'le' and q.sort != 'I':
                    self._p = ONE - mk_iv('lt', -q).poly()
                else:
                    self._p = q if k == 'b' else Poly({((self.args, 1),): 1}, 'I')
            elif self.op == 'not':
                self._p = ONE - self.args.poly()
            elif self.op == 'and':
                r = ONE
                for x in self.args:
                    r = r * x.poly()
                self._p = r
            else:
                r = ONE
                for x in self.args:
                    r = r * (ONE - x.poly())
                self._p = ONE - r
        return self._p

    def __repr__(self):
        if self.op == 'c':
            return str(self.args)
        if self.op == 'a':
            return repr(self.args)
        if self.op == 'not':
            return '!%r' % (self.args,)
        return '(%s)' % ((' & ' if self.op == 'and' else ' | ').join(map(repr, self.args)))

    def atoms(self):
        if self.op == 'c':
            return set()
        if self.op == 'a':
            return {self.args}
        if self.op == 'not':
            return self.args.atoms()
        s = set()
        for x in self.args:
            s |= x.atoms()
        return s

    def vars(self):
        s = set()
        for a in self.atoms():
            s |= a.vars()
        return s


TRUE, FALSE = B('c', True), B('c', False)


def bconst(x):
    return TRUE if x else FALSE


def bnot(b):
    if b.op == 'c':
        return bconst(not b.args)
    if b.op == 'not':
        return b.args
    if b.op == 'a':
        a = b.args
        k, p = a.args[0], a.args[1]
        if k == 'le':
            if p.sort == 'I':
                return mk_iv('le', ONE - p)
            return mk_iv('lt', -p)
        if k == 'lt':
            return mk_iv('le', -p)
        return B('not', b)
    if b.op == 'and':
        return bor(*[bnot(x) for x in b.args])
    return band(*[bnot(x) for x in b.args])


def band(*bs):
    out = []
    for b in bs:
        if b.op == 'c':
            if not b.args:
                return FALSE
        elif b.op == 'and':
            out.extend(b.args)
        else:
            out.append(b)
    u = []
    for b in out:
        if not any(b is x or (b.op == 'a' and x.op == 'a' and b.args is x.args) for x in u):
            u.append(b)
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    return B('and', tuple(u))


def bor(*bs):
    out = []
    for b in bs:
        if b.op == 'c':
            if b.args:
                return TRUE
        elif b.op == 'or':
            out.extend(b.args)
        else:
            out.append(b)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return B('or', tuple(out))


def mk_iv(kind, p):
    """boolean atom from a polynomial relation to zero."""
    if kind == 'b':
        return B('a', Atom('Iv', ('b', p), 'I'))
    if p.is_const():
        c = p.cval()
        return bconst({'le': c <= 0, 'lt': c < 0, 'eq': c == 0}[kind])
    # scale: integer content
    lead = min(p.t, key=_mono_key)
    if p.sort == 'I':
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, abs(int(c)))
        c0 = p.t.get((), 0)
        if g > 1:
            if kind == 'eq':
                if c0 % g:
                    return FALSE
                p = Poly({m: c // g for m, c in p.t.items()}, 'I')
            else:
                if kind == 'lt':
                    p, kind = p + 1, 'le'
                    c0 = p.t.get((), 0)
                # sum g*x + c0 <= 0  <=>  sum x <= floor(-c0/g)
                k = (-c0) // g
                t = {m: c // g for m, c in p.t.items() if m}
                if k:
                    t[()] = -k
                p = Poly(t, 'I')
        elif kind == 'lt':
            p, kind = p + 1, 'le'
        # indicator-valued linear forms:  [c] <= 0, 1-[c] <= 0, [c]-1 == 0 ...
        b = _bool_of_linear(kind, p)
        if b is not None:
            return b
    else:
        c = p.t[lead]
        if kind == 'eq':
            p = p * Fraction(1, 1) * (Fraction(1) / c)
        else:
            p = p * (Fraction(1) / abs(c))
        if p.sort == 'I':
            p = Poly(p.t, 'R')
    if kind == 'eq':
        c = p.t[min(p.t, key=_mono_key)]
        if c < 0:
            p = -p
    return B('a', Atom('Iv', (kind, p), 'I'))


BITLIKE = set()     # uninterpreted functions with values 0/1


def is_01_atom(a):
    return a.kind == 'Iv' or (a.kind == 'App' and a.args[0] in BITLIKE)


def atom_bool(a):
    """boolean 'atom == 1' for a 0/1 valued atom."""
    if a.kind == 'Iv':
        return B('a', a)
    return B('a', Atom('Iv', ('b', Poly.atom(a)), 'I'))


def _bool_of_linear(kind, p):
    """relations on polynomials that only involve 0/1 atoms (few of them) -> boolean structure."""
    ats = set()
    for m in p.t:
        for a, e in m:
            if not is_01_atom(a):
                return None
            ats.add(a)
    if not ats or len(ats) > 6:
        return None
    ats = sorted(ats, key=lambda a: a.uid)

    def rec(i, env):
        if i == len(ats):
            v = 0
            for m, c in p.t.items():
                x = c
                for a, e in m:
                    x = x * env[a]
                v += x
            return bconst({'le': v <= 0, 'lt': v < 0, 'eq': v == 0}[kind])
        env[ats[i]] = 1
        t = rec(i + 1, env)
        env[ats[i]] = 0
        f = rec(i + 1, env)
        if t.op == 'c' and f.op == 'c' and t.args == f.args:
            return t
        b = atom_bool(ats[i])
        if _same(t, f):
            return t
        return bor(band(b, t), band(bnot(b), f))
    return rec(0, {})


def _same(a, b):
    if a.op != b.op:
        return False
    if a.op == 'c':
        return a.args == b.args
    if a.op == 'a':
        return a.args is b.args
    return a is b


def _mono_key(m):
    return (not m, [(a.uid, e) for a, e in m])


def cmp_le(a, b):
    return mk_iv('le', lift(a) - lift(b))


def cmp_lt(a, b):
    p = lift(a) - lift(b)
    return mk_iv('lt', p)


def cmp_eq(a, b):
    return mk_iv('eq', lift(a) - lift(b))


def ite(c, a, b):
    """c: B ; a, b numeric."""
    if c.op == 'c':
        return lift(a) if c.args else lift(b)
    a, b = lift(a), lift(b)
    if a == b:
        return a if _SORT.get(a.sort, 3) >= _SORT.get(b.sort, 3) else b
    if c.op == 'a' and c.args.kind == 'Iv' and c.args.args[0] in ('le', 'lt') and c.args.args[1].sort == 'R':
        # minimum or maximum: the choice at a tie does not matter, so it is always made the same way
        q = c.args.args[1]
        d = a - b
        lead = min(q.t, key=_mono_key)
        if set(d.t) == set(q.t) and d == q * (Fraction(d.t[lead]) / q.t[lead]):
            if q.t[lead] < 0:
                q, a, b = -q, b, a
            c = mk_iv('lt', q)
    p = c.poly()
    n = bnot(c).poly()
    r = p * a + n * b
    return Poly(r.t, jsort(a.sort, b.sort))


# ---------------------------------------------------------------- constructors

def var(name, sort='I'):
    return Poly.atom(Atom('Var', (name,), sort))


_fresh = _count(1)


def fresh(name, sort='I'):
    return var('%s!%d' % (name, next(_fresh)), sort)


def app(name, *args, sort='R'):
    return Poly.atom(Atom('App', (name,) + tuple(lift(a) for a in args), sort))


def fun(name, sort='R'):
    return lambda *a: app(name, *a, sort=sort)


def bapp(name, *args):
    return mk_iv('b', app(name, *args, sort='I'))


def inv(p):
    p = lift(p)
    if p.is_const():
        c = p.cval()
        if c == 0:
            return app('div0', sort='R')
        return Poly.const(_num(Fraction(1) / c), 'R' if p.sort == 'I' else p.sort)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        d = {}
        extra = ONE
        for a, e in m:
            if a is _I:
                extra = extra * (-IU if e % 2 else lift(1))
                continue
            if a.kind == 'Iv':
                d[a] = 1          # 1/[c] : only meaningful where [c]=1 ; keep opaque below
            else:
                d[a] = -e
        if any(a.kind == 'Iv' for a, _ in m):
            return Poly.atom(Atom('Inv', (p,), 'C' if p.sort == 'C' else 'R'))
        r = Poly({tuple(sorted(d.items(), key=lambda z: z[0].uid)): _num(Fraction(1) / c)},
                 p.sort if p.sort != 'I' else 'R')
        return r * extra
    rt = _root(p)
    if rt is not None:
        k, c = rt
        return k * k * c
    # unwrap guarded values:  [c]*a + (1-[c])*b  -> handled by caller when needed
    f = _content(p)
    if f is not None:
        return inv(f) * inv(p * inv(f))
    u = _unit(p, min((_no_i(m) for m in p.t), key=_mono_key))
    q = p * u
    # single Inv argument simplification: Inv(Inv(q)) not produced
    at = Atom('Inv', (q,), 'C' if p.sort == 'C' else 'R')
    return Poly.atom(at) * u


def _content(p):
    """common monomial factor of the terms (negative powers of an atom are cleared as well), or None"""
    lo = None
    for m in p.t:
        d = {a: e for a, e in m if a is not _I}
        if any(a.kind == 'Iv' for a in d):
            return None
        if lo is None:
            lo = d
            first = True
            continue
        for a in set(lo) | set(d):
            lo[a] = min(lo.get(a, 0), d.get(a, 0))
    lo = {a: e for a, e in lo.items() if e}
    if not lo:
        return None
    return Poly({tuple(sorted(lo.items(), key=lambda z: z[0].uid)): 1}, 'C' if any(a.sort == 'C' for a in lo) else 'R')


def _no_i(m):
    return tuple((a, e) for a, e in m if a is not _I)


def _unit(p, m):
    """1 / (coefficient a + bi of the monomial m)"""
    a = b = 0
    for k, c in p.t.items():
        if _no_i(k) == m:
            if len(k) == len(m):
                a = c
            else:
                b = c
    if not b:
        return lift(_num(Fraction(1) / Fraction(a)))
    n = Fraction(a) ** 2 + Fraction(b) ** 2
    return lift(_num(Fraction(a) / n)) - IU * _num(Fraction(b) / n)


_ROOTS = {}


def _root(p):
    """(1/r, 1/c) with p == c * r^2, or None (r by the square-root algorithm under a lexicographic order)."""
    if not 3 <= len(p.t) <= 15:
        return None
    key = frozenset(p.t.items())
    if key not in _ROOTS:
        _ROOTS[key] = _root1(p)
    r = _ROOTS[key]
    return r and (inv(r[0]), r[1])


def _root1(p):
    atoms = {a for m in p.t for a, _ in m}
    if any(a.kind == 'Iv' for a in atoms):
        return None
    order = sorted(atoms - {_I}, key=lambda a: a.uid) + [_I]
    key = lambda m: tuple(dict(m).get(a, 0) for a in order)
    lm = _no_i(max(p.t, key=key))
    if any(e % 2 for _, e in lm) or any(isinstance(x, float) for x in p.t.values()):
        return None
    c = _unit(p, lm)
    q = p * c
    lead = tuple((a, e // 2) for a, e in lm)
    r = Poly({lead: 1}, p.sort)
    rem = q - r * r
    for _ in range(len(p.t)):
        if rem.is_zero():
            return r, c
        m = max(rem.t, key=key)
        d = dict(m)
        for a, e in lead:
            d[a] = d.get(a, 0) - e
            if d[a] == 0:
                del d[a]
        t = Poly({tuple(sorted(d.items(), key=lambda z: z[0].uid)): _num(Fraction(rem.t[m]) / 2)}, p.sort)
        rem = rem - 2 * r * t - t * t
        r = r + t
        if len(rem.t) > 40:
            return None
    return (r, c) if rem.is_zero() else None


def floordiv(p, q):
    p, q = lift(p), lift(q)
    if q.is_const() and q.cval() == 1:
        return p
    if p.is_const() and q.is_const() and q.cval() != 0:
        return lift(int(p.cval() // q.cval()))
    # pull out the parts divisible by q (a*q + r)//q = a + r//q
    a, r = _split_div(p, q)
    if r.is_zero():
        return a
    return a + Poly.atom(Atom('Div', (r, q), 'I'))


def mod(p, q):
    p, q = lift(p), lift(q)
    if q.is_const() and q.cval() == 1:
        return ZERO
    if p.is_const() and q.is_const() and q.cval() != 0:
        return lift(int(p.cval() % q.cval()))
    a, r = _split_div(p, q)
    if r.is_zero():
        return ZERO
    return r - q * Poly.atom(Atom('Div', (r, q), 'I'))


def _split_div(p, q):
    """p = a*q + r, extracting syntactic multiples of q (q a single monomial)."""
    if len(q.t) != 1:
        # try multiples of the whole polynomial
        if p == q:
            return ONE, ZERO
        # long division in an atom that q contains linearly with coefficient 1
        for m, c in q.t.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                rest = q - Poly.atom(v)
                if any(v in dict(mm) for mm in rest.t):
                    continue
                quo, rem = ZERO, p
                for _ in range(8):
                    deg = max([dict(mm).get(v, 0) for mm in rem.t], default=0)
                    if deg == 0:
                        break
                    lead = {}
                    for mm, cc in rem.t.items():
                        d = dict(mm)
                        if d.get(v, 0) == deg:
                            d[v] -= 1
                            if d[v] == 0:
                                del d[v]
                            lead[tuple(sorted(d.items(), key=lambda z: z[0].uid))] = cc
                    lead = Poly(lead, 'I')
                    quo = quo + lead
                    rem = rem - lead * q
                else:
                    continue
                return quo, rem
        return ZERO, p
    (mq, cq), = q.t.items()
    a, r = {}, {}
    dq = dict(mq)
    for m, c in p.t.items():
        d = dict(m)
        if all(d.get(x, 0) >= e for x, e in dq.items()) and c % cq == 0 and (mq or True):
            for x, e in dq.items():
                d[x] -= e
                if d[x] == 0:
                    del d[x]
            a[tuple(sorted(d.items(), key=lambda z: z[0].uid))] = c // cq
        else:
            r[m] = c
    return Poly(a, 'I'), Poly(r, 'I')


# ---------------------------------------------------------------- substitution

def subst(p, env):
    """env: dict Var atom -> Poly."""
    if not env or not isinstance(p, Poly):
        return p
    ks = env.keys()
    if not (p.vars() & ks):
        return p
    acc = ZERO
    sort = p.sort
    for m, c in p.t.items():
        hit = [(a, e) for a, e in m if a.vars() & ks]
        if not hit:
            acc = acc + Poly({m: c}, sort)
            continue
        rest = tuple((a, e) for a, e in m if not (a.vars() & ks))
        q = Poly({rest: c}, 'I')
        # brackets first so that contradictions kill the product early
        hit.sort(key=lambda ae: ae[0].kind != 'Iv')
        for a, e in hit:
            s = subst_atom(a, env)
            q = q * (s ** e if e >= 0 else inv(s) ** (-e))
            if q.is_zero():
                break
        acc = acc + q
    if acc.sort != sort:
        acc = Poly(acc.t, jsort(acc.sort, sort))
    return acc


def subst_atom(a, env):
    ks = env.keys()
    if not (a.vars() & ks):
        return Poly.atom(a)
    k = a.kind
    if k == 'Var':
        return env[a]
    if k == 'App':
        if a.args[0] in REBUILD:
            return REBUILD[a.args[0]](*[subst(x, env) for x in a.args[1:]])
        return app(a.args[0], *[subst(x, env) for x in a.args[1:]], sort=a.sort)
    if k == 'Iv':
        if a.args[0] == 'b':
            q = subst(a.args[1], env)
            return bool_of_poly(q).poly()
        return mk_iv(a.args[0], subst(a.args[1], env)).poly()
    if k == 'Inv':
        return inv(subst(a.args[0], env))
    if k == 'Div':
        return floordiv(subst(a.args[0], env), subst(a.args[1], env))
    if k == 'Mod':
        return mod(subst(a.args[0], env), subst(a.args[1], env))
    if k == 'Sum':
        nb, m = a.args
        # rename bound variables apart, substitute, rebuild
        fr = [fresh('s') for _ in range(nb)]
        ren = dict(zip(bvars(a), fr))
        body = subst(Poly({m: 1}, a.sort), ren)
        body = subst(body, env)
        for f in fr:
            body = mk_sum_raw(the_var(f), body)
        return body
    if k in ('Re', 'Im'):
        q = subst(Poly({a.args[0]: 1}, 'C'), env)
        return re_(q) if k == 'Re' else im_(q)
    raise TypeError(k)


REBUILD = {}      # name -> python constructor for interpreted Apps


def the_var(p):
    (m, c), = p.t.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'Var', p
    return m[0][0]


def bool_of_poly(q):
    """truth of a 0/1-valued polynomial."""
    if q.is_const():
        return bconst(q.cval() != 0)
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind == 'Iv':
                return B('a', a)
            if is_01_atom(a):
                return mk_iv('b', q)
        if c == 1 and all(is_01_atom(a) for a, _ in m):
            return band(*[atom_bool(a) for a, _ in m])
    b = _bool_of_linear('eq', q - 1) if q.sort == 'I' else None
    if b is not None:
        return b
    return bnot(mk_iv('eq', q))


# ---------------------------------------------------------------- sums

def mk_sum(v, lo, hi, body):
    """sum over integer v, lo <= v < hi."""
    v = v if isinstance(v, Atom) else the_var(v)
    body = lift(body)
    pv = Poly.atom(v)
    g = band(cmp_le(lo, pv), cmp_lt(pv, hi))
    r = mk_sum_raw(v, g.poly() * body)
    return Poly(r.t, body.sort)


def mk_sum_raw(v, body):
    acc = ZERO
    for m, c in body.t.items():
        acc = acc + _sum_mono(v, m) * c
    return Poly(acc.t, jsort(acc.sort, body.sort))


def _sum_mono(v, m):
    inn = [(a, e) for a, e in m if v in a.vars()]
    out = tuple((a, e) for a, e in m if v not in a.vars())
    outp = Poly({out: 1}, 'I') if out else ONE
    if not inn:
        raise ValueError('unbounded sum')
    # equality bracket collapses the sum
    for a, e in inn:
        if a.kind == 'Iv' and a.args[0] == 'eq':
            p = a.args[1]
            s = _solve_for(p, v)
            if s is not None:
                q = ONE
                rest = sorted(((x, k) for x, k in inn if x is not a), key=lambda z: z[0].kind != 'Iv')
                for x, k in rest:
                    sx = subst_atom(x, {v: s})
                    q = q * (sx ** k if k >= 0 else inv(sx) ** (-k))
                    if q.is_zero():
                        return ZERO
                return outp * q
    b = _block_of(v, inn)
    if b is not None:
        # Q v <= X < Q v + Q: v is the quotient
        s, drop, pos = b
        q = pos
        for x, k in sorted(((x, k) for x, k in inn if x not in drop), key=lambda z: z[0].kind != 'Iv'):
            sx = subst_atom(x, {v: s})
            q = q * (sx ** k if k >= 0 else inv(sx) ** (-k))
            if q.is_zero():
                return ZERO
        return outp * q
    # collect binders: v plus binders of nested sums that mention v
    binders = [v]
    atoms = []
    for a, e in inn:
        if a.kind == 'Sum' and e >= 1:
            for _ in range(e):
                nb, mm = a.args
                fr = [the_var(fresh('s')) for _ in range(nb)]
                body = subst(Poly({mm: 1}, a.sort), {b: Poly.atom(x) for b, x in zip(bvars(a), fr)})
                (m2, c2), = body.t.items()
                outp = outp * c2 * (IU if _no_i(m2) != m2 else 1)
                binders.extend(fr)
                atoms.extend(_no_i(m2))
        else:
            atoms.append((a, e))
    d = {}
    for a, e in atoms:
        d[a] = d.get(a, 0) + e
    norm = mono_norm(d)
    res = ZERO
    for m2, c2 in norm:
        res = res + _close_sum(binders, m2) * c2
    return outp * res


def _block_of(v, inn):
    """(quotient, the two brackets, [1 <= Q]) when the factors hold Q v <= X and X < Q v + Q with a Q that is not a constant"""
    lin = []
    for a, e in inn:
        if a.kind == 'Iv' and a.args[0] == 'le' and a.args[1].sort == 'I':
            q, rest, ok = {}, {}, True
            for m, c in a.args[1].t.items():
                d = dict(m)
                if v not in d:
                    rest[m] = c
                    ok = ok and not any(v in x.vars() for x in d)
                elif d.pop(v) == 1 and d and not any(v in x.vars() for x in d):
                    q[tuple(sorted(d.items(), key=lambda z: z[0].uid))] = c
                else:
                    ok = False
            if ok and q:
                lin.append((a, Poly(q, 'I'), Poly(rest, 'I')))
    for a, q, r in lin:
        for b, q2, r2 in lin:
            # q v + r <= 0 (r = -X) and -q v + r2 <= 0 (r2 = X + 1 - q)
            if (q + q2).is_zero() and (r + r2 + q - 1).is_zero():
                return floordiv(-r, q), (a, b), cmp_le(1, q).poly()
    return None


def _solve_for(p, v):
    for m, c in p.t.items():
        if len(m) == 1 and m[0] == (v, 1) and c in (1, -1):
            if all(m2 is m or v not in a.vars() for m2 in p.t for a, _ in m2):
                rest = Poly({k: x for k, x in p.t.items() if k != m}, p.sort)
                return -rest if c == 1 else rest
    return None


def _close_sum(binders, m):
    """canonical atom(s) for sum over `binders` of monomial m."""
    binders = [b for b in binders]
    # collapse equalities on any binder
    for a, e in m:
        if a.kind == 'Iv' and a.args[0] == 'eq':
            for b in binders:
                if b in a.vars():
                    s = _solve_for(a.args[1], b)
                    if s is not None:
                        q = ONE
                        rest = sorted(((x, k) for x, k in m if x is not a), key=lambda z: z[0].kind != 'Iv')
                        for x, k in rest:
                            sx = subst_atom(x, {b: s})
                            q = q * (sx ** k if k >= 0 else inv(sx) ** (-k))
                            if q.is_zero():
                                return ZERO
                        left = [x for x in binders if x is not b]
                        r = q
                        for x in left:
                            r = mk_sum_raw(x, r)
                        return r
    # components
    comp = {b: {b} for b in binders}
    bs = set(binders)
    for a, e in m:
        vs = list(a.vars() & bs)
        for x in vs[1:]:
            if comp[x] is not comp[vs[0]]:
                u = comp[x] | comp[vs[0]]
                for y in u:
                    comp[y] = u
    groups = []
    for b in binders:
        if not any(comp[b] is g for g in groups):
            groups.append(comp[b])
    free = [(a, e) for a, e in m if not (a.vars() & bs)]
    res = Poly({tuple(free): 1}, 'I') if free else ONE
    for g in groups:
        gm = tuple((a, e) for a, e in m if a.vars() & g)
        gb = [b for b in binders if b in g]
        res = res * _close_component(gb, gm)
    return res


def _range_of(v, m):
    """(lo, hi, other) if the only brackets on v are one lower and one upper bound with unit coefficient."""
    lo = hi = None
    other = []
    for a, e in m:
        if v not in a.vars():
            continue
        if a.kind == 'Iv' and a.args[0] == 'le':
            p = a.args[1]
            c = p.t.get(((v, 1),), 0)
            rest = Poly({k: x for k, x in p.t.items() if k != ((v, 1),)}, 'I')
            if v not in rest.vars():
                if c == 1 and hi is None:      # v + rest <= 0
                    hi = 1 - rest
                    continue
                if c == -1 and lo is None:     # rest - v <= 0
                    lo = rest
                    continue
        other.append((a, e))
    return lo, hi, other


def _close_component(gb, gm):
    # a binder that only has its range: counts
    if len(gb) == 1:
        lo, hi, other = _range_of(gb[0], gm)
        if not other and lo is not None and hi is not None:
            return (hi - lo) * cmp_lt(lo, hi).poly()
    for v in gb:
        rest = _shift_of(v, gm, gb)
        if rest is not None and not rest.is_zero():
            ren = {v: Poly.atom(v) - rest}
            q = ONE
            for a, e in gm:
                x = subst_atom(a, ren)
                q = q * (x ** e if e > 0 else inv(x) ** -e)
            r = q
            for b in gb:
                r = mk_sum_raw(b, r)
            return r
    n = len(gb)
    sort = 'I'
    for a, e in gm:
        s = a.sort if e > 0 or a.sort != 'I' else 'R'
        sort = jsort(sort, s)
    best = None
    off = _height(gm)
    for perm in permutations(range(n)):
        ren = {gb[j]: Poly.atom(bvar(off + perm[j])) for j in range(n)}
        q, c = _rename_mono(gm, ren)
        if _height(q) != off:
            raise AssertionError('bound variables of nested sums')
        key = tuple((a.uid, e) for a, e in q)
        if best is None or key < best[0]:
            best = (key, q, c)
    return Poly.atom(Atom('Sum', (n, best[1]), sort)) * best[2]


def _shift_of(v, gm, others=()):
    """rest, when v occurs in index positions only and only as v + rest"""
    found = []

    def walk(q, top):
        # q: argument of a function (top False) or a factor (top True)
        for m, c in q.t.items():
            for a, e in m:
                if a is v:
                    if top or len(m) > 1 or e != 1 or c not in (1, -1):
                        return False
                    r = Poly({k: x for k, x in q.t.items() if k != m}, 'I') * c
                    if v in r.vars() or q.sort != 'I' or any(x.kind not in ('Var', 'App') for x in r.atoms()):
                        return False
                    found.append(r)
                elif v in a.vars():
                    if a.kind == 'App':
                        if not all(walk(x, False) for x in a.args[1:] if v in x.vars()):
                            return False
                    elif a.kind in ('Re', 'Im'):
                        if not walk(Poly({a.args[0]: 1}, 'C'), True):
                            return False
                    elif a.kind == 'Inv':
                        if not walk(a.args[0], True):
                            return False
                    elif a.kind != 'Iv' or not top:
                        return False
        return True
    for a, e in gm:
        if v in a.vars() and not walk(Poly.atom(a), True):
            return None
    if not found:
        return None
    best = found[0]
    for f in found[1:]:
        if f != best:
            if any(a.kind == 'Var' and a in others for a in f.atoms() | best.atoms()):
                return None
            # the least of the offsets in an order that moves along with the binder
            d = f - best
            if d.t[min(d.t, key=_mono_key)] < 0:
                best = f
    return best


def _rename_mono(m, ren):
    d = {}
    k = ONE
    for a, e in m:
        q = subst_atom(a, ren)
        (mm, c), = q.t.items()
        mn = _no_i(mm)
        assert len(mn) == 1, (a, q)
        u = lift(c) * (IU if mn != mm else 1)
        k = k * (u ** e if e > 0 else inv(u) ** -e)
        d[mn[0][0]] = d.get(mn[0][0], 0) + e * mn[0][1]
    return tuple(sorted(d.items(), key=lambda z: z[0].uid)), k


# ---------------------------------------------------------------- complex parts

def _cparts(m, c):
    """monomial -> (real factor poly, has I, complex mono)."""
    hasI = False
    cm = []
    rm = []
    for a, e in m:
        if a is _I:
            hasI = True
        elif a.sort == 'C':
            cm.append((a, e))
        else:
            rm.append((a, e))
    return Poly({tuple(rm): c}, 'R'), hasI, tuple(cm)


def re_(p):
    p = lift(p)
    if p.sort != 'C':
        return p
    acc = Poly({}, 'R')
    for m, c in p.t.items():
        r, hi, cm = _cparts(m, c)
        if not cm:
            if not hi:
                acc = acc + r
        elif len(cm) == 1 and cm[0][0].kind == 'Sum' and cm[0][1] == 1:
            acc = acc + r * _part_sum(cm[0][0], 'Im' if hi else 'Re') * (-1 if hi else 1)
        elif hi:
            acc = acc - r * Poly.atom(Atom('Im', (cm,), 'R'))
        else:
            acc = acc + r * Poly.atom(Atom('Re', (cm,), 'R'))
    return Poly(acc.t, 'R')


def im_(p):
    p = lift(p)
    if p.sort != 'C':
        return Poly({}, 'R')
    acc = Poly({}, 'R')
    for m, c in p.t.items():
        r, hi, cm = _cparts(m, c)
        if not cm:
            if hi:
                acc = acc + r
        elif len(cm) == 1 and cm[0][0].kind == 'Sum' and cm[0][1] == 1:
            acc = acc + r * _part_sum(cm[0][0], 'Re' if hi else 'Im')
        elif hi:
            acc = acc + r * Poly.atom(Atom('Re', (cm,), 'R'))
        else:
            acc = acc + r * Poly.atom(Atom('Im', (cm,), 'R'))
    return Poly(acc.t, 'R')


def _part_sum(s, which):
    nb, m = s.args
    fr = [fresh('s') for _ in range(nb)]
    body = subst(Poly({m: 1}, 'C'), dict(zip(bvars(s), fr)))
    body = re_(body) if which == 'Re' else im_(body)
    for f in fr:
        body = mk_sum_raw(the_var(f), body)
    return body


def abs2(p):
    return re_(p) * re_(p) + im_(p) * im_(p)


def conj(p):
    return re_(p) - IU * im_(p) if lift(p).sort == 'C' else lift(p)


# ---------------------------------------------------------------- numeric evaluation

class Undefined(Exception):
    pass


def skey(p):
    """text of a polynomial that does not depend on the order in which its atoms were created"""
    if isinstance(p, Poly):
        return '(' + ' + '.join(sorted('%s*%s' % (c, skey(m)) for m, c in p.t.items())) + ')'
    if isinstance(p, Atom):
        return p.args[0] if p.kind == 'Var' else '%s[%s]' % (p.kind, ','.join(skey(x) for x in p.args))
    if isinstance(p, tuple):
        return '.'.join(sorted('%s^%s' % (skey(a), e) for a, e in p)) if p and isinstance(p[0], tuple) and len(p[0]) == 2 and isinstance(p[0][0], Atom) \
            else ','.join(skey(x) for x in p)
    return str(p)


RECS = {}
_REC_IDS = {}


def recurrence(q, x, iv):
    """x_{k+1} = q(x_k, k): closed form as a named recursion.  Returns (x0, at) -> term, or None.

    The name stands for the body q up to renaming of its free variables, which are arguments of the term."""
    from .interp import poly_fns
    if any(f.startswith('h!') for f in poly_fns(q)):
        return None
    X, K, MARK, REST = the_var(var('_x', x.sort)), the_var(var('_k')), '@', '_'
    free = [v for v in q.vars() if v is not x and v is not iv]
    base = {x: Poly.atom(X), iv: Poly.atom(K)}

    def key(v):
        env = dict(base)
        for w in free:
            env[w] = var(MARK if w is v else REST, w.sort)
        return (v.sort, skey(subst(q, env)))
    free = sorted(free, key=key)
    ps = [var('_p%d' % k, v.sort) for k, v in enumerate(free)]
    env = dict(base)
    env.update(zip(free, ps))
    F = subst(q, env)
    nm = _REC_IDS.get(F)
    if nm is None:
        nm = _REC_IDS[F] = 'rec%d' % len(_REC_IDS)
        RECS[nm] = (F, X, K, [the_var(p) for p in ps])
    args = [Poly.atom(v) for v in free]

    def close(x0, at):
        at = lift(at)
        x0 = lift(x0)
        if at.is_zero():
            return x0
        return app(nm, *args, x0, at, sort=jsort(q.sort, x0.sort))
    return close


def rec(F, x0, n, sort='R'):
    """specification of a recursion: F(k, x) is the next value"""
    x, k = fresh('rx', sort), fresh('rk')
    r = recurrence(lift(F(k, x)), the_var(x), the_var(k))
    return r(x0, n)


def eval_rec(nm, args, rnd):
    F, X, K, ps = RECS[nm]
    env = dict(zip(ps, args))
    v, n = args[-2], int(args[-1])
    if n > 60:
        raise Undefined
    for k in range(max(n, 0)):
        env[X], env[K] = v, k
        v = evaluate(F, dict(env), rnd)
    return v


def evaluate(p, env, rnd, scale=False):
    """numeric value under env (dict Var atom -> number) with random interpretation `rnd(name,args,sort)`."""
    s, sc = 0, 0
    for m, c in p.t.items():
        x = c if isinstance(c, int) else float(c)
        for a, e in sorted(m, key=lambda ae: ae[0].kind != 'Iv'):
            v = eval_atom(a, env, rnd)
            if e != 1:
                if e < 0 and v == 0:
                    raise Undefined
                v = v ** e
            x = x * v
            if x == 0:
                break
        s += x
        sc += abs(x)
    return (s, sc) if scale else s


def eval_atom(a, env, rnd):
    k = a.kind
    if k == 'Var':
        if a not in env:
            env[a] = rnd(a.args[0], (), a.sort)
        return env[a]
    if k == 'App':
        if a.args[0] in RECS:
            return eval_rec(a.args[0], tuple(evaluate(x, env, rnd) for x in a.args[1:]), rnd)
        return rnd(a.args[0], tuple(_r(*evaluate(x, env, rnd, True)) for x in a.args[1:]), a.sort)
    if k == 'Iv':
        v, sc = evaluate(a.args[1], env, rnd, True)
        if isinstance(v, (float, complex)) and v != 0 and abs(v) < 1e-10 * sc:
            raise Undefined         # rounding could decide it
        if a.args[0] == 'le':
            return int(v <= 0)
        if a.args[0] == 'lt':
            return int(v < 0)
        if a.args[0] == 'eq':
            return int(abs(v) < 1e-12)
        return int(v != 0)
    if k == 'Inv':
        v = evaluate(a.args[0], env, rnd)
        if v == 0:
            raise Undefined
        return 1 / v
    if k == 'Div':
        q = evaluate(a.args[1], env, rnd)
        if q == 0:
            raise Undefined
        return int(evaluate(a.args[0], env, rnd)) // int(q)
    if k == 'Mod':
        q = evaluate(a.args[1], env, rnd)
        if q == 0:
            raise Undefined
        return int(evaluate(a.args[0], env, rnd)) % int(q)
    if k == 'I':
        return 1j
    if k in ('Re', 'Im'):
        v = complex(evaluate(Poly({a.args[0]: 1}, 'C'), env, rnd))
        return v.real if k == 'Re' else v.imag
    if k == 'Sum':
        nb, m = a.args
        R = range(-2, 8)
        tot = 0
        body = Poly({m: 1}, a.sort)
        bs = bvars(a)
        saved = {b: env.get(b) for b in bs}

        def rec(i):
            nonlocal tot
            if i == nb:
                tot += evaluate(body, env, rnd)
                return
            for x in R:
                env[bs[i]] = x
                rec(i + 1)
        rec(0)
        for b in bs:
            if saved[b] is None:
                env.pop(b, None)
            else:
                env[b] = saved[b]
        return tot
    raise TypeError(k)


def _r(x, sc=0):
    """arguments that rounding could make different are not told apart; one that rounding could move has no value"""
    if isinstance(x, complex):
        return (_r(x.real, sc), _r(x.imag, sc))
    if isinstance(x, float):
        q = 1e-9
        if abs(x) >= 10:
            q *= 10 ** math.floor(math.log10(abs(x)))
        t = x / q
        if sc * 1e-13 > q or abs(t - math.floor(t) - .5) < 1e-3:
            raise Undefined
        return round(t) * q if q > 1e-9 else round(x, 9)
    return x


def subst_iv(p, a, v):
    """p with the factor a replaced by v"""
    out = ZERO
    for m, c in p.t.items():
        q = lift(c)
        for x, e in m:
            q = q * (v if x is a else Poly.atom(x) ** e if e > 0 else inv(Poly.atom(x)) ** -e)
        out = out + q
    return Poly(out.t, jsort(out.sort, p.sort)) if out.sort != p.sort else out


def zero_one(p):
    """is p, a polynomial in 0/1 atoms, 0 or 1 for all of their values"""
    ats = list(p.atoms())
    if len(ats) > 6 or not all(is_01_atom(a) for a in ats):
        return False
    for k in range(2 ** len(ats)):
        v = {a: (k >> i) & 1 for i, a in enumerate(ats)}
        if sum(c for m, c in p.t.items() if all(v[a] for a, e in m)) not in (0, 1):
            return False
    return True
