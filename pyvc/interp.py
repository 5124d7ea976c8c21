"""Symbolic execution of the real Python source.

The modules of the tree under test are parsed with `ast` and executed statement by statement over
symbolic values (pyvc.terms); nothing is translated by hand.  Scalars are polynomials over atoms,
arrays are functions from index terms to scalars, containers and objects are concrete.
Branches are executed on both sides and merged; loops over symbolic ranges are summarised exactly
(sums, guarded stores, last values) or by an equational invariant given in a contract and checked
for initialisation and preservation.  Anything outside raises Unsupported: the obligation is then
undecided, never assumed.
"""
import ast
import os
import builtins
from fractions import Fraction
from itertools import product as _product, count as _count
from . import terms as T
from .terms import Poly, B, lift, TRUE, FALSE, ite, band, bor, bnot


_ser = _count(1)


class Unsupported(Exception):
    pass


class Unreadable(Unsupported):
    pass


class TapeMiss(Unsupported):
    pass


class Unmergeable(Exception):
    pass


class PyExc(Exception):
    """exception of the interpreted program"""

    def __init__(self, cls, args=()):
        self.cls, self.eargs = cls, args
        Exception.__init__(self, '%s%r' % (cls, tuple(map(str, args))))


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Pruned(Exception):
    """this path is covered by a loop invariant"""


class _Missing:
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()


class Poison:
    """value of a variable that a summarised loop leaves behind; reading it is unsupported"""

    def __init__(self, why):
        self.why = why


class Module:
    def __init__(self, name, ns=None):
        self.name, self.ns = name, ns if ns is not None else {}

    def __repr__(self):
        return '<module %s>' % self.name


class Cls:
    def __init__(self, name, bases=(), ns=None, native_new=None):
        self.name, self.bases, self.ns = name, list(bases), ns or {}
        self.native_new = native_new

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [x for x in b.mro() if x not in out]
        return out

    def find(self, k):
        for c in self.mro():
            if k in c.ns:
                return c.ns[k]
        return MISSING

    def __repr__(self):
        return '<class %s>' % self.name


class Obj:
    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, NDict(attrs or ())

    def __repr__(self):
        return '<%s object>' % self.cls.name


class Func:
    def __init__(self, node, frame, mod, name, cls=None, defaults=(), kwdefaults=None):
        self.node, self.frame, self.mod, self.name, self.cls = node, frame, mod, name, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.isgen = not isinstance(node, ast.Lambda) and _has_yield(node.body)
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.name


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Native:
    """native model: fn(interp, *args, **kw)"""

    def __init__(self, fn, name=None):
        self.fn, self.name = fn, name or getattr(fn, '__name__', '?')

    def __repr__(self):
        return '<native %s>' % self.name


class Gen:
    """suspended generator call, iterated push-style"""

    def __init__(self, func, fr):
        self.func, self.fr = func, fr


class GenExp:
    def __init__(self, node, fr):
        self.node, self.fr = node, fr


class Rng:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SList:
    """list of symbolic length"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class Word:
    """bit pattern; fn(i) is the 0/1 value of bit i"""

    def __init__(self, fn, poly=None):
        self.fn, self.poly = fn, poly

    @staticmethod
    def of(p):
        return Word(lambda i: _bit(p, i), p)


def _bit(p, i):
    p, i = lift(p), lift(i)
    if i.is_zero() and p.sort == 'I' and len(p.t) <= 4 and all(not m or (isinstance(c, int) and c % 2 == 0) for m, c in p.t.items()) \
            and all(a.kind in ('Var', 'Iv') and e > 0 for m in p.t for a, e in m):
        return lift(int(p.t.get((), 0)) % 2)
    return T.app('bit', p, i, sort='I')


T.REBUILD['bit'] = _bit


T.BITLIKE.add('bit')


def _has_yield(body):
    st = list(body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


class Frame:
    def __init__(self, vars, parent, mod, func=None, globs=None):
        self.vars, self.parent, self.mod, self.func = vars, parent, mod, func
        self.on_yield = None
        self.nonlocals = set()


# ------------------------------------------------------------------ arrays

def size(x):
    """shape component: int when constant"""
    if isinstance(x, Poly):
        if x.is_const():
            return int(x.cval())
        return x
    return int(x)


class NDict(dict):
    __slots__ = ('ser',)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.ser = next(_ser)


class NList(list):
    __slots__ = ('ser',)

    def __init__(self, *a):
        list.__init__(self, *a)
        self.ser = next(_ser)


class Buf:
    __slots__ = ('shape', 'fn', 'dtype', 'name', 'ser', 'frozen')

    def __init__(self, shape, fn, dtype, name=None):
        self.ser = next(_ser)
        self.shape, self.fn, self.dtype, self.name = tuple(size(s) for s in shape), fn, dtype, name


class PartBuf:
    """the real or the imaginary part of a complex buffer, as a view: writing it changes the complex values"""

    def __init__(self, base, part):
        self.ser = next(_ser)
        self.base, self.part, self.shape, self.dtype, self.name = base, part, base.shape, 'R', None

    @property
    def frozen(self):
        return getattr(self.base, 'frozen', False)

    @property
    def fn(self):
        f, p = self.base.fn, T.re_ if self.part == 're' else T.im_
        return lambda *b: p(f(*b))

    def written(self, fn):
        f = self.base.fn
        if self.part == 're':
            return memo(lambda *b: lift(fn(*b)) + T.IU * T.im_(f(*b)))
        return memo(lambda *b: T.re_(f(*b)) + T.IU * lift(fn(*b)))


def memo(fn):
    cache = {}

    def g(*idx):
        k = idx
        r = cache.get(k)
        if r is None:
            r = cache[k] = lift(fn(*idx))
        return r
    return g


class Arr:
    """numpy array: a view (fwd: index -> buffer index; inv: buffer index -> (condition, index))"""

    def __init__(self, shape, buf, fwd=None, inv=None, cls=None):
        self.shape = tuple(size(s) for s in shape)
        self.buf, self.fwd, self.inv = buf, fwd, inv
        self.cls = cls
        self.attrs = {}

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, *idx):
        idx = tuple(lift(i) for i in idx)
        assert len(idx) == len(self.shape), (idx, self.shape)
        return self.buf.fn(*(self.fwd(*idx) if self.fwd else idx))

    def snap(self):
        fn, fwd = self.buf.fn, self.fwd
        if fwd is None:
            return fn
        return lambda *i: fn(*fwd(*i))

    def __repr__(self):
        return '<array %s %s>' % (self.dtype, self.shape)


def new(shape, fn, dtype='R'):
    shape = tuple(size(s) for s in shape)
    return Arr(shape, Buf(shape, memo(fn), dtype))


def sym(name, shape, dtype='R'):
    """array of unknown entries name(i, j, ...)"""
    sort = {'U': 'I', 'B': 'I'}.get(dtype, dtype)
    return new(shape, lambda *i: T.app(name, *i, sort=sort), dtype)


def in_range(idx, shape):
    return band(*[band(T.cmp_le(0, i), T.cmp_lt(i, n)) for i, n in zip(idx, shape)])


# ------------------------------------------------------------------ substitution of functions

_fn_cache = {}


def atom_fns(a):
    r = _fn_cache.get(a)
    if r is None:
        r = set()
        if a.kind == 'App':
            r.add(a.args[0])
        for x in (a.args[1] if a.kind == 'Sum' else a.args[0] if a.kind in ('Re', 'Im') else ()):
            r |= atom_fns(x[0])
        for x in a.args:
            if isinstance(x, Poly):
                r |= poly_fns(x)
        r = _fn_cache[a] = frozenset(r)
    return r


def poly_fns(p):
    s = set()
    for a in p.atoms():
        s |= atom_fns(a)
    return s


def subst_fn(p, env):
    """env: function name -> python function on Polys; replaces the applications everywhere"""
    if not isinstance(p, Poly):
        return p
    ks = env.keys()
    if not any(atom_fns(a) & ks for a in p.atoms()):
        return p
    acc = T.ZERO
    for m, c in p.t.items():
        q = Poly({tuple((a, e) for a, e in m if not atom_fns(a) & ks): c}, 'I')
        for a, e in sorted(((a, e) for a, e in m if atom_fns(a) & ks), key=lambda z: z[0].kind != 'Iv'):
            s = _subst_fn_atom(a, env)
            q = q * (s ** e if e >= 0 else T.inv(s) ** (-e))
            if q.is_zero():
                break
        acc = acc + q
    return Poly(acc.t, T.jsort(acc.sort, p.sort))


def _subst_fn_atom(a, env):
    k = a.kind
    if k == 'App':
        args = [subst_fn(x, env) for x in a.args[1:]]
        if a.args[0] in env:
            return lift(env[a.args[0]](*args))
        if a.args[0] in T.REBUILD:
            return T.REBUILD[a.args[0]](*args)
        return T.app(a.args[0], *args, sort=a.sort)
    if k == 'Iv':
        q = subst_fn(a.args[1], env)
        return (T.bool_of_poly(q) if a.args[0] == 'b' else T.mk_iv(a.args[0], q)).poly()
    if k == 'Inv':
        return T.inv(subst_fn(a.args[0], env))
    if k == 'Div':
        return T.floordiv(subst_fn(a.args[0], env), subst_fn(a.args[1], env))
    if k == 'Mod':
        return T.mod(subst_fn(a.args[0], env), subst_fn(a.args[1], env))
    if k == 'Sum':
        nb, m = a.args
        fr = [T.fresh('s') for _ in range(nb)]
        body = T.subst(Poly({m: 1}, a.sort), dict(zip(T.bvars(a), fr)))
        body = subst_fn(body, env)
        for f in fr:
            body = T.mk_sum_raw(T.the_var(f), body)
        return body
    if k in ('Re', 'Im'):
        q = subst_fn(Poly({a.args[0]: 1}, 'C'), env)
        return T.re_(q) if k == 'Re' else T.im_(q)
    raise TypeError(k)


# ------------------------------------------------------------------ interpreter

class Interp:
    def __init__(self, root, solver):
        self.root = root
        self.solver = solver          # pyvc.prove.Solver
        self.modules = {}
        self.nomerge = 0
        self.lenient = 0            # 1: a local variable that branches leave different cannot be read afterwards
        self.cuts = None            # names whose quotients are replaced by an arbitrary number
        self.cut_used = False
        self.maxdec = 12
        self.rerun = 0
        self.join = None             # an assertion at the end of a statement, see loops.Join
        self.split = 0              # 1: every branch is decided in the outermost scope
        self.pc = []
        self.log = []
        self.scopes = []
        self.contracts = {}           # function name -> native override
        self.list_hook = None
        self.sorted_hook = None
        self.loophints = {}
        self.keepalive = []
        self.ghosts = NDict()             # ghost states of matrices under construction
        self.pruned, self.runs = False, 0
        self.invariants = {}          # (function name, loop ordinal) -> invariant object
        self.seen = set()             # repo functions executed (real source)
        self.callstack = []
        self.depth = 0
        self.trap = None              # list collecting side conditions
        from . import npmodel
        self.np = npmodel
        self.stubs = npmodel.modules(self)
        self.bi = npmodel.builtins_ns(self)

    # ---------------------------------------------------------- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stubs:
            return self.stubs[name]
        path = os.path.join(self.root, *name.split('.')) + '.py'
        if not os.path.exists(path) or name.startswith('C:'):
            from . import front
            alt = front.source_for(self.root, name)
            if alt is not None:
                m = self.modules[name] = Module(name, {'__name__': name})
                m.path = alt[1]
                m.ns.update(self.np.c_names(self, name.startswith('C:')))
                if name == 'edpyt._psparse':
                    c = self.load('C:edpyt/cs_gaxpy.c')
                    m.ns.update({k: c.ns[k] for k in ('csr_gaxpy', 'csr_saxpy') if k in c.ns})
                self.run_module(m, alt[0])
                if name.startswith('C:'):
                    m.ns.update(self.np.c_alloc(self))
                return m
            pk = os.path.join(self.root, *name.split('.'))
            if os.path.isdir(pk):
                m = self.modules[name] = Module(name, {'__name__': name})
                return m
            raise Unsupported('module ' + name)
        src = open(path).read()
        m = self.modules[name] = Module(name, {'__name__': name})
        m.path = path
        return self.run_module(m, src)

    def run_module(self, m, src):
        name = m.name
        tree = ast.parse(src)
        number_loops(tree)
        fr = Frame(m.ns, None, m)
        for st in tree.body:
            try:
                self.stmt(st, fr)
            except Unsupported as e:
                # a top-level statement outside the subset only matters if its names are used
                for n in assigned_names(st):
                    m.ns[n] = Poison('module level of %s: %s' % (name, e))
        return m

    def get(self, modname, attr):
        m = self.load(modname)
        o = m
        for a in attr.split('.'):
            o = self.getattr(o, a)
        return o

    # ---------------------------------------------------------- state
    def set(self, d, key, val):
        self.log.append(('d', d, key, d.get(key, MISSING)))
        if val is MISSING:
            d.pop(key, None)
        else:
            d[key] = val

    def setbuf(self, buf, fn):
        if getattr(buf, 'frozen', False):
            raise Unsupported('write to an array that is one of several')
        if isinstance(buf, PartBuf):
            return self.setbuf(buf.base, buf.written(fn))
        self.log.append(('b', buf, None, buf.fn))
        buf.fn = fn

    def setlist(self, l, newl):
        self.log.append(('l', l, None, list(l)))
        l[:] = newl

    def setnat(self, obj, attr, val):
        self.log.append(('a', obj, attr, getattr(obj, attr)))
        setattr(obj, attr, val)

    def rollback(self, mark):
        while len(self.log) > mark:
            k, o, key, old = self.log.pop()
            if k == 'd':
                if old is MISSING:
                    o.pop(key, None)
                else:
                    o[key] = old
            elif k == 'b':
                o.fn = old
            elif k == 'l':
                o[:] = old
            else:
                setattr(o, key, old)

    def delta(self, mark):
        """locations written since mark -> (kind, obj, key, value before, value now)"""
        out = {}
        for k, o, key, old in self.log[mark:]:
            loc = (k, id(o), key)
            if loc not in out:
                out[loc] = [k, o, key, old, None]
        for v in out.values():
            k, o, key = v[0], v[1], v[2]
            v[4] = o.get(key, MISSING) if k == 'd' else o.fn if k == 'b' else list(o) if k == 'l' else getattr(o, key)
        return out

    def apply(self, loc, val):
        k, o, key = loc[0], loc[1], loc[2]
        if k == 'd':
            self.set(o, key, val)
        elif k == 'b':
            self.setbuf(o, val)
        elif k == 'l':
            self.setlist(o, val)
        else:
            self.setnat(o, key, val)

    # ---------------------------------------------------------- decisions
    def truth(self, v):
        """python truth of a value: bool or B"""
        if isinstance(v, bool):
            return v
        if isinstance(v, B):
            return v.args if v.op == 'c' else v
        if v is None:
            return False
        if isinstance(v, Poly):
            if v.is_const():
                return v.cval() != 0
            b = T.bool_of_poly(v)
            return b.args if b.op == 'c' else b
        if isinstance(v, (int, str, list, tuple, dict, set, float)):
            return bool(v)
        if isinstance(v, Word):
            return self.truth(self.num(v))
        if isinstance(v, Arr):
            if all(s == 1 for s in v.shape):
                return self.truth(v.get(*([0] * v.ndim)))
            raise Unsupported('truth of an array')
        if isinstance(v, Obj):
            f = v.cls.find('__bool__')
            if f is not MISSING:
                return self.truth(self.call(Bound(f, v), []))
            f = v.cls.find('__len__')
            if f is not MISSING:
                return self.truth(self.call(Bound(f, v), []))
            return True
        if isinstance(v, SList):
            return self.truth(bnot(T.cmp_eq(v.n, 0)))
        if isinstance(v, (Func, Native, Cls, Bound, Module, Rng)):
            return True
        if isinstance(v, Poison):
            raise Unsupported('use of ' + v.why)
        raise Unsupported('truth of %r' % (v,))

    def decide(self, c):
        c = self.truth(c)
        if isinstance(c, bool):
            return c
        if self.solver.implied(self.pc, c):
            return True
        if self.solver.implied(self.pc, bnot(c)):
            return False
        if not self.scopes:
            raise Unsupported('branch on %r outside a path scope' % (c,))
        sc = self.scopes[-1]
        if sc.pos < len(sc.dec):
            d = sc.dec[sc.pos]
        else:
            if len(sc.dec) > self.maxdec:
                raise Unsupported('too many branches')
            d = True
            sc.dec.append(True)
            sc.todo.append(True)
        sc.pos += 1
        cc = c if d else bnot(c)
        self.pc.append(cc)
        sc.conds.append((c, d))
        return d

    def assume(self, b):
        """b holds on the rest of this path"""
        if b.op == 'c' and b.args:
            return
        self.pc.append(b)
        if self.scopes:
            self.scopes[-1].conds.append((b, True))

    def enum(self, thunk):
        """every path of thunk from the current state: list of (conds, outcome kind, value, delta); state rolled back,
        except that a single path leaves its state in place (second result True)"""
        sc = Scope()
        if not self.scopes:
            self.runs += 1
        self.scopes.append(sc)
        mark = len(self.log)
        npc = len(self.pc)
        ndep, ncs = self.depth, len(self.callstack)
        paths = []
        pruned = False
        try:
            while True:
                sc.pos = 0
                sc.conds = []
                out = None
                try:
                    v = thunk()
                    out = ('ok', v)
                except Pruned:
                    pruned = True
                except Ret as r:
                    out = ('ret', r.v)
                except Brk:
                    out = ('brk', None)
                except Cont:
                    out = ('cont', None)
                except PyExc as e:
                    out = ('exc', e)
                self.depth = ndep
                del self.callstack[ncs:]
                del self.pc[npc:]
                if out is not None:
                    paths.append((list(sc.conds), out[0], out[1], self.delta(mark)))
                # next path
                del sc.dec[sc.pos:]
                del sc.todo[sc.pos:]
                while sc.dec and not sc.todo[-1]:
                    sc.dec.pop()
                    sc.todo.pop()
                if not sc.dec:
                    break
                sc.dec[-1] = False
                sc.todo[-1] = False
                self.rollback(mark)
            if len(paths) != 1 or pruned:
                self.rollback(mark)
            if not paths:
                raise Pruned()
            self.pruned = pruned
            return paths, len(paths) == 1 and not pruned
        finally:
            del self.pc[npc:]
            self.scopes.pop()

    def merged(self, thunk, where='', ignore=None):
        """run thunk; its internal branches are merged when possible, else decided in the enclosing scope.
        returns (kind, value)"""
        for _ in range(16):
            mark = len(self.log)
            paths, single = self.enum(thunk)
            if single:
                for c, d in paths[0][0]:
                    self.assume(c if d else bnot(c))
                return paths[0][1], paths[0][2]
            pruned = self.pruned
            try:
                m = self.merge(paths, ignore, where == 'for')
            except Unmergeable as e:
                self.rollback(mark)
                c = paths[0][0][0][0]
                if not self.scopes:
                    raise Unsupported('unmergeable branch: %s' % e)
                self.decide(c)
                continue
            for loc, val in m[2]:
                self.apply(loc, val)
            if pruned:
                self.assume(T.bor(*[band(*[c if d else bnot(c) for c, d in p[0]]) for p in paths]))
            return m[0], m[1]
        raise Unsupported('a branch that is not decided by its condition')

    def merge(self, paths, ignore=None, last=False):
        old, self.ends = self.ends, [p[3] for p in paths]
        try:
            return self.merge_(paths, ignore, last)
        finally:
            self.ends = old

    ends = None

    def endsnap(self, arr, k):
        """content of an array at the end of the k-th of the paths being merged"""
        def end(buf):
            if isinstance(buf, PartBuf):
                f, p = end(buf.base), T.re_ if buf.part == 're' else T.im_
                return lambda *b: p(f(*b))
            d = self.ends[k].get(('b', id(buf), None)) if self.ends is not None else None
            return d[4] if d is not None else buf.fn
        if self.ends is None:
            return arr.snap()
        fn, fwd = end(arr.buf), arr.fwd
        if fwd is None:
            return fn
        return lambda *i: fn(*fwd(*i))

    def merge_(self, paths, ignore=None, last=False):
        kinds = set(p[1] for p in paths)
        if len(kinds) > 1:
            if last and kinds <= {'ok', 'cont'}:
                kinds = {'ok'}
            else:
                raise Unmergeable('control flow %s' % kinds)
        kind = kinds.pop()
        if kind == 'exc':
            a = paths[0][2]
            if all(p[2].cls is a.cls and p[2].eargs == a.eargs for p in paths):
                kind, val = 'exc', a
            else:
                raise Unmergeable('exceptions')
        conds = [band(*[c if d else bnot(c) for c, d in p[0]]) for p in paths]
        if kind != 'exc':
            val = self.mergevals(conds, [p[2] for p in paths], 0)
        locs = {}
        for p in paths:
            for k, v in p[3].items():
                locs.setdefault(k, v)
        out = []
        for k, v in locs.items():
            if ignore is not None and v[1] is ignore:
                continue
            vals = [p[3][k][4] if k in p[3] else v[3] for p in paths]
            kindl = v[0]
            if kindl == 'b':
                out.append((v, self.mergefns(conds, vals)))
            elif kindl == 'l':
                out.append((v, self.mergelists(conds, vals)))
            else:
                try:
                    out.append((v, self.mergeinc(conds, vals, v[3])))
                except Unmergeable:
                    # a local variable that differs is only a problem when it is read later
                    if kindl == 'd' and isinstance(k[2], str) and (self.lenient or any(x is MISSING for x in vals)):
                        out.append((v, Poison('variable %s after a branch' % k[2])))
                    else:
                        raise
        return kind, val, out

    def mergeinc(self, conds, vals, old):
        """a number that every branch increases by something independent of it"""
        if isinstance(old, Poly) and old.vars() and all(isinstance(x, Poly) for x in vals):
            inc = [x - old for x in vals]
            if not any(d.vars() & old.vars() for d in inc):
                return old + self.mergevals(conds, inc, 0)
        return self.mergevals(conds, vals, 0)

    def mergefns(self, conds, fns):
        f0 = fns[0]
        if all(f is f0 for f in fns):
            return f0

        def g(*i):
            r = lift(fns[-1](*i))
            for c, f in list(zip(conds, fns))[-2::-1]:
                x = f(*i)
                if x != r and len(c.poly().t) * (len(x.t) + len(r.t)) > 2000:
                    raise Unreadable('an array element that depends on many branches')
                r = ite(c, x, r)
            return r
        return memo(g)

    def mergelists(self, conds, ls):
        if len(set(len(l) for l in ls)) > 1:
            raise Unmergeable('list lengths')
        return [self.mergevals(conds, [l[i] for l in ls], 1) for i in range(len(ls[0]))]

    def mergevals(self, conds, vals, depth):
        a = vals[0]
        if all(v is a for v in vals):
            return a
        if any(isinstance(v, PoisonVar) for v in vals):
            return next(v for v in vals if isinstance(v, PoisonVar))
        if any(isinstance(v, Poison) for v in vals):
            return next(v for v in vals if isinstance(v, Poison))
        if all(isnum(v) for v in vals):
            if all(isinstance(v, (bool, B)) for v in vals):
                r = tob(vals[-1])
                for c, v in list(zip(conds, vals))[-2::-1]:
                    v = tob(v)
                    r = bor(band(c, v), band(bnot(c), r))
                return r
            if any(isinstance(v, Word) for v in vals):
                ws = [self.word(v) if not isinstance(v, B) else None for v in vals]
                if None in ws:
                    raise Unmergeable('words')

                def wf(i):
                    r = ws[-1].fn(i)
                    for c, v in list(zip(conds, ws))[-2::-1]:
                        r = ite(c, v.fn(i), r)
                    return r
                wp = None
                if all(w.poly is not None for w in ws):
                    wp = ws[-1].poly
                    for c, v in list(zip(conds, ws))[-2::-1]:
                        if v.poly != wp and len(c.poly().t) * (len(v.poly.t) + len(wp.t)) > 400:
                            return Poison('a bit pattern that depends on many branches')
                        wp = ite(c, v.poly, wp)
                return Word(wf, wp)
            ps = [self.num(v) for v in vals]
            r = ps[-1]
            for c, v in list(zip(conds, ps))[-2::-1]:
                r = ite(c, v, r)
            return r
        if all(isinstance(v, Arr) for v in vals) and all('tape' in v.attrs for v in vals):
            # a matrix under construction and its storage cut to length: one array when the lengths agree where they differ in form
            if len(set(v.attrs['tape'] for v in vals)) == 1:
                for v in vals:
                    if all(w is v or all(self.same_dim(x, y) or self.solver.implied(self.pc + [c], T.cmp_eq(x, y)) for x, y in zip(v.shape, w.shape))
                           for c, w in zip(conds, vals)):
                        r = new(v.shape, v.buf.fn, v.dtype)
                        r.attrs['tape'] = v.attrs['tape']
                        return r
            raise Unmergeable('matrices under construction')
        if all(isinstance(v, Arr) for v in vals):
            if len(set(v.ndim for v in vals)) == 1 and all(self.same_shape(v.shape, a.shape) for v in vals):
                if all(v.cls is None for v in vals):
                    r = new(a.shape, self.mergefns(conds, [self.endsnap(v, k) for k, v in enumerate(vals)]), jdt(*[v.dtype for v in vals]))
                    r.buf.frozen = True         # which of the arrays it is depends on the branch: it can be read only
                    return r
        if all(isinstance(v, Obj) and '__tuple__' in v.attrs and v.cls is a.cls for v in vals):
            fields = a.cls.ns['_fields']
            fv = [self.mergevals(conds, [v.attrs[f] for v in vals], depth + 1) for f in fields]
            o = Obj(a.cls, dict(zip(fields, fv)))
            o.attrs['__tuple__'] = tuple(fv)
            return o
        if all(isinstance(v, tuple) for v in vals) and len(set(map(len, vals))) == 1:
            return tuple(self.mergevals(conds, [v[i] for v in vals], depth + 1) for i in range(len(a)))
        if all(isinstance(v, str) for v in vals) and len(set(vals)) == 1:
            return a
        if all(isinstance(v, Cls) for v in vals):
            pass
        raise Unmergeable('values %s' % (', '.join(map(repr, vals)))[:120])

    def same_shape(self, s, t):
        return len(s) == len(t) and all(self.same_dim(x, y) for x, y in zip(s, t))

    def same_dim(self, x, y):
        d = lift(x) - lift(y)
        if d.is_const():
            return d.is_zero()
        return self.solver.implied(self.pc, T.cmp_eq(d, 0))

    # ---------------------------------------------------------- numbers
    def num(self, v):
        if isinstance(v, Word):
            if v.poly is None:
                raise Unsupported('numeric value of a computed bit pattern')
            return v.poly
        if isinstance(v, (Poly, int, float, Fraction, complex, B)):
            return lift(v)
        if isinstance(v, Arr) and all(s == 1 for s in v.shape):
            return v.get(*([0] * v.ndim))
        if isinstance(v, Poison):
            raise Unsupported('use of ' + v.why)
        raise Unsupported('not a number: %r' % (v,))

    # ---------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        for n in s.names:
            fr.nonlocals.add(('g', n))

    def s_Nonlocal(self, s, fr):
        for n in s.names:
            fr.nonlocals.add(('n', n))

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value.value, fr) if s.value.value else None
            fr.on_yield(v)
            return
        if isinstance(s.value, ast.YieldFrom):
            self.iterate(self.ev(s.value.value, fr), fr.on_yield)
            return
        self.ev(s.value, fr)

    def s_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise Brk()

    def s_Continue(self, s, fr):
        raise Cont()

    def s_Assert(self, s, fr):
        if not self.decide(self.ev(s.test, fr)):
            raise PyExc('AssertionError', (self.ev(s.msg, fr),) if s.msg else ())

    def s_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(fr, 'handling', None)
            if e is None:
                raise Unsupported('bare raise')
            raise e
        e = self.ev(s.exc, fr)
        if isinstance(e, Cls):
            e = self.call(e, [])
        if isinstance(e, Obj):
            raise PyExc(e.cls, e.attrs.get('args', ()))
        raise Unsupported('raise %r' % (e,))

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set(fr.vars, t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                if isinstance(o, dict):
                    self.set(o, self.key(k), MISSING)
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.set(fr.vars, a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.set(fr.vars, top, self.load(top) if top != a.name else m)

    def s_ImportFrom(self, s, fr):
        base = s.module
        if s.level:
            p = fr.mod.name.split('.')[:-s.level]
            base = '.'.join(p + ([s.module] if s.module else []))
        m = self.load(base)
        for a in s.names:
            if a.name == '*':
                if '__all__' in m.ns or not isinstance(m, Module):
                    raise Unsupported('import * of a module with __all__')
                for k, v in list(m.ns.items()):
                    if not k.startswith('_'):
                        self.set(fr.vars, k, v)
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            else:
                try:
                    v = self.load(base + '.' + a.name)
                except Unsupported:
                    v = Poison('import of %s.%s' % (base, a.name))
            self.set(fr.vars, a.asname or a.name, v)

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            f = self.call(dv, [f])
        self.set(fr.vars, s.name, f)

    def mkfunc(self, node, fr, name):
        a = node.args
        return Func(node, fr, fr.mod, name, None, [self.ev(d, fr) for d in a.defaults],
                    {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        c = Cls(s.name, [b for b in bases if isinstance(b, Cls)])
        c.native_bases = [b for b in bases if not isinstance(b, Cls)]
        cf = Frame(c.ns, fr, fr.mod)
        cf.isclass = True
        for st in s.body:
            self.stmt(st, cf)
        for v in c.ns.values():
            if isinstance(v, Func):
                v.cls = c
            elif isinstance(v, Prop):
                for g in (v.get, v.set):
                    if isinstance(g, Func):
                        g.cls = c
        self.set(fr.vars, s.name, c)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        if self.list_hook is not None and isinstance(s.value, ast.List):
            v = self.list_hook(self.callstack[-1], v) or v
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if self.cuts is not None and t.id in self.cuts and isinstance(v, Poly) and v.sort == 'R' and has_inverse(v):
                v = T.fresh('cut', 'R')         # any number: more states than the program has
                self.cut_used = True
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.seq(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                k = st[0]
                tail = len(t.elts) - k - 1
                for x, y in zip(t.elts[:k], vs[:k]):
                    self.assign(x, y, fr)
                self.assign(t.elts[k].value, list(vs[k:len(vs) - tail]), fr)
                for x, y in zip(t.elts[k + 1:], vs[len(vs) - tail:]):
                    self.assign(x, y, fr)
                return
            if len(vs) != len(t.elts):
                raise PyExc('ValueError', ('unpack',))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.evslice(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def setname(self, n, v, fr):
        if ('g', n) in fr.nonlocals:
            self.set(fr.mod.ns, n, v)
        elif ('n', n) in fr.nonlocals:
            p = fr.parent
            while p is not None and n not in p.vars:
                p = p.parent
            self.set(p.vars, n, v)
        else:
            self.set(fr.vars, n, v)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            v = self.ev(s.value, fr)
            r = self.augop(cur, s.op, v)
            if r is not cur:
                self.setname(t.id, r, fr)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, fr), self.evslice(t.slice, fr)
            v = self.ev(s.value, fr)
            cur = self.getitem(o, k)
            r = self.augop(cur, s.op, v)
            if r is not cur or not (isinstance(o, Arr) and isinstance(cur, Arr)):
                self.setitem(o, k, r)
            elif isinstance(cur, Arr) and cur.buf is not o.buf:
                self.setitem(o, k, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            r = self.augop(cur, s.op, self.ev(s.value, fr))
            self.setattr(o, t.attr, r)
        else:
            raise Unsupported('augmented target')

    def augop(self, cur, op, v):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            if not isinstance(r, Arr):
                return r
            if not self.same_shape(r.shape, cur.shape):
                raise PyExc('ValueError', ('operands could not be broadcast',))
            self.store_all(cur, r.snap())
            return cur
        if isinstance(cur, list) and isinstance(op, ast.Add):
            self.setlist(cur, cur + list(self.seq(v)))
            return cur
        return self.binop(op, cur, v)

    def s_If(self, s, fr):
        if self.join is not None and self.join.wants(s, fr):
            return self.join.run(self, s, fr, self.if_)
        self.if_(s, fr)

    def if_(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        if isinstance(c, bool):
            self.block(s.body if c else s.orelse, fr)
            return
        if self.solver.implied(self.pc, c):
            return self.block(s.body, fr)
        if self.solver.implied(self.pc, bnot(c)):
            return self.block(s.orelse, fr)

        def thunk():
            self.block(s.body if self.decide(c) else s.orelse, fr)
        if self.nomerge or self.split:
            return thunk()
        k, v = self.merged(thunk, 'if')
        self.outcome(k, v)

    def outcome(self, k, v):
        if k == 'ret':
            raise Ret(v)
        if k == 'brk':
            raise Brk()
        if k == 'cont':
            raise Cont()
        if k == 'exc':
            raise v

    def s_With(self, s, fr):
        ms = []
        for it in s.items:
            m = self.ev(it.context_expr, fr)
            ms.append(m)
            v = m
            if isinstance(m, Obj) and m.cls.find('__enter__') is not MISSING:
                v = self.call(Bound(m.cls.find('__enter__'), m), [])
            elif isinstance(m, Gen):
                raise Unsupported('with generator')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)
        for m in ms:
            if isinstance(m, Obj) and m.cls.find('__exit__') is not MISSING:
                self.call(Bound(m.cls.find('__exit__'), m), [None, None, None])

    def s_Try(self, s, fr):
        def body():
            self.block(s.body, fr)
        # the body's internal branches are resolved in this scope so that a partial raise is decided, not merged
        try:
            self.block(s.body, fr)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None or self.matches(e, self.ev(h.type, fr)):
                    if h.name:
                        o = Obj(e.cls if isinstance(e.cls, Cls) else self.excls(e.cls), {'args': tuple(e.eargs)})
                        self.set(fr.vars, h.name, o)
                    old = getattr(fr, 'handling', None)
                    fr.handling = e
                    try:
                        self.block(h.body, fr)
                    finally:
                        fr.handling = old
                    break
            else:
                self.block(s.finalbody, fr)
                raise
        else:
            self.block(s.orelse, fr)
        self.block(s.finalbody, fr)

    def excls(self, name):
        c = self.bi.get(name)
        return c if isinstance(c, Cls) else self.bi['Exception']

    def matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.matches(e, x) for x in t)
        c = e.cls if isinstance(e.cls, Cls) else self.excls(e.cls)
        return isinstance(t, Cls) and t in c.mro()

    # ---------------------------------------------------------- loops
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)

        tries = any(isinstance(y, ast.Try) for z in s.body for y in ast.walk(z))

        def body(x):
            self.assign(s.target, x, fr)
            if tries and self.scopes:
                # the ways an iteration can end are merged before the next one
                k, v = self.merged(lambda: self.block(s.body, fr), 'for')
                if k == 'brk':
                    raise Brk()
                if k == 'ret':
                    raise Ret(v)
                if k == 'exc':
                    raise v
                return
            try:
                self.block(s.body, fr)
            except Cont:
                pass
        tag = (fr.func.name if fr.func else fr.mod.name, getattr(s, '_ord', None))
        try:
            self.iterate(it, body, tag, fr)
        except Brk:
            return
        self.block(s.orelse, fr)

    def s_While(self, s, fr):
        tag = (fr.func.name if fr.func else fr.mod.name, getattr(s, '_ord', None))
        inv = self.invariants.get(tag)
        if inv is not None:
            return inv.run_while(self, s, fr)
        n = 0
        while True:
            c = self.truth(self.ev(s.test, fr))
            if not isinstance(c, bool):
                c = self.decide(c)
            if not c:
                break
            try:
                self.block(s.body, fr)
            except Cont:
                pass
            except Brk:
                return
            n += 1
            if n > 400:
                raise Unsupported('while loop')
        self.block(s.orelse, fr)

    def iterate(self, it, f, tag=None, fr=None):
        """push-style iteration: f(value) for every element, in order"""
        if isinstance(it, (list, tuple)):
            for x in list(it):
                f(x)
            return
        if isinstance(it, (dict, set)):
            for x in list(it):
                f(x)
            return
        if isinstance(it, str):
            for x in it:
                f(x)
            return
        if isinstance(it, Rng):
            n = self.rng_len(it)
            if isinstance(n, int) and tag not in self.invariants:
                for k in range(n):
                    f(simp(lift(it.lo) + k * lift(it.step)))
                return
            self.sym_for(n, lambda i: f(lift(it.lo) + i * lift(it.step)), tag, fr, it)
            return
        if isinstance(it, Arr):
            n = it.shape[0]
            if isinstance(n, int):
                for k in range(n):
                    f(self.getitem(it, k))
                return
            self.sym_for(n, lambda i: f(self.getitem(it, i)), tag, fr)
            return
        if isinstance(it, SList):
            if isinstance(size(it.n), int):
                for k in range(size(it.n)):
                    f(it.fn(lift(k)))
                return
            self.sym_for(it.n, lambda i: f(it.fn(i)), tag, fr)
            return
        if isinstance(it, Iter):
            it.push(self, f, tag, fr)
            return
        if isinstance(it, Gen):
            fr2 = it.fr
            fr2.on_yield = f
            try:
                self.block(it.func.node.body, fr2)
            except Ret:
                pass
            return
        if isinstance(it, GenExp):
            self.comp(it.node.generators, 0, it.fr, lambda fr2: f(self.ev(it.node.elt, fr2)))
            return
        if isinstance(it, Obj):
            g = it.cls.find('__iter__')
            if g is not MISSING:
                return self.iterate(self.call(Bound(g, it), []), f, tag, fr)
            if it.attrs.get('__tuple__') is not None:
                return self.iterate(it.attrs['__tuple__'], f, tag, fr)
            g = it.cls.find('__getitem__')
            if g is not MISSING and it.cls.find('__len__') is not MISSING:
                n = self.call(Bound(it.cls.find('__len__'), it), [])
                return self.iterate(Rng(0, n), lambda i: f(self.call(Bound(g, it), [i])), tag, fr)
        raise Unsupported('iteration over %r' % (it,))

    def rng_len(self, r):
        lo, hi, st = lift(r.lo), lift(r.hi), size(lift(r.step))
        if not isinstance(st, int):
            raise Unsupported('symbolic step')
        d = hi - lo if st > 0 else lo - hi
        a = abs(st)
        if d.is_const():
            return max(0, -((-int(d.cval())) // a))
        if a != 1:
            d = T.floordiv(d + (a - 1), lift(a))
        return d          # may be negative: sym_for guards with 0 <= i < d

    def sym_for(self, n, f, tag=None, fr=None, rng=None):
        """summarise f(0), ..., f(n-1)"""
        from . import loops
        loops.summarise(self, n, f, tag, fr)

    def seq(self, v):
        """finite concrete sequence of values"""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, Arr) and isinstance(v.shape[0], int):
            return [self.getitem(v, k) for k in range(v.shape[0])]
        if isinstance(v, Obj) and '__tuple__' in v.attrs:
            return list(v.attrs['__tuple__'])
        out = []
        mark = len(self.log)
        if isinstance(v, SList) and not isinstance(size(v.n), int):
            raise Unsupported('symbolic length sequence')
        if isinstance(v, (Poly, int, B, type(None), Poison, Func)):
            raise Unsupported('sequence %r' % (v,))
        self.iterate(v, out.append)
        return out

    # ---------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (int, str)) or v is Ellipsis:
            return v
        if isinstance(v, float):
            if v != v or v in (float('inf'), -float('inf')):
                return lift(T.app('inf'))
            return Poly(lift(v).t, 'R')
        if isinstance(v, complex):
            return Poly((lift(v.real) + lift(v.imag) * T.IU).t, 'C')
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def name(self, n, fr):
        f = fr
        first = True
        while f is not None:
            if n in f.vars and (first or not getattr(f, 'isclass', False)):
                v = f.vars[n]
                break
            f = f.parent
            first = False
        else:
            if n in fr.mod.ns:
                v = fr.mod.ns[n]
            elif n in self.bi:
                v = self.bi[n]
            else:
                raise PyExc('NameError', (n,))
        if isinstance(v, Poison):
            raise Unsupported('use of ' + v.why)
        if isinstance(v, PoisonVar):
            return v.read()
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return NList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return {self.key(x) for x in self.elts(e.elts, fr)}

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.seq(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = NDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.key(self.ev(k, fr))] = self.ev(v, fr)
        return d

    def key(self, k):
        if isinstance(k, Poly):
            if k.is_const() and isinstance(k.cval(), int):
                return int(k.cval())
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Obj) and '__tuple__' in k.attrs:
            return tuple(self.key(x) for x in k.attrs['__tuple__'])
        if isinstance(k, (int, str, bool, frozenset, type(None))) or isinstance(k, (Obj, Func, Cls)):
            return k
        raise Unsupported('key %r' % (k,))

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr, '<lambda>')

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, fr)

        def thunk():
            return self.ev(e.body if self.decide(c) else e.orelse, fr)
        k, v = self.merged(thunk, 'ifexp')
        self.outcome(k, v)
        return v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        for x in e.values:
            # later operands are only evaluated where the earlier ones leave the result open
            if acc is None:
                v = self.ev(x, fr)
            else:
                n = len(self.pc)
                self.pc.append(acc if isand else bnot(acc))
                try:
                    v = self.ev(x, fr)
                finally:
                    del self.pc[n:]
            t = self.truth(v)
            last = x is e.values[-1]
            if isinstance(t, bool):
                if acc is None:
                    if t != isand:
                        return v
                    if last:
                        return v
                    continue
                if t != isand:
                    return bconst_(not isand)
                continue
            acc = t if acc is None else (band(acc, t) if isand else bor(acc, t))
        return acc if acc is not None else isand

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else bnot(t)
        if isinstance(v, Obj):
            nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[type(op).__name__]
            return self.call(self.getattr(v, nm), [])
        if isinstance(op, ast.USub):
            if isinstance(v, Arr):
                return self.map1(v, lambda x: -x)
            if isinstance(v, (int,)) and not isinstance(v, bool):
                return -v
            if isinstance(v, Word):
                raise Unsupported('negated word')
            return -self.num(v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, B):
                return bnot(v)
            if isinstance(v, Arr) and v.dtype == 'B':
                return self.map1(v, lambda x: T.ONE - x)
            if isinstance(v, bool):
                return not v
            if isinstance(v, int):
                return ~v
            if isinstance(v, Word):
                f = v.fn
                return Word(lambda i: T.ONE - f(i))
            if isinstance(v, Poly) and v.sort == 'I':
                return -v - 1
        raise Unsupported('unary operator')

    def e_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, fr)
            v = self.compare(op, l, r)
            if acc is None:
                acc = v
            else:
                a, b = self.truth(acc), self.truth(v)
                acc = band(tob(a), tob(b))
                if acc.op == 'c':
                    acc = acc.args
            l = r
        return acc

    def compare(self, op, l, r):
        t = type(op).__name__
        if t in ('Is', 'IsNot'):
            if isinstance(l, (bool, B)) and isinstance(r, (bool, B)) and l is not r:
                res = self.compare(ast.Eq(), l, r)
                return res if t == 'Is' else self.unop(ast.Not(), res)
            v = l is r or (isinstance(l, (int, str)) and ty(l) is ty(r) and l == r)
            return v if t == 'Is' else not v
        if t in ('In', 'NotIn'):
            v = self.contains(r, l)
            return v if t == 'In' else self.unop(ast.Not(), v)
        if isinstance(l, Arr) or isinstance(r, Arr):
            f = {'Lt': lambda a, b: T.cmp_lt(a, b), 'LtE': lambda a, b: T.cmp_le(a, b), 'Gt': lambda a, b: T.cmp_lt(b, a),
                 'GtE': lambda a, b: T.cmp_le(b, a), 'Eq': lambda a, b: T.cmp_eq(a, b), 'NotEq': lambda a, b: bnot(T.cmp_eq(a, b))}[t]
            if not isarrlike(l) or not isarrlike(r):
                return t == 'NotEq'
            return self.map2(l, r, lambda a, b: f(a, b).poly(), 'B')
        if isinstance(l, Obj) or isinstance(r, Obj):
            nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__', 'Eq': '__eq__', 'NotEq': '__ne__'}[t]
            if isinstance(l, Obj) and l.cls.find(nm) is not MISSING:
                return self.call(Bound(l.cls.find(nm), l), [r])
            lt = l.attrs.get('__tuple__') if isinstance(l, Obj) else l
            rt = r.attrs.get('__tuple__') if isinstance(r, Obj) else r
            if isinstance(lt, tuple) and isinstance(rt, tuple):
                return self.compare(op, lt, rt)
            if t in ('Eq', 'NotEq'):
                return (l is r) == (t == 'Eq')
            raise Unsupported('comparison of objects')
        if isnum(l) and isnum(r):
            if isinstance(l, (int, bool)) and isinstance(r, (int, bool)):
                return {'Lt': l < r, 'LtE': l <= r, 'Gt': l > r, 'GtE': l >= r, 'Eq': l == r, 'NotEq': l != r}[t]
            a, b = self.num(l), self.num(r)
            c = self.numcmp(t, a, b)
            return c.args if c.op == 'c' else c
        if t in ('Eq', 'NotEq'):
            if isinstance(l, (tuple, list)) and ty(l) is ty(r):
                if len(l) != len(r):
                    return t == 'NotEq'
                acc = TRUE
                for x, y in zip(l, r):
                    acc = band(acc, tob(self.truth(self.compare(ast.Eq(), x, y))))
                acc = acc.args if acc.op == 'c' else acc
                return acc if t == 'Eq' else self.unop(ast.Not(), acc)
            if ty(l) is not ty(r) or isinstance(l, (str, type(None), Cls, Func, frozenset, set)):
                return (l == r) == (t == 'Eq') if isinstance(l, (str, type(None), set, frozenset)) and ty(l) is ty(r) else (l is r) == (t == 'Eq')
            if isinstance(l, dict):
                return (l == r) == (t == 'Eq')
        if isinstance(l, str) and isinstance(r, str):
            return {'Lt': l < r, 'LtE': l <= r, 'Gt': l > r, 'GtE': l >= r}[t]
        if isinstance(l, tuple) and isinstance(r, tuple) and all(isinstance(x, int) for x in l + r):
            return {'Lt': l < r, 'LtE': l <= r, 'Gt': l > r, 'GtE': l >= r}[t]
        if isinstance(l, tuple) and isinstance(r, tuple) and len(l) == len(r) and l and t in ('Lt', 'LtE', 'Gt', 'GtE'):
            for x, y in zip(l, r):          # lexicographic, branching on equality
                e = tob(self.truth(self.compare(ast.Eq(), x, y)))
                if not self.decide(e.args if e.op == 'c' else e):
                    return self.compare(op, x, y)
            return t in ('LtE', 'GtE')
        if isinstance(l, (set, frozenset)) and isinstance(r, (set, frozenset)):
            return {'Lt': l < r, 'LtE': l <= r, 'Gt': l > r, 'GtE': l >= r}[t]
        raise Unsupported('comparison of %r and %r' % (l, r))

    def numcmp(self, t, a, b):
        if t == 'Lt':
            return T.cmp_lt(a, b)
        if t == 'LtE':
            return T.cmp_le(a, b)
        if t == 'Gt':
            return T.cmp_lt(b, a)
        if t == 'GtE':
            return T.cmp_le(b, a)
        c = T.cmp_eq(a, b)
        return c if t == 'Eq' else bnot(c)

    def contains(self, c, x):
        if isinstance(c, Obj):
            f = c.cls.find('__contains__')
            if f is not MISSING:
                return self.call(Bound(f, c), [x])
            if '__tuple__' in c.attrs:
                c = c.attrs['__tuple__']
        if isinstance(c, dict) or isinstance(c, (set, frozenset)):
            k = self.key(x)
            if k in c:
                return True
            if _symkey(k) or any(_symkey(y) for y in c):
                acc = FALSE
                for y in c:
                    acc = bor(acc, tob(self.truth(self.compare(ast.Eq(), x, y))))
                return acc.args if acc.op == 'c' else acc
            return False
        if isinstance(c, (list, tuple)):
            acc = FALSE
            for y in c:
                acc = bor(acc, tob(self.truth(self.compare(ast.Eq(), x, y))))
            return acc.args if acc.op == 'c' else acc
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Rng) and size(lift(c.step)) == 1:
            r = band(T.cmp_le(c.lo, self.num(x)), T.cmp_lt(self.num(x), c.hi))
            return r.args if r.op == 'c' else r
        if isinstance(c, Cls):
            raise Unsupported('in class')
        raise Unsupported('membership in %r' % (c,))

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul', 'Pow': 'pow', 'FloorDiv': 'floordiv',
              'Mod': 'mod', 'LShift': 'lshift', 'RShift': 'rshift', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}

    def binop(self, op, l, r):
        t = type(op).__name__
        for v in (l, r):
            if isinstance(v, Poison):
                raise Unsupported('use of ' + v.why)
        if isinstance(l, Obj) or isinstance(r, Obj):
            if isinstance(l, Obj):
                f = l.cls.find('__%s__' % self.DUNDER[t])
                if f is not MISSING:
                    return self.call(Bound(f, l), [r])
            if isinstance(r, Obj):
                f = r.cls.find('__r%s__' % self.DUNDER[t])
                if f is not MISSING:
                    return self.call(Bound(f, r), [l])
            if isinstance(l, Obj) and '__tuple__' in l.attrs:
                l = l.attrs['__tuple__']
            elif isinstance(r, Obj) and '__tuple__' in r.attrs:
                r = r.attrs['__tuple__']
            else:
                raise Unsupported('operator %s on %r, %r' % (t, l, r))
        if t == 'MatMult':
            return self.np.dot(self, l, r)
        if isinstance(l, Arr) or isinstance(r, Arr):
            if isinstance(l, (list, tuple)):
                l = self.np.array(self, l)
            if isinstance(r, (list, tuple)):
                r = self.np.array(self, r)
            dt = None
            if t in ('BitAnd', 'BitOr', 'BitXor'):
                if (isinstance(l, Arr) and l.dtype == 'B') or (isinstance(r, Arr) and r.dtype == 'B'):
                    fn = {'BitAnd': lambda a, b: a * b, 'BitOr': lambda a, b: a + b - a * b, 'BitXor': lambda a, b: a + b - 2 * a * b}[t]
                    return self.map2(l, r, fn, 'B')
            return self.map2(l, r, lambda a, b: self.arith(t, a, b), None, t)
        if isinstance(l, (list, tuple)) and t == 'Add' and isinstance(r, (list, tuple)):
            return l + ty(l)(r) if ty(l) is ty(r) else list(l) + list(r)
        if t == 'Mult' and isinstance(l, (list, tuple, str)) and isinstance(size(self.num(r)), int):
            return l * size(self.num(r))
        if t == 'Mult' and isinstance(r, (list, tuple, str)) and isinstance(size(self.num(l)), int):
            return r * size(self.num(l))
        if t == 'Mult' and isinstance(l, list) and len(l) == 1:
            x = l[0]
            return SList(self.num(r), lambda i: x)
        if isinstance(l, str) or isinstance(r, str):
            if t == 'Add':
                return l + r
            if t == 'Mod':
                return 'formatted'
            raise Unsupported('string operator')
        if isinstance(l, (set, frozenset)) and isinstance(r, (set, frozenset)):
            return {'BitAnd': l & r, 'BitOr': l | r, 'Sub': l - r, 'BitXor': l ^ r}[t]
        return self.arith(t, l, r)

    def arith(self, t, l, r):
        if isinstance(l, Word) or isinstance(r, Word) or t in ('LShift', 'RShift', 'BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(t, l, r)
        if isinstance(l, (int, bool)) and isinstance(r, (int, bool)):
            l_, r_ = int(l), int(r)
            if t == 'Add':
                return l_ + r_
            if t == 'Sub':
                return l_ - r_
            if t == 'Mult':
                return l_ * r_
            if t == 'Pow' and r_ >= 0:
                return l_ ** r_
            if t in ('FloorDiv', 'Mod') and r_ != 0:
                return l_ // r_ if t == 'FloorDiv' else l_ % r_
        a, b = self.num(l), self.num(r)
        if t == 'Add':
            return a + b
        if t == 'Sub':
            return a - b
        if t == 'Mult':
            return a * b
        if t == 'Div':
            self.nonzero(b)
            q = self.np.guarded_div(a, b)
            return Poly(q.t, 'R') if q.sort == 'I' else q
        if t == 'FloorDiv':
            self.nonzero(b)
            if a.sort != 'I' or b.sort != 'I':
                raise Unsupported('floor division of reals')
            return simp(self.ctx(T.floordiv(a, b)))
        if t == 'Mod':
            self.nonzero(b)
            if a.sort != 'I' or b.sort != 'I':
                raise Unsupported('modulus of reals')
            return simp(self.ctx(T.mod(a, b)))
        if t == 'Pow':
            return self.np.power(self, a, b)
        raise Unsupported('operator ' + t)

    def ctx(self, p):
        return self.solver.simplify_ctx(p, self.pc)

    def nonzero(self, b):
        if b.is_zero():
            raise PyExc('ZeroDivisionError')

    def bitop(self, t, l, r):
        if isinstance(l, (int, bool)) and isinstance(r, (int, bool)):
            return {'LShift': lambda: l << r, 'RShift': lambda: l >> r, 'BitAnd': lambda: l & r, 'BitOr': lambda: l | r,
                    'BitXor': lambda: l ^ r, 'Add': lambda: l + r, 'Sub': lambda: l - r}[t]()
        if isinstance(l, (B, bool)) and isinstance(r, (B, bool)) and t in ('BitAnd', 'BitOr', 'BitXor'):
            l, r = tob(l), tob(r)
            if t == 'BitAnd':
                return band(l, r)
            if t == 'BitOr':
                return bor(l, r)
            return bor(band(l, bnot(r)), band(bnot(l), r))
        if t in ('BitAnd', 'BitOr', 'BitXor'):
            a = self.zero_one(l)
            b = a and self.zero_one(r)
            if b:
                (a,), (b,) = a, b
                return a * b if t == 'BitAnd' else a + b - (a * b if t == 'BitOr' else 2 * a * b)
        if t in ('LShift', 'RShift'):
            k = self.num(r)
            w = self.word(l)
            f = w.fn
            if t == 'RShift':
                kc = size(k)
                pp = None
                if isinstance(kc, int) and 0 <= kc < 64 and w.poly is not None and not isinstance(w.poly, Word):
                    pp = T.floordiv(w.poly, lift(2 ** kc)) if w.poly.sort == 'I' else None
                return Word(lambda i: f(lift(i) + k), pp)
            return WordShl(lambda i: T.cmp_le(k, lift(i)).poly() * f(lift(i) - k), l, k)
        if t == 'Sub' and isinstance(l, WordShl) and l.one and size(self.num(r)) == 1:
            k = l.k
            return Word(lambda i: T.cmp_lt(lift(i), k).poly())
        a, b = self.word(l), self.word(r)
        f, g = a.fn, b.fn
        if t == 'BitAnd':
            for x, y in ((l, b), (r, a)):
                if isconst(x, 1):
                    return y.fn(T.ZERO)
            return Word(lambda i: f(i) * g(i))
        if t == 'BitOr':
            return Word(lambda i: f(i) + g(i) - f(i) * g(i))
        if t == 'BitXor':
            return Word(lambda i: f(i) + g(i) - 2 * f(i) * g(i))
        if t == 'Add' and isinstance(l, Word) and isinstance(r, Word):
            i = T.fresh('bit')
            if self.solver.iszero(f(i) * g(i), self.pc, 3, 3):
                return Word(lambda i: f(i) + g(i), l.poly + r.poly if l.poly is not None and r.poly is not None else None)
        return self.arith(t, self.num(l), self.num(r))

    def zero_one(self, v):
        """(value,) of an operand that is 0 or 1 for sure, else None"""
        if isinstance(v, B):
            return (v.poly(),)
        p = v.poly if isinstance(v, Word) else v if isinstance(v, Poly) else None
        if p is None or isinstance(p, Word):
            return None
        if p.is_const():
            return (p,) if p.is_zero() or p == T.ONE else None
        if len(p.t) == 1 and all(a.kind in ('Var', 'App') and not (a.kind == 'App' and a.args[0] in T.BITLIKE) for m in p.t for a, e in m):
            return None
        p = self.decided(p)
        return (p,) if T.zero_one(p) else None

    def decided(self, p):
        for a in [a for a in p.atoms() if a.kind == 'Iv']:
            b = T.mk_iv(*a.args)
            if self.solver.implied(self.pc, b):
                p = T.subst_iv(p, a, T.ONE)
            elif self.solver.implied(self.pc, bnot(b)):
                p = T.subst_iv(p, a, T.ZERO)
        return p

    def defined(self, p):
        """an element of an array that was allocated without values, read where it has been written"""
        if isinstance(p, Poly) and any(a.kind == 'App' and (a.args[0] == 'undef' or a.args[0].startswith('h!')) for a in p.atoms()):
            return self.decided(p)
        return p

    def word(self, v):
        if isinstance(v, Word):
            return v
        if isinstance(v, B):
            p = v.poly()
            return Word(lambda i: T.cmp_eq(i, 0).poly() * p, p)
        if isinstance(v, int) and v >= 0:
            def f(i, v=v):
                i = lift(i)
                if i.is_const():
                    return lift((v >> int(i.cval())) & 1 if i.cval() >= 0 else 0)
                acc = T.ZERO
                for k in range(v.bit_length()):
                    if (v >> k) & 1:
                        acc = acc + T.cmp_eq(i, k).poly()
                return acc
            return Word(f, lift(v))
        if isinstance(v, Poly):
            if v.is_const():
                return self.word(int(v.cval()))
            return Word.of(v)
        raise Unsupported('bit pattern %r' % (v,))

    # arrays element-wise
    def map1(self, a, f, dt=None):
        g = a.snap()
        return new(a.shape, lambda *i: f(g(*i)), dt or a.dtype)

    def bshape(self, s, t):
        n = max(len(s), len(t))
        s, t = (1,) * (n - len(s)) + tuple(s), (1,) * (n - len(t)) + tuple(t)
        out = []
        for x, y in zip(s, t):
            if isinstance(x, int) and x == 1:
                out.append(y)
            elif isinstance(y, int) and y == 1:
                out.append(x)
            elif self.same_dim(x, y):
                out.append(x)
            elif isinstance(x, int) and isinstance(y, int):
                raise PyExc('ValueError', ('operands could not be broadcast',))
            else:
                raise Unsupported('broadcast of %s and %s' % (s, t))
        return tuple(out)

    def bget(self, v, shape):
        """function of the broadcast index"""
        if not isinstance(v, Arr):
            p = self.num(v)
            return lambda *i: p
        g, vs, k = v.snap(), v.shape, len(shape) - len(v.shape)
        one = [isinstance(s, int) and s == 1 for s in vs]
        if not any(one):
            return lambda *i: g(*i[k:])
        return lambda *i: g(*[T.ZERO if o else x for o, x in zip(one, i[k:])])

    def map2(self, l, r, f, dt=None, op=None):
        if isinstance(l, (list, tuple)):
            l = self.np.array(self, l)
        if isinstance(r, (list, tuple)):
            r = self.np.array(self, r)
        ls, rs = (l.shape if isinstance(l, Arr) else ()), (r.shape if isinstance(r, Arr) else ())
        sh = self.bshape(ls, rs)
        a, b = self.bget(l, sh), self.bget(r, sh)
        if dt is None:
            dt = jdt(dtype_of(l), dtype_of(r))
            if op == 'Div' and dt in 'IBU':
                dt = 'R'
            if dt == 'B':
                dt = 'I'
        res = new(sh, lambda *i: f(a(*i), b(*i)), dt)
        for x in (l, r):
            if isinstance(x, Arr) and x.cls is not None:
                res.cls = x.cls
        return res

    def store_all(self, a, fn):
        """a[...] = fn(index) for every index of the view a"""
        if a.fwd is None:
            self.setbuf(a.buf, memo(fn))
            return
        old, inv = a.buf.fn, a.inv
        if inv is None:
            raise Unsupported('store through this view')

        def g(*b):
            c, i = inv(*b)
            if c.op == 'c':
                return fn(*i) if c.args else old(*b)
            return ite(c, fn(*i), old(*b))
        self.setbuf(a.buf, memo(g))

    # ---------------------------------------------------------- subscripts
    def evslice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.evslice(x, fr) for x in s.elts)
        if isinstance(s, ast.Index):
            return self.evslice(s.value, fr)
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.evslice(e.slice, fr))

    def getitem(self, o, k):
        if hasattr(o, 'tape'):
            return o.tape.read(o.field, k)
        if isinstance(o, Poison):
            raise Unsupported('use of ' + o.why)
        if isinstance(o, Arr):
            return self.np.index(self, o, k)
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, slice):
                return o[slice(*[None if x is None else int(size(self.num(x))) for x in (k.start, k.stop, k.step)])]
            i = self.num(k)
            if i.is_const():
                try:
                    return o[int(i.cval())]
                except IndexError:
                    raise PyExc('IndexError')
            if isinstance(o, str):
                raise Unsupported('symbolic string index')
            # symbolic choice among concrete elements
            if len(o) > 8:
                raise Unsupported('symbolic list index')
            for j in range(len(o) - 1):
                if self.decide(T.cmp_eq(i, j)):
                    return o[j]
            return o[-1]
        if isinstance(o, SList):
            i = self.num(k)
            if i.is_const() and i.cval() < 0:
                i = lift(o.n) + i
            return o.fn(i)
        if isinstance(o, dict):
            kk = self.key(k)
            if kk in o:
                return o[kk]
            if _symkey(kk) or any(_symkey(y) for y in o):
                for y in list(o):
                    if self.decide(self.compare(ast.Eq(), k, y)):
                        return o[y]
            f = getattr(o, 'factory', None)
            if f is not None:
                v = self.call(f, [])
                self.set(o, kk, v)
                return v
            raise PyExc('KeyError', (kk,))
        if isinstance(o, Obj):
            f = o.cls.find('__getitem__')
            if f is not MISSING:
                return self.call(Bound(f, o), [k])
            if '__tuple__' in o.attrs:
                return self.getitem(o.attrs['__tuple__'], k)
            if '__dict__store' in o.attrs:
                return self.getitem(o.attrs['__dict__store'], k)
        if isinstance(o, Cls) or isinstance(o, Native):
            return o           # typing / numba subscription
        if isinstance(o, Rng):
            i = self.num(k)
            return simp(lift(o.lo) + i * lift(o.step))
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            return self.np.setindex(self, o, k, v)
        if isinstance(o, dict):
            kk = self.key(k)
            if kk not in o and (_symkey(kk) or any(_symkey(y) for y in o)):
                for y in list(o):
                    if self.decide(self.compare(ast.Eq(), k, y)):
                        kk = y
                        break
            self.set(o, kk, v)
            return
        if isinstance(o, list):
            if isinstance(k, slice):
                nl = list(o)
                nl[slice(*[None if x is None else int(size(self.num(x))) for x in (k.start, k.stop, k.step)])] = self.seq(v)
                return self.setlist(o, nl)
            i = self.num(k)
            if i.is_const():
                nl = list(o)
                try:
                    nl[int(i.cval())] = v
                except IndexError:
                    raise PyExc('IndexError')
                return self.setlist(o, nl)
            old, self.ends = self.ends, None
            try:
                self.setlist(o, [self.mergevals([T.cmp_eq(i, j), TRUE], [v, x], 0) for j, x in enumerate(o)])
            finally:
                self.ends = old
            return
        if isinstance(o, Obj):
            f = o.cls.find('__setitem__')
            if f is not MISSING:
                return self.call(Bound(f, o), [k, v])
        raise Unsupported('item assignment on %r' % (o,))

    # ---------------------------------------------------------- attributes
    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def getattr(self, o, a, default=MISSING):
        v = self.getattr_(o, a)
        if v is MISSING:
            if default is not MISSING:
                return default
            raise PyExc('AttributeError', (a,))
        if isinstance(v, Poison):
            raise Unsupported('use of ' + v.why)
        return v

    def getattr_(self, o, a):
        if isinstance(o, Poison):
            raise Unsupported('use of ' + o.why)
        if isinstance(o, Module):
            if a in o.ns:
                return o.ns[a]
            try:
                return self.load(o.name + '.' + a)
            except Unsupported:
                raise Unsupported('%s.%s' % (o.name, a))
        if hasattr(o, 'tape') and a == 'append':
            return Native(lambda I, v: o.append(I, v), 'append')
        if isinstance(o, Obj):
            c = o.cls.find(a)
            if isinstance(c, Prop):
                return self.call(Bound(c.get, o), [])
            if a in o.attrs:
                return o.attrs[a]
            if c is not MISSING:
                if isinstance(c, Static):
                    return c.f
                if isinstance(c, ClsM):
                    return Bound(c.f, o.cls)
                if isinstance(c, Func) or isinstance(c, Native) and getattr(c, 'method', False):
                    return Bound(c, o)
                return c
            if a == '__class__':
                return o.cls
            if a == '__dict__':
                return o.attrs
            g = o.cls.find('__getattr__')
            if g is not MISSING:
                return self.call(Bound(g, o), [a])
            return self.np.obj_attr(self, o, a)
        if isinstance(o, Cls):
            c = o.find(a)
            if isinstance(c, Static):
                return c.f
            if isinstance(c, ClsM):
                return Bound(c.f, o)
            if c is not MISSING:
                return c
            if a == '__name__':
                return o.name
            if a == '__new__':
                return Native(lambda I, *x: Obj(o), '__new__')
            return MISSING
        if isinstance(o, Super):
            for c in o.after:
                if a in c.ns:
                    v = c.ns[a]
                    if isinstance(v, Prop):
                        return self.call(Bound(v.get, o.obj), [])
                    return Bound(v, o.obj) if isinstance(v, (Func, Native)) else v
            if a == '__new__' and isinstance(o.obj, Cls):
                return Native(lambda I, c, *x: Obj(c), '__new__')
            return self.np.super_attr(self, o, a)
        if isinstance(o, Arr):
            if o.cls is not None:
                c = o.cls.find(a)
                if c is not MISSING:
                    return Bound(c, o) if isinstance(c, Func) else c
            if a in o.attrs:
                return o.attrs[a]
            return self.np.arr_attr(self, o, a)
        if isinstance(o, Func):
            if a in o.attrs:
                return o.attrs[a]
            if a == '__name__':
                return o.name
            if a == '__get__':
                return Native(lambda I, x, c=None: Bound(o, x))
            return MISSING
        return self.np.val_attr(self, o, a)

    def setattr(self, o, a, v):
        if isinstance(o, Obj):
            c = o.cls.find(a)
            if isinstance(c, Prop) and c.set is not None:
                self.call(Bound(c.set, o), [v])
                return
            self.set(o.attrs, a, v)
            return
        if isinstance(o, Module):
            self.set(o.ns, a, v)
            return
        if isinstance(o, Arr):
            if a == 'shape':
                r = self.np.reshape(self, o, v)
                if r.fwd is None and o.fwd is not None:
                    raise Unsupported('shape assignment')
                self.setnat(o, 'shape', r.shape)
                self.setnat(o, 'fwd', r.fwd)
                self.setnat(o, 'inv', r.inv)
                self.setnat(o, 'buf', r.buf)
                return
            if a in ('real', 'imag'):
                part = self.getattr(o, a)
                if part is o:
                    self.np.setindex(self, o, Ellipsis, v)
                elif not isinstance(part.buf, PartBuf):
                    raise Unsupported('imaginary part of a real array')
                else:
                    self.np.setindex(self, part, Ellipsis, v)
                return
            if a in ('dtype', 'strides', 'data', 'flat', 'T'):
                raise Unsupported('assignment to the array attribute ' + a)
            self.set(o.attrs, a, v)
            return
        if isinstance(o, Func):
            self.set(o.attrs, a, v)
            return
        if isinstance(o, Cls):
            self.set(o.ns, a, v)
            return
        raise Unsupported('attribute assignment on %r' % (o,))

    # ---------------------------------------------------------- comprehension
    def comp(self, gens, k, fr, f):
        if k == len(gens):
            f(fr)
            return
        g = gens[k]
        it = self.ev(g.iter, fr)

        def body(x):
            fr2 = Frame(NDict(), fr, fr.mod, fr.func)
            self.assign(g.target, x, fr2)
            for c in g.ifs:
                if not self.decide(self.ev(c, fr2)):
                    return
            self.comp(gens, k + 1, fr2, f)
        self.iterate(it, body)

    def symlen(self, it):
        """symbolic length of an iterable, or None when it is concrete"""
        if isinstance(it, Rng):
            n = self.rng_len(it)
            return None if isinstance(n, int) else n
        if isinstance(it, Arr):
            return None if isinstance(it.shape[0], int) else it.shape[0]
        if isinstance(it, SList):
            return None if isinstance(size(it.n), int) else it.n
        if isinstance(it, Iter):
            return it.n
        return None

    def at(self, it, i):
        if isinstance(it, Rng):
            return lift(it.lo) + i * lift(it.step)
        if isinstance(it, Arr):
            return self.getitem(it, i)
        return it.fn(i)

    def freeze(self, n, fn):
        """list of n elements fn(0..n-1), evaluated now (for a symbolic index) when the elements are values"""
        i = T.fresh('c')
        iv = T.the_var(i)
        start = next(_ser)
        mark, npc, ncond = len(self.log), len(self.pc), len(self.scopes[-1].conds) if self.scopes else 0
        self.pc += [T.cmp_le(0, i), T.cmp_lt(i, lift(n))]
        try:
            v = fn(i)
        finally:
            extra = self.pc[npc + 2:]
            self.pc[npc:] = extra
        if any(iv in b.vars() for b in extra):
            raise Unsupported('element-dependent branch in a comprehension')
        if any(getattr(l[1], 'ser', 0) < start for l in self.log[mark:]):
            raise Unsupported('comprehension with a side effect')
        g = self.frozen(v, iv)
        if g is not None:
            return SList(n, g)
        return SList(n, fn)

    def frozen(self, v, iv):
        if isinstance(v, Word):
            return None
        if isinstance(v, (Poly, int, float, complex, Fraction)) or isinstance(v, B):
            if isinstance(v, B):
                q = v.poly()
                return lambda k: T.bool_of_poly(T.subst(q, {iv: lift(k)}))
            p = lift(v)
            return lambda k: T.subst(p, {iv: lift(k)})
        if isinstance(v, Arr) and v.cls is None and not v.attrs:
            fn, sh, dt = v.snap(), v.shape, v.dtype
            js = [T.fresh('j') for _ in sh]
            p = lift(fn(*js))
            jv = [T.the_var(j) for j in js]
            return lambda k: new([T.subst(lift(x), {iv: lift(k)}) for x in sh],
                                 lambda *ix: T.subst(p, dict(zip([iv] + jv, map(lift, (k,) + ix)))), dt)
        if isinstance(v, tuple) and v:
            gs = [self.frozen(x, iv) for x in v]
            if all(g is not None for g in gs):
                return lambda k: tuple(g(k) for g in gs)
        return None

    def e_ListComp(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            it = self.ev(g.iter, fr)
            n = self.symlen(it)
            if n is not None:
                cells = {}
                f0 = fr
                while f0 is not None and f0.parent is not None:
                    cells = {**f0.vars, **cells}
                    f0 = f0.parent
                cap = Frame(NDict(cells), f0, fr.mod, fr.func)

                def fn(i):
                    fr2 = Frame(NDict(), cap, fr.mod, fr.func)
                    self.assign(g.target, self.at(it, i), fr2)
                    k, v = self.merged(lambda: self.ev(e.elt, fr2))
                    self.outcome(k, v)
                    return v
                return self.freeze(n, fn)
            out = []

            def body(x):
                fr2 = Frame(NDict(), fr, fr.mod, fr.func)
                self.assign(g.target, x, fr2)
                out.append(self.ev(e.elt, fr2))
            self.iterate(it, body)
            return out
        out = []
        self.comp(e.generators, 0, fr, lambda fr2: out.append(self.ev(e.elt, fr2)))
        return out

    def e_SetComp(self, e, fr):
        l = self.e_ListComp(e, fr)
        return SymSet(l) if isinstance(l, SList) else set(self.key(x) for x in l)

    def e_GeneratorExp(self, e, fr):
        return GenExp(e, fr)

    def e_DictComp(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ev(e.generators[0].iter, fr)
            if self.symlen(it) is not None:         # {i: value(i)} over positions: a list of the values
                pair = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
                l = self.e_ListComp(ast.copy_location(ast.ListComp(pair, e.generators), e), fr)
                i = T.fresh('c')
                k = l.fn(i)[0]
                if not isnum(k) or not (lift(self.num(k)) - i).is_zero():
                    raise Unsupported('dictionary with symbolic keys')
                return SList(l.n, lambda i: l.fn(i)[1])
        d = NDict()
        self.comp(e.generators, 0, fr, lambda fr2: d.__setitem__(self.key(self.ev(e.key, fr2)), self.ev(e.value, fr2)))
        return d

    def e_JoinedStr(self, e, fr):
        return 'formatted'

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Slice(self, e, fr):
        return self.evslice(e, fr)

    # ---------------------------------------------------------- calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            if f is None:
                raise Unsupported('super')
            slf = f.vars[f.func.node.args.args[0].arg]
            cls = f.func.cls
            mro = (slf.cls if isinstance(slf, (Obj, Arr)) else slf).mro()
            return Super(slf, mro[mro.index(cls) + 1:], cls)
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                kw.update(v if isinstance(v, dict) else v.attrs)
            else:
                kw[k.arg] = v
        if isinstance(f, Native) and f.name == 'locals':
            return dict(fr.vars)
        return self.call(f, args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Native):
            return f.fn(self, *args, **kw)
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.callfunc(f, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Obj):
            c = f.cls.find('__call__')
            if c is not MISSING:
                return self.call(Bound(c, f), args, kw)
        if isinstance(f, Static):
            return self.call(f.f, args, kw)
        if isinstance(f, Poison):
            raise Unsupported('use of ' + f.why)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, c, args, kw):
        for k in c.mro():
            if k.native_new is not None:
                return k.native_new(self, c, args, kw)
        nw = c.find('__new__')
        if nw is not MISSING:
            o = self.call(nw, [c] + list(args), kw)
            if not isinstance(o, Obj) or c not in o.cls.mro():
                return o
        else:
            o = Obj(c)
        init = c.find('__init__')
        if init is not MISSING:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            if any(k.name in ('Exception', 'BaseException') for k in c.mro()):
                o.attrs['args'] = tuple(args)
            else:
                raise Unsupported('constructor of %s' % c.name)
        return o

    def callfunc(self, f, args, kw):
        q = (f.cls.name + '.' if f.cls else '') + f.name
        full = f.mod.name.split('.')[-1] + '.' + q
        for nm in (full, q if f.cls else None):
            if nm in self.contracts:
                r = self.contracts[nm](self, f, args, kw)
                if r is not NotImplemented:
                    return r
        if f.name in self.contracts and not f.cls:
            r = self.contracts[f.name](self, f, args, kw)
            if r is not NotImplemented:
                return r
        return self.inline(f, args, kw)

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        v = NDict()
        args = list(args)
        for n, x in zip(names, args):
            v[n] = x
        rest = args[len(names):]
        if a.vararg:
            v[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyExc('TypeError', ('%s() takes %d arguments, %d given' % (f.name, len(names), len(args)),))
        kw = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in v:
                    raise PyExc('TypeError', ('multiple values for ' + n,))
                v[n] = kw.pop(n)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            v.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            v.setdefault(n, d)
        if a.kwarg:
            v[a.kwarg.arg] = kw
        elif kw:
            raise PyExc('TypeError', ('unexpected keyword %s' % list(kw),))
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in v:
                raise PyExc('TypeError', ('missing argument %s of %s' % (n, f.name),))
        return v

    def inline(self, f, args, kw):
        v = self.bind(f, args, kw)
        if not f.name.startswith('<'):
            self.seen.add(f.mod.name.split('.')[-1] + '.' + ((f.cls.name + '.') if f.cls else '') + f.name)
        fr = Frame(v, f.frame, f.mod, f)
        if f.isgen:
            return Gen(f, fr)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion')
        self.callstack.append(f.name)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)

            init = dict(v)

            def thunk():
                # locals restart on every path
                fr.vars.clear()
                fr.vars.update(init)
                self.block(f.node.body, fr)
            d0 = self.depth
            if not self.scopes:
                # top level: paths are not merged here; caller runs inside enum()
                raise Unsupported('call outside a path scope')
            if self.split:
                try:
                    thunk()
                except Ret as r:
                    return r.v
                return None
            k, r = self.merged(thunk, f.name, fr.vars)
            self.depth = d0
            if k == 'exc':
                raise r
            return r if k == 'ret' else None
        finally:
            self.depth -= 1
            if self.callstack and self.callstack[-1] == f.name:
                self.callstack.pop()


class Scope:
    def __init__(self):
        self.dec, self.todo, self.pos, self.conds = [], [], 0, []


class Prop:
    def __init__(self, get, set=None):
        self.get, self.set = get, set


class Static:
    def __init__(self, f):
        self.f = f


class ClsM:
    def __init__(self, f):
        self.f = f


class Super:
    def __init__(self, obj, after, cls):
        self.obj, self.after, self.cls = obj, after, cls


class PoisonVar:
    def read(self):
        raise Unsupported('poisoned')


class SymSet:
    """set of the elements of a list of symbolic length"""

    def __init__(self, items):
        self.items = items


class Iter:
    """library iterator with its own push method"""

    def __init__(self, push):
        self.push = lambda I, f, tag, fr: push(f, tag, fr)
        self.n, self.fn = None, None       # symbolic length and element by position


class WordShl(Word):
    def __init__(self, fn, base, k):
        Word.__init__(self, fn)
        self.one = isconst(base, 1)
        self.k = k
        kc, b = size(k), getattr(base, 'poly', base)
        if isinstance(kc, int) and 0 <= kc < 64 and isinstance(b, (int, Poly)) and lift(b).is_const():
            self.poly = lift(b) * 2 ** kc


class DefDict(NDict):
    factory = None


def _symkey(k):
    if isinstance(k, Poly):
        return True
    if isinstance(k, tuple):
        return any(_symkey(x) for x in k)
    return False


def isconst(x, v):
    if isinstance(x, Word):
        x = x.poly
    if isinstance(x, Poly):
        return x.is_const() and x.cval() == v
    return isinstance(x, int) and x == v


def simp(p):
    """python int for constant integers"""
    if isinstance(p, Poly) and p.is_const() and p.sort == 'I':
        return int(p.cval())
    return p


def bconst_(x):
    return bool(x)


def tob(v):
    if isinstance(v, B):
        return v
    return TRUE if v else FALSE


def ty(v):
    t = type(v)
    return list if t is NList else dict if t is NDict else t


def isnum(v):
    return isinstance(v, (int, float, bool, Poly, B, Fraction, complex, Word))


def isarrlike(v):
    return isnum(v) or isinstance(v, (Arr, list, tuple))


_DT = 'BUIRCO'


def jdt(*ds):
    return max(ds, key=_DT.index)


def dtype_of(v):
    if isinstance(v, Arr):
        return v.dtype
    if isinstance(v, (bool, B)):
        return 'B'
    if isinstance(v, int):
        return 'I'
    if isinstance(v, Poly):
        return v.sort if v.sort in 'IRC' else 'O'
    if isinstance(v, Word):
        return 'U'
    if isinstance(v, (list, tuple)):
        return jdt(*[dtype_of(x) for x in v]) if v else 'R'
    if isinstance(v, float) or isinstance(v, Fraction):
        return 'R'
    if isinstance(v, complex):
        return 'C'
    raise Unsupported('dtype of %r' % (v,))


def number_loops(tree):
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Module)):
            k = 0
            st = list(reversed(f.body))
            while st:
                x = st.pop()
                if isinstance(x, (ast.For, ast.While)):
                    x._ord = k
                    k += 1
                if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                st.extend(reversed(list(ast.iter_child_nodes(x))))


def has_inverse(p):
    return any(a.kind == 'Inv' or e < 0 for m in p.t for a, e in m)


def assigned_names(st):
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    out = []
    for x in ast.walk(st):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.append(x.id)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out += [(a.asname or a.name.split('.')[0]) for a in x.names]
    return out
