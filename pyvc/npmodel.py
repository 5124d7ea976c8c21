"""Models (assumed contracts) of the library functions the verified code calls."""
import ast
from fractions import Fraction
from . import loops
from . import terms as T
from .terms import Poly, B, lift, ite, band, bor, bnot
from .interp import (Arr, Buf, PartBuf, new, sym, size, memo, Unsupported, PyExc, Native, Module, Cls, Obj, Func, Bound, Prop, Static, ClsM, Iter, SList, SymSet,
                     Rng, Gen, GenExp, Word, Poison, MISSING, isnum, isarrlike, jdt, dtype_of, simp, tob, in_range, DefDict, Frame, subst_fn,
                     poly_fns, atom_fns, isconst)

# ------------------------------------------------------------------ scalar functions


def _exp(p):
    """exp of a sum is the product of exponentials of monomials"""
    p = lift(p)
    r = T.ONE
    for m, c in sorted(p.t.items(), key=lambda mc: T._mono_key(mc[0])):
        if not m:
            at = T.app('exp', lift(abs(c)), sort='R')
            r = r * (at if c > 0 else T.inv(at))
            continue
        ac = abs(c)
        k = 1
        if isinstance(ac, int):
            k, ac = ac, 1
        at = T.app('exp', Poly({m: ac}, p.sort), sort='C' if p.sort == 'C' and any(a.sort == 'C' for a, _ in m) else 'R')
        r = r * (at ** k if c > 0 else T.inv(at) ** k)
    return Poly(r.t, 'R' if p.sort != 'C' else 'C')


def exp(p):
    p = lift(p)
    if p.is_zero():
        return Poly(T.ONE.t, 'R')
    if any(a.kind == 'Iv' for m in p.t for a, _ in m):
        return guardsplit(p, exp)
    return _exp(p)


def guardsplit(p, f):
    """f(p) for a value guarded by brackets: split on the first bracket"""
    iv = sorted((a for m in p.t for a, _ in m if a.kind == 'Iv'), key=lambda a: a.uid)[0]
    from .prove import assume, _repl
    c = B('a', iv)
    return ite(c, f(_repl(p, iv, 1)), f(_repl(p, iv, 0)))


T.REBUILD['exp'] = lambda p: exp(p)


def sqrt(p):
    p = lift(p)
    if p.is_const():
        c = p.cval()
        from math import isqrt
        if isinstance(c, int) and c >= 0 and isqrt(c) ** 2 == c:
            return Poly.const(isqrt(c), 'R')
    if any(a.kind == 'Iv' for m in p.t for a, _ in m):
        return guardsplit(p, sqrt)
    return T.app('sqrt', p, sort='C' if p.sort == 'C' else 'R')


T.REBUILD['sqrt'] = sqrt


def abs_(p):
    p = lift(p)
    if p.is_const() and p.sort != 'C':
        return Poly.const(abs(p.cval()), p.sort)
    if p.sort == 'C':
        return sqrt(T.abs2(p))
    if any(a.kind == 'Iv' for m in p.t for a, _ in m):
        return guardsplit(p, abs_)
    lead = min(p.t, key=T._mono_key)
    if p.t[lead] < 0:
        p = -p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c != 1 and m:
            return T.app('abs', Poly({m: 1}, p.sort), sort=p.sort) * c
    return T.app('abs', p, sort=p.sort)


T.REBUILD['abs'] = abs_


def elementwise(name, sort=None):
    def f(p):
        p = lift(p)
        if any(a.kind == 'Iv' for m in p.t for a, _ in m):
            return guardsplit(p, f)
        return T.app(name, p, sort=sort or (p.sort if p.sort != 'I' else 'R'))
    T.REBUILD[name] = f
    return f


log = elementwise('log')
sign = elementwise('sign', 'R')
sinh = elementwise('sinh')
cosh = elementwise('cosh')
tanh = elementwise('tanh')


def guarded_div(a, b):
    b = lift(b)
    if len(b.t) > 1 and any(x.kind == 'Iv' for m in b.t for x, _ in m):
        return lift(a) * guardsplit(b, T.inv)
    return lift(a) / b


def parity(x):
    """(-1)**x for an integer x"""
    x = lift(x)
    r = T.ONE
    for m, c in x.t.items():
        if not isinstance(c, int) and c.denominator != 1:
            return None
        if int(c) % 2:
            r = r * (1 - 2 * (T.cmp_eq(T.app('odd', Poly({m: 1}, 'I'), sort='I'), 1).poly() if m else T.ONE))
    return r


def power(I, a, b):
    a, b = lift(a), lift(b)
    if a.is_const() and a.cval() == -1 and b.sort == 'I' and not b.is_const():
        p = parity(b)
        if p is not None:
            return p
    if b.is_const():
        c = b.cval()
        if isinstance(c, int):
            if c < 0:
                return T.inv(a ** (-c)) if c != -1 else guarded_div(T.ONE, a)
            return a ** c
        if c == Fraction(1, 2):
            return sqrt(a)
        if c == Fraction(-1, 2):
            return guarded_div(T.ONE, sqrt(a))
    if a.is_const() and a.cval() == 2 and b.sort == 'I':
        return T.app('pow2', b, sort='I')
    return T.app('pow', a, b, sort=T.jsort(a.sort if a.sort != 'I' else 'R', b.sort))


def allclose(I, a, b, *r, **k):
    """decided for equal terms and for different integers only"""
    xs, ys = I.seq(a), I.seq(b)
    if len(xs) != len(ys):
        raise Unsupported('allclose')
    d = [I.num(x) - I.num(y) for x, y in zip(xs, ys)]
    if all(x.is_zero() for x in d):
        return True
    if all(I.num(x).sort == 'I' for x in list(xs) + list(ys)) and any(x.is_const() and x.cval() for x in d):
        return False
    raise Unsupported('allclose')


def psi_parts(n, y):
    """(Re, Im) of polygamma(n, 1/2 + i y): the real part is even and the imaginary part odd in y"""
    n, y = lift(n), lift(y)
    if y.is_zero():
        return T.app('psiR', n, y), T.ZERO
    s = -1 if y.t[min(y.t, key=T._mono_key)] < 0 else 1
    return T.app('psiR', n, s * y), s * T.app('psiI', n, s * y)


T.REBUILD['psiR'] = lambda n, y: psi_parts(n, y)[0]
T.REBUILD['psiI'] = lambda n, y: psi_parts(n, y)[1]


def polygamma(I, n, z):
    z = I.num(z)
    re, im = T.re_(z), T.im_(z)
    if not (re - lift(Fraction(1, 2))).is_zero():
        raise Unsupported('polygamma off the line Re z = 1/2')
    a, b = psi_parts(I.num(n), im)
    return a + T.IU * b


def minmax(I, a, b, mx):
    a, b = I.num(a), I.num(b)
    c = T.cmp_le(b, a) if mx else T.cmp_le(a, b)
    return ite(c, a, b)


def fold(I, x, q, iv):
    return T.recurrence(q, x, iv)


def cursor_disjoint(I, C, iv, ctx):
    return False


# ------------------------------------------------------------------ arrays

def ssum(n, f):
    """sum_{k<n} f(k)"""
    n = size(n) if not isinstance(n, Poly) or n.is_const() else n
    if isinstance(n, int):
        r = T.ZERO
        for k in range(n):
            r = r + f(lift(k))
        return r
    k = T.fresh('k')
    body = lift(f(k))
    return T.mk_sum(k, 0, n, body)


def asarr(I, v):
    if isinstance(v, Arr):
        return v
    return array(I, v)


def array(I, v, dtype=None, **kw):
    dt = dtype_code(dtype)
    if isinstance(v, Arr):
        g = v.snap()
        r = new(v.shape, g, dt or v.dtype)
        if dt and dt != v.dtype:
            r = cast(I, r, dt)
        return r
    if isinstance(v, Obj) and '__tuple__' in v.attrs:
        v = v.attrs['__tuple__']
    if isinstance(v, Obj):
        f = v.cls.find('__array__')
        if f is not MISSING:
            return I.call(Bound(f, v), [])
        raise Unsupported('array of object')
    if isinstance(v, SList):
        first = v.fn(T.fresh('probe'))
        if isinstance(first, Arr):
            return new((v.n,) + first.shape, lambda i, *j: v.fn(i).get(*j), dt or first.dtype)
        return new((v.n,), lambda i: I.num(v.fn(i)), dt or dtype_of(first))
    if isinstance(v, (list, tuple)):
        xs = [asarr(I, x) if isinstance(x, (list, tuple, Arr, SList)) or isinstance(x, Obj) else x for x in v]
        if xs and any(isinstance(x, Arr) for x in xs):
            if not all(isinstance(x, Arr) for x in xs):
                if all(isinstance(x, Arr) and x.ndim == 0 or isnum(x) for x in xs):
                    xs = [I.num(x) if not isinstance(x, Arr) else x.get() for x in xs]
                else:
                    raise Unsupported('ragged array')
            else:
                sh = xs[0].shape
                if not all(I.same_shape(x.shape, sh) for x in xs):
                    raise Unsupported('ragged array')
                gs = [x.snap() for x in xs]
                return new((len(xs),) + sh, lambda i, *j: choose(i, [(lambda g=g: g(*j)) for g in gs]), dt or jdt(*[x.dtype for x in xs]))
        if not all(isnum(x) for x in xs):
            if all(isinstance(x, str) for x in xs):
                raise Unsupported('string array')
            raise Unsupported('array of %r' % (xs[:2],))
        ps = [x if isinstance(x, Word) else I.num(x) for x in xs]
        d0 = dt or (jdt(*[dtype_of(x) for x in xs]) if xs else 'R')
        ps = [I.num(p) for p in ps]
        return new((len(ps),), lambda i: choose(i, [(lambda p=p: p) for p in ps]), d0)
    if isinstance(v, Rng):
        n = I.rng_len(v)
        return new((n,), lambda i: lift(v.lo) + i * lift(v.step), dt or 'I')
    if isnum(v):
        return new((), lambda: I.num(v), dt or dtype_of(v))
    if isinstance(v, (Gen, GenExp, Iter)):
        raise Unsupported('array of generator')
    raise Unsupported('array of %r' % (v,))


def choose(i, fs):
    i = lift(i)
    if i.is_const():
        k = int(i.cval())
        if k < 0 or k >= len(fs):
            raise PyExc('IndexError')
        return lift(fs[k]())
    r = T.ZERO
    for k, f in enumerate(fs):
        r = r + T.cmp_eq(i, k).poly() * f()
    return r


def cast(I, a, dt):
    if dt in 'RC' and a.dtype in 'IBUR' or dt == a.dtype:
        g = a.snap()
        return new(a.shape, lambda *i: asort(g(*i), dt), dt)
    if dt == 'I' and a.dtype in 'BUI':
        return new(a.shape, a.snap(), 'I')
    if dt == 'U' and a.dtype in 'BUI':
        return new(a.shape, a.snap(), 'U')
    if dt == 'B':
        g = a.snap()
        return new(a.shape, lambda *i: bnot(T.cmp_eq(g(*i), 0)).poly(), 'B')
    if dt == 'I' and a.dtype == 'R':
        g = a.snap()
        return new(a.shape, lambda *i: toint(g(*i)), 'I')
    if dt == 'R' and a.dtype == 'C':
        return I.map1(a, T.re_, 'R')
    raise Unsupported('cast %s to %s' % (a.dtype, dt))


def asort(p, s):
    p = lift(p)
    return Poly(p.t, T.jsort(p.sort, s))


def toint(p):
    p = lift(p)
    if p.sort == 'I':
        return p
    if all(isinstance(c, int) and all(a.sort == 'I' and e > 0 for a, e in m) for m, c in p.t.items()):
        return Poly(p.t, 'I')
    if p.is_const():
        return lift(int(p.cval()))
    return T.app('trunc', p, sort='I')


T.REBUILD['trunc'] = toint

DT = {'int': 'I', 'float': 'R', 'complex': 'C', 'bool': 'B', 'uint32': 'U', 'int32': 'I', 'int64': 'I', 'float64': 'R', 'complex128': 'C', 'object': 'O',
      'float32': 'R', 'complex64': 'C', 'uint64': 'U', 'i': 'I', 'd': 'R', 'D': 'C', 'f': 'R', 'int8': 'I', 'bool_': 'B', 'float_': 'R', 'int_': 'I'}


def dtype_code(d):
    if d is None:
        return None
    if isinstance(d, str):
        if d in _ONE:
            return d if d in 'IRCBUO' else DT[d]
        if d in DT:
            return DT[d]
    if isinstance(d, Native) and d.name in DT:
        if d.name in ('float32', 'complex64', 'int8'):
            raise Unsupported('reduced precision ' + d.name)
        return DT[d.name]
    if isinstance(d, Cls) and d.name in DT:
        return DT[d.name]
    if isinstance(d, DType):
        return d.code
    raise Unsupported('dtype %r' % (d,))


_ONE = 'IRCBUO'


class DType:
    def __init__(self, code):
        self.code = code


def shape_of(I, s):
    if isinstance(s, (list, tuple)):
        return tuple(size(I.num(x)) for x in s)
    if isinstance(s, Arr):
        return tuple(size(x) for x in (I.num(y) for y in I.seq(s)))
    return (size(I.num(s)),)


def full(I, sh, val, dt):
    return new(shape_of(I, sh), lambda *i: val, dt)


_und = T._fresh


def empty(I, sh, dtype=None, order=None, **kw):
    nm = 'undef'
    k = next(_und)
    dt = dtype_code(dtype) or 'R'
    srt = {'U': 'I', 'B': 'I'}.get(dt, dt)
    return new(shape_of(I, sh), lambda *i: T.app(nm, k, *i, sort=srt), dt)


def zero_of(dt):
    return Poly({}, {'U': 'I', 'B': 'I', 'O': 'I'}.get(dt, dt))


def zeros(I, sh, dtype=None, order=None, **kw):
    dt = dtype_code(dtype) or 'R'
    r = full(I, sh, zero_of(dt), dt)
    if order == 'F':
        r.attrs['f'] = True
    return r


def ones(I, sh, dtype=None, **kw):
    dt = dtype_code(dtype) or 'R'
    return full(I, sh, asort(1, zero_of(dt).sort), dt)


def like(f):
    def g(I, a, dtype=None, **kw):
        a = asarr(I, a)
        sh = kw.get('shape', a.shape)
        return f(I, tuple(shape_of(I, sh)), DType(dtype_code(dtype) or a.dtype))
    return g


def arange(I, a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    a, b, st = I.num(a), I.num(b), I.num(step)
    if a.sort != 'I' or b.sort != 'I' or st.sort != 'I':
        raise Unsupported('arange of reals')
    n = I.rng_len(Rng(a, b, st))
    if not isinstance(n, int) and not I.solver.implied(I.pc, T.cmp_le(0, n)):
        raise Unsupported('arange of unknown sign')
    dt = dtype_code(dtype) or 'I'
    return new((n,), lambda i: asort(a + i * st, zero_of(dt).sort), dt)


def linspace(I, a, b, num=50, endpoint=True, **kw):
    a, b, n = I.num(a), I.num(b), I.num(num)
    den = n - 1 if endpoint else n
    return new((n,), lambda i: asort(a + (b - a) * i * T.inv(den), 'R'), 'R')


def eye(I, n, m=None, k=0, dtype=None):
    return new((I.num(n), I.num(m if m is not None else n)), lambda i, j: asort(T.cmp_eq(i + k, j).poly(), 'R'), dtype_code(dtype) or 'R')


def diag(I, v, k=0):
    v = asarr(I, v)
    g = v.snap()
    if v.ndim == 1:
        return new((v.shape[0], v.shape[0]), lambda i, j: T.cmp_eq(i, j).poly() * g(i), v.dtype)
    return new((v.shape[0],), lambda i: g(i, i), v.dtype)


# ---- views

def compose(a, shape, fwd, inv):
    """view of the view a"""
    f0, i0 = a.fwd, a.inv
    if f0 is None:
        f, v = fwd, inv
    else:
        f = lambda *i: f0(*fwd(*i))
        if i0 is None or inv is None:
            v = None
        else:
            def v(*b):
                c, i = i0(*b)
                c2, j = inv(*i)
                return band(c, c2), j
    r = Arr(shape, a.buf, f, v)
    return r


def normidx(I, k, n):
    k = I.num(k)
    if k.is_const():
        c = k.cval()
        if not isinstance(c, int):
            raise PyExc('IndexError', ('float index',))
        if c < 0:
            k = lift(n) + c
        elif isinstance(n, int) and c >= n:
            raise PyExc('IndexError', ('out of range',))
        if k.is_const() and k.cval() < 0:
            raise PyExc('IndexError', ('out of range',))
        return k
    # symbolic: python's negative wrap-around is excluded by a side condition
    if I.solver.implied(I.pc, T.cmp_lt(k, 0)):
        return k + n
    if I.trap is not None:
        I.trap.append((list(I.pc), band(T.cmp_le(0, k), T.cmp_lt(k, n)), 'index in range in ' + (I.callstack[-1] if I.callstack else '?')))
    return k


def flat(I, a):
    """one-dimensional view in row order, remembering the array it was made of"""
    g, shape = a.snap(), a.shape
    r = reshape(I, a, -1)
    if r.ndim == 1 and len(shape) > 1:
        r.attrs['flat'] = (shape, g, r.buf.fn)
    return r


def stride_of(I, s, st, n):
    """a[start:stop:step] with a symbolic positive step"""
    imp = lambda b: I.solver.implied(I.pc, b)
    a = T.ZERO if s.start is None else lift(I.num(s.start))
    b = n if s.stop is None else lift(I.num(s.stop))
    if not imp(band(T.cmp_lt(0, st), T.cmp_le(0, a), T.cmp_le(b, n))):
        raise Unsupported('slice with a step or bounds of unknown sign')
    if imp(T.cmp_lt(a, st)):
        m = loops.quotient(b, st)
        if m is not None and imp(T.cmp_le(0, m)):
            return a, st, size(m)
    if not imp(T.cmp_le(a, b)):
        raise Unsupported('slice bounds')
    return a, st, size(T.floordiv(b - a + st - 1, st))


def slice_of(I, s, n):
    """(start, step, length)"""
    st = 1 if s.step is None else size(I.num(s.step))
    if not isinstance(st, int):
        return stride_of(I, s, lift(st), lift(n))
    if st == 0:
        raise Unsupported('slice step')

    def bound(x, d):
        if x is None:
            return lift(d)
        x = I.num(x)
        if x.is_const():
            c = int(x.cval())
            if c < 0:
                y = lift(n) + c
                if isinstance(n, int):
                    return lift(max(0 if st > 0 else -1, int(y.cval())))
                return y
            if isinstance(n, int):
                return lift(min(c, n if st > 0 else n - 1))
            return x
        if I.solver.implied(I.pc, T.cmp_lt(x, 0)):
            return x + n
        return x
    if st > 0:
        a, b = bound(s.start, 0), bound(s.stop, n)
        ln = b - a
    else:
        a, b = bound(s.start, lift(n) - 1), bound(s.stop, -1)
        ln = a - b
    if not ln.is_const():
        if not isinstance(n, int) or True:
            ok = band(T.cmp_le(0, a), T.cmp_le(b, n), T.cmp_le(a, b) if st > 0 else T.cmp_le(b, a))
            if not I.solver.implied(I.pc, ok):
                # clip like numpy does
                if st != 1:
                    raise Unsupported('slice bounds')
                if not I.solver.implied(I.pc, T.cmp_le(0, a)):
                    raise Unsupported('slice start %r' % (a,))
                if not I.solver.implied(I.pc, T.cmp_le(b, n)):
                    if not I.decide(T.cmp_le(b, n)):
                        b = lift(n)
                        ln = b - a
                if not I.solver.implied(I.pc, T.cmp_le(a, b)):
                    if not I.decide(T.cmp_le(a, b)):
                        ln = T.ZERO
        if abs(st) != 1:
            ln = T.floordiv(ln + (abs(st) - 1), lift(abs(st)))
    else:
        ln = lift(max(0, -((-int(ln.cval())) // abs(st))))
        if not isinstance(n, int) and not b.is_const() is None and st > 0 and not I.solver.implied(I.pc, T.cmp_le(b, n)):
            if not I.decide(T.cmp_le(b, n)):
                ln = lift(n) - a
                if not I.solver.implied(I.pc, T.cmp_le(0, ln)):
                    raise Unsupported('slice bounds')
    return a, st, size(ln)


def parse_index(I, a, k):
    """-> list of items: ('int', p) ('sl', a, st, n) ('new',) ('adv', Arr) ('mask', Arr)"""
    if not isinstance(k, tuple):
        k = (k,)
    k = list(k)
    ks = []
    for x in k:
        if isinstance(x, (list,)) or isinstance(x, Rng):
            x = array(I, x)
        if isinstance(x, tuple):
            x = array(I, list(x))
        if isinstance(x, Arr) and x.ndim == 0 and x.dtype != 'B':
            x = x.get()
        ks.append(x)
    used = sum(x.ndim if isinstance(x, Arr) and x.dtype == 'B' else 1 for x in ks if x is not None and x is not Ellipsis)
    if any(x is Ellipsis for x in ks):
        p = [i for i, x in enumerate(ks) if x is Ellipsis][0]
        ks[p:p + 1] = [slice(None)] * (a.ndim - used)
    else:
        ks += [slice(None)] * (a.ndim - used)
    items = []
    d = 0
    for x in ks:
        if x is None:
            items.append(('new',))
            continue
        if isinstance(x, Arr):
            if x.dtype == 'B':
                items.append(('mask', x))
                d += x.ndim
                continue
            items.append(('adv', x))
            d += 1
            continue
        if d >= a.ndim:
            raise PyExc('IndexError', ('too many indices',))
        n = a.shape[d]
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                items.append(('sl', T.ZERO, 1, n))
            else:
                items.append(('sl',) + slice_of(I, x, n))
        elif isinstance(x, SList):
            items.append(('adv', array(I, x)))
        else:
            items.append(('int', normidx(I, x, n)))
        d += 1
    if d > a.ndim:
        raise PyExc('IndexError', ('too many indices',))
    return items


def divide_exact(p, d):
    """p / d when d divides p as a polynomial, else None"""
    ats = sorted({a for q in (p, d) for m in q.t for a, e in m}, key=lambda a: a.uid)
    order = lambda m: (sum(e for a, e in m), [dict(m).get(a, 0) for a in ats])
    if any(e < 0 for q in (p, d) for m in q.t for a, e in m):
        return None
    lead = max(d.t, key=order)
    r, quo = p, T.ZERO
    for _ in range(200):
        if r.is_zero():
            return quo
        m = max(r.t, key=order)
        f = dict(m)
        for a, e in lead:
            f[a] = f.get(a, 0) - e
        if any(e < 0 for e in f.values()):
            return None
        t = Poly({tuple(sorted(((a, e) for a, e in f.items() if e), key=lambda z: z[0].uid)): Fraction(r.t[m]) / Fraction(d.t[lead])}, 'I')
        quo, r = quo + t, r - t * d
    return None


def flat_diagonal(I, a, k):
    """A.flat[c*(n+1):e*(n+1):n+1] of a square matrix is a part of its diagonal"""
    o = a.attrs.get('flat_of')
    if o is None or not isinstance(k, slice) or k.step is None:
        return None
    n = lift(o.shape[0]) if o.ndim == 2 else None
    if n is None or not I.same_dim(*o.shape) or not I.same_dim(I.num(k.step), n + 1):
        return None
    c = T.ZERO if k.start is None else divide_exact(lift(I.num(k.start)), n + 1)
    e = n if k.stop is None else divide_exact(lift(I.num(k.stop)), n + 1)
    if c is None or e is None or not I.solver.implied(I.pc, band(T.cmp_le(0, c), T.cmp_le(c, e), T.cmp_le(e, n))):
        return None
    return compose(o, (simp(e - c),), lambda i: (c + i, c + i),
                   lambda i, j: (band(T.cmp_eq(i, j), T.cmp_le(c, i), T.cmp_lt(i, e)), (i - c,)))


def csr_class():
    """scipy.sparse.csr_matrix((data, indices, indptr), shape): the arrays, and the dense matrix they stand for"""
    def init(I, o, arg1, shape=None, dtype=None, copy=False):
        if not (isinstance(arg1, tuple) and len(arg1) == 3 and shape is not None and dtype is None and not copy):
            raise Unsupported('csr_matrix built from something else')
        o.attrs.update(data=arg1[0], indices=arg1[1], indptr=arg1[2], shape=tuple(shape), format='csr', ndim=2)

    def todense(I, o, order=None, out=None):
        x, ix, ip = [o.attrs[k].snap() for k in ('data', 'indices', 'indptr')]

        def el(r, c):
            p = T.fresh('p')
            return T.mk_sum(p, ip(r), ip(r + 1), x(p) * T.cmp_eq(ix(p), c).poly())
        return new(o.attrs['shape'], el)
    c = Cls('csr_matrix')
    for k, f in (('__init__', init), ('todense', todense), ('toarray', todense)):
        n = Native(f, k)
        n.method = True
        c.ns[k] = n
    return c


def index(I, a, k):
    if a.cls is not None and a.cls.find('__getitem__') is not MISSING:
        return I.call(Bound(a.cls.find('__getitem__'), a), [k])
    if 'tape' in a.attrs:
        return a.attrs['tape'][0].getitem(a, a.attrs['tape'][1], k)
    d = flat_diagonal(I, a, k)
    if d is not None:
        return d
    items = parse_index(I, a, k)
    if not any(x[0] in ('adv', 'mask') for x in items):
        v = basic_view(a, items)
        if v.ndim == 0 and not any(x[0] == 'sl' for x in items) and not (isinstance(k, tuple) and any(x is Ellipsis for x in k)) and k is not Ellipsis:
            p = I.defined(v.get())
            if a.dtype == 'U':
                return Word.of(p) if not p.is_const() else I.word(p)
            if a.dtype == 'B':
                r = T.bool_of_poly(p)
                return r.args if r.op == 'c' else r
            if a.dtype == 'O' and p.sort == 'O':
                return p
            return p if a.dtype != 'I' else p
        return v
    items = [('adv', selection(I, x[1])) if x[0] == 'mask' and x[1].ndim == 1 and not isinstance(x[1].shape[0], int) else x for x in items]
    if any(x[0] == 'mask' for x in items):
        return mask_index(I, a, items)
    # integer arrays: broadcast together
    advs = [x[1] for x in items if x[0] == 'adv']
    ash = ()
    for x in advs:
        ash = I.bshape(ash, x.shape)
    ags = [I.bget(x, ash) for x in advs]
    pos = [i for i, x in enumerate(items) if x[0] in ('adv', 'int')]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    # output dims
    out, where = [], None
    src = []
    d = 0
    nadv = 0
    dims_before = []
    for i, x in enumerate(items):
        if x[0] in ('adv', 'int'):
            if where is None:
                where = len(out)
            src.append((x[0], nadv if x[0] == 'adv' else x[1]))
            nadv += x[0] == 'adv'
        elif x[0] == 'new':
            out.append(1)
        else:
            src.append(('sl', x[1], x[2], len(out)))
            out.append(x[3])
    if not contiguous:
        where = 0
    na = len(ash)
    shape = tuple(out[:where]) + tuple(ash) + tuple(out[where:])
    g = a.snap()

    def fn(*i):
        ai = i[where:where + na]
        oi = i[:where] + i[where + na:]
        idx = []
        for s in src:
            if s[0] == 'adv':
                idx.append(wrap(I, ags[s[1]](*ai)))
            elif s[0] == 'int':
                idx.append(s[1])
            else:
                idx.append(s[1] + oi[s[3]] * s[2])
        return g(*idx)
    return new(shape, fn, a.dtype)


def wrap(I, p):
    return p


def basic_view(a, items):
    src, out = [], []
    for x in items:
        if x[0] == 'int':
            src.append(('fix', x[1]))
        elif x[0] == 'new':
            out.append(1)
        else:
            src.append(('sl', x[1], x[2], len(out), x[3]))
            out.append(x[3])
    if all(s[0] == 'sl' and s[1].is_zero() and s[2] == 1 for s in src) and len(out) == len(src) and all(size(s[4]) == n for s, n in zip(src, a.shape)):
        r = Arr(a.shape, a.buf, a.fwd, a.inv)
        r.cls = a.cls
        return r

    def fwd(*i):
        return tuple(s[1] if s[0] == 'fix' else s[1] + i[s[3]] * s[2] for s in src)

    def inv(*b):
        c = T.TRUE
        o = [T.ZERO] * len(out)
        for s, x in zip(src, b):
            x = lift(x)
            if s[0] == 'fix':
                c = band(c, T.cmp_eq(x, s[1]))
            else:
                a0, st, pos, n = s[1:]
                if isinstance(st, Poly):
                    d = x - a0
                    c = band(c, T.cmp_eq(T.mod(d, st), 0))
                    v = T.floordiv(d, st)
                elif st == 1:
                    v = x - a0
                elif st == -1:
                    v = a0 - x
                else:
                    d = (x - a0) if st > 0 else (a0 - x)
                    c = band(c, T.cmp_eq(T.mod(d, abs(st)), 0))
                    v = T.floordiv(d, abs(st))
                c = band(c, T.cmp_le(0, v), T.cmp_lt(v, n))
                o[pos] = v
        return c, tuple(o)
    r = compose(a, tuple(out), fwd, inv)
    r.cls = None
    return r


def mask_index(I, a, items):
    if len([x for x in items if x[0] == 'mask']) == 1 and items[0][0] == 'mask' and all(isinstance(s, int) for s in items[0][1].shape):
        m = items[0][1]
        if m.ndim == 1:
            idx = [k for k in range(m.shape[0]) if I.decide(T.bool_of_poly(m.get(k)))]
            return index(I, a, (array(I, idx, 'I') if idx else new((0,), lambda i: T.ZERO, 'I'),) + tuple(slice(None) for _ in items[1:]))
    raise Unsupported('boolean mask')


def setindex(I, a, k, v):
    if 'tape' in a.attrs:
        return a.attrs['tape'][0].write(a.attrs['tape'][1], k, v)
    d = flat_diagonal(I, a, k)
    if d is not None:
        I.store_all(d, I.bget(v, d.shape))
        return
    items = parse_index(I, a, k)
    if any(x[0] == 'mask' for x in items):
        if len(items) == 1 or all(x[0] == 'sl' and x[1].is_zero() and x[2] == 1 for x in items[1:]):
            m = items[0][1]
            mg, old = m.snap(), a.snap()
            nm = m.ndim
            if isinstance(v, Arr) and v.ndim:
                raise Unsupported('mask assignment of an array')
            x = I.num(v)
            I.store_all(a, lambda *i: ite(T.bool_of_poly(mg(*i[:nm])), x, old(*i)))
            return
        raise Unsupported('mask assignment')
    if any(x[0] == 'adv' for x in items):
        return set_adv(I, a, items, v)
    view = basic_view(a, items)
    if len(items) == 1 and items[0][0] == 'int' and a.fwd is None and not isinstance(a.buf, PartBuf) and isnum(v):
        rc = row_column(I, lift(items[0][1]), a.shape[0])
        if rc is not None:
            r, c, n = rc
            dv = dtype_of(v)
            if not (a.dtype in 'IU' and dv in 'RC') and not (a.dtype == 'R' and dv == 'C'):
                old, x = a.snap(), I.num(v)
                I.store_all(a, lambda q: ite(band(T.cmp_eq(T.floordiv(q, n), r), T.cmp_eq(T.mod(q, n), c)), x, old(q)))
                return
    if isinstance(v, (list, tuple)):
        v = array(I, v)
    if isinstance(v, Obj):
        v = array(I, v)
    if isinstance(v, Arr):
        # trailing length-1 dims of v may be dropped by numpy only on the left
        vs = v.shape
        while len(vs) > view.ndim and vs[0] == 1:
            v = index(I, v, 0)
            vs = v.shape if isinstance(v, Arr) else ()
    if isinstance(v, Arr):
        if len(vs) > view.ndim:
            raise PyExc('ValueError', ('could not broadcast',))
        sh = I.bshape(vs, view.shape)
        if not I.same_shape(sh, view.shape):
            raise PyExc('ValueError', ('could not broadcast',))
    if isinstance(v, Obj) or v is None:
        raise Unsupported('store of an object')
    dv = dtype_of(v)
    if a.dtype in 'IU' and dv in 'RC':
        g0 = I.bget(v, view.shape)
        g = lambda *i: toint(g0(*i))
    elif a.dtype == 'R' and dv == 'C':
        raise PyExc('TypeError', ("can't convert complex to float",)) if not isinstance(v, Arr) else Unsupported('complex to real store')
    else:
        g = I.bget(v, view.shape)
    I.store_all(view, g)


def row_column(I, k, total):
    """(row, column, length of a row) of the flat index row * n + column into a matrix stored in one dimension"""
    nl = [m for m in k.t if sum(e for _, e in m) > 1]
    if not nl or k.sort != 'I' or any(e < 0 for m in nl for _, e in m):
        return None
    for n in sorted({a for m in nl for a, _ in m}, key=lambda a: a.uid):
        if n.kind != 'Var':
            continue
        row, col = {}, {}
        for m, c in k.t.items():
            d = dict(m)
            if n in d:
                d[n] -= 1
                if not d[n]:
                    d.pop(n)
                row[tuple(sorted(d.items(), key=lambda z: z[0].uid))] = c
            else:
                col[m] = c
        r, c, N = Poly(row, 'I'), Poly(col, 'I'), Poly.atom(n)
        if n in r.vars() or not r.vars():
            continue
        if I.solver.implied(I.pc, band(T.cmp_le(0, c), T.cmp_lt(c, N))):
            return r, c, N
        from math import gcd
        f = 0
        for x in row.values():
            f = gcd(f, int(x)) if x == int(x) else 1
        if f > 1 and I.solver.implied(I.pc, band(T.cmp_le(0, c), T.cmp_lt(c, f * N))):
            return Poly({m: x // f for m, x in row.items()}, 'I'), c, f * N
    return None


def set_adv(I, a, items, v):
    """a[idx..] = v with concrete-length or provably injective index arrays"""
    advs = [x[1] for x in items if x[0] == 'adv']
    ash = ()
    for x in advs:
        ash = I.bshape(ash, x.shape)
    ags = [I.bget(x, ash) for x in advs]
    if all(isinstance(s, int) for s in ash):
        import itertools
        # one store per index combination, in order
        vv = v if isinstance(v, Arr) else (array(I, v) if isinstance(v, (list, tuple)) else v)
        for ai in itertools.product(*[range(s) for s in ash]):
            k = []
            na = 0
            for x in items:
                if x[0] == 'adv':
                    k.append(('int', ags[na](*map(lift, ai))))
                    na += 1
                else:
                    k.append(x)
            view = basic_view(a, k)
            if isinstance(vv, Arr):
                full_sh = tuple(ash) + tuple(view.shape)
                g = I.bget(vv, full_sh)
                I.store_all(view, lambda *i, g=g, ai=ai: g(*map(lift, ai), *i))
            else:
                x = I.num(vv)
                I.store_all(view, lambda *i, x=x: x)
        return
    if len(ash) == 1:
        n = ash[0]
        v = array(I, v) if isinstance(v, (list, tuple)) else v
        I.sym_for(lift(n), lambda q: setindex(I, a, tuple(x[1].get(q) if x[0] == 'adv' and x[1].ndim == 1 and not x[1].shape[0] == 1 else
                                                          (x[1].get(*([0] * x[1].ndim)) if x[0] == 'adv' else (x[1] if x[0] == 'int' else slice(None))) for x in items),
                                                index(I, v, q) if isinstance(v, Arr) and v.ndim and v.shape[0] != 1 else v))
        return
    raise Unsupported('advanced assignment')


def transpose(I, a, *axes):
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = tuple(axes[0])
    ax = tuple(int(size(I.num(x))) % a.ndim for x in axes) if axes and axes[0] is not None else tuple(range(a.ndim))[::-1]
    shape = tuple(a.shape[x] for x in ax)

    def fwd(*i):
        o = [None] * len(ax)
        for p, x in enumerate(ax):
            o[x] = i[p]
        return tuple(o)

    def inv(*b):
        return T.TRUE, tuple(b[x] for x in ax)
    r = compose(a, shape, fwd, inv)
    if a.attrs.get('f') and ax == tuple(range(a.ndim))[::-1]:
        pass
    elif ax == tuple(range(a.ndim))[::-1] and a.ndim > 1:
        r.attrs['f'] = True
    return r


def prod(xs):
    r = T.ONE
    for x in xs:
        r = r * lift(x)
    return r


def reshape(I, a, *shape, order='C'):
    if len(shape) == 1:
        shape = shape[0]
    shape = list(shape_of(I, shape))
    tot = prod(a.shape)
    if -1 in shape:
        k = shape.index(-1)
        rest = prod(shape[:k] + shape[k + 1:])
        q = T.floordiv(tot, rest)
        if not (q * rest - tot).is_zero() and not I.solver.implied(I.pc, T.cmp_eq(q * rest, tot)):
            raise Unsupported('reshape -1')
        shape[k] = size(q)
    if not (prod(shape) - tot).is_zero() and not I.solver.implied(I.pc, T.cmp_eq(prod(shape), tot)):
        if (prod(shape) - tot).is_const():
            raise PyExc('ValueError', ('cannot reshape',))
        raise Unsupported('reshape %s to %s' % (a.shape, shape))
    if order == 'F':
        return transpose(I, reshape(I, transpose(I, a), *reversed(shape)))
    fwd, inv = reshape_maps(I, a.shape, tuple(shape))
    if fwd is None:
        r = Arr(a.shape, a.buf, a.fwd, a.inv)
        return r
    if a.attrs.get('f') and a.ndim > 1:
        # not contiguous: numpy copies
        g = a.snap()
        return new(shape, lambda *i: g(*fwd(*i)), a.dtype)
    return compose(a, tuple(shape), fwd, inv)


def reshape_maps(I, old, newsh):
    """index maps between shapes of equal size, matching dimension groups from the right"""
    if len(old) == len(newsh) and all((lift(x) - lift(y)).is_zero() for x, y in zip(old, newsh)):
        return None, None
    groups = []
    i, j = len(old), len(newsh)
    while i > 0 or j > 0:
        gi, gj = [], []
        po, pn = T.ONE, T.ONE
        if i > 0:
            i -= 1
            gi.insert(0, i)
            po = lift(old[i])
        if j > 0:
            j -= 1
            gj.insert(0, j)
            pn = lift(newsh[j])
        while not (po - pn).is_zero():
            # extend the side whose product divides less
            if i > 0 and (j == 0 or _lt(po, pn)):
                i -= 1
                gi.insert(0, i)
                po = po * lift(old[i])
            elif j > 0:
                j -= 1
                gj.insert(0, j)
                pn = pn * lift(newsh[j])
            else:
                groups = None
                break
        if groups is None:
            break
        groups.insert(0, (gi, gj))
    if groups is None:
        groups = [(list(range(len(old))), list(range(len(newsh))))]

    def conv(src, dst, sshape, dshape, idx):
        """indices idx (over dims src of sshape) -> indices over dims dst"""
        if len(src) == 1 and len(dst) == 1:
            return [idx[0]]
        f = T.ZERO
        for d, x in zip(src, idx):
            f = f * lift(sshape[d]) + x
        if len(dst) == 1:
            return [f]
        if not dst:
            return []
        out = []
        for d in reversed(dst[1:]):
            n = lift(dshape[d])
            out.insert(0, T.mod(f, n))
            f = T.floordiv(f, n)
        out.insert(0, f)
        return out

    def fwd(*i):
        o = [T.ZERO] * len(old)
        for gi, gj in groups:
            r = conv(gj, gi, newsh, old, [lift(i[x]) for x in gj])
            for d, x in zip(gi, r):
                o[d] = x
        return tuple(o)

    def inv(*b):
        o = [T.ZERO] * len(newsh)
        for gi, gj in groups:
            r = conv(gi, gj, old, newsh, [lift(b[x]) for x in gi])
            for d, x in zip(gj, r):
                o[d] = x
        return T.TRUE, tuple(o)
    return fwd, inv


def _lt(p, q):
    if p.is_const() and q.is_const():
        return p.cval() < q.cval()
    # fewer factors first
    dp = max((sum(e for _, e in m) for m in p.t), default=0)
    dq = max((sum(e for _, e in m) for m in q.t), default=0)
    return dp < dq or (dp == dq and len(p.t) < len(q.t))


# ---- reductions and products

def axes_of(I, a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return [int(size(I.num(x))) % a.ndim for x in axis]
    return [int(size(I.num(axis))) % a.ndim]


def asum(I, a, axis=None, out=None, keepdims=False, dtype=None, **kw):
    if isinstance(a, (Gen, GenExp)):
        raise Unsupported('np.sum of generator')
    a = asarr(I, a)
    ax = axes_of(I, a, axis)
    rest = [d for d in range(a.ndim) if d not in ax]
    g = a.snap()
    dt = 'I' if a.dtype in 'BU' else a.dtype

    def fn(*i):
        idx = [None] * a.ndim
        ii = [x for d, x in enumerate(i) if d not in ax] if keepdims else list(i)
        for d, x in zip(rest, ii):
            idx[d] = x

        def rec(k):
            if k == len(ax):
                return g(*idx)

            def f(x):
                idx[ax[k]] = x
                return rec(k + 1)
            return ssum(a.shape[ax[k]], f)
        return asort(rec(0), zero_of(dt).sort)
    if keepdims:
        return new([1 if d in ax else a.shape[d] for d in range(a.ndim)], fn, dt)
    if not rest:
        return fn()
    r = new([a.shape[d] for d in rest], fn, dt)
    if out is not None:
        I.store_all(out, r.snap())
        return out
    return r


def mean(I, a, axis=None, **kw):
    a = asarr(I, a)
    n = prod([a.shape[d] for d in axes_of(I, a, axis)])
    return I.binop(ast.Div(), asum(I, a, axis), n)


def aprod(I, a, axis=None, **kw):
    xs = I.seq(a) if not isinstance(a, Arr) else [I.getitem(a, k) for k in range(a.shape[0])] if a.ndim == 1 and isinstance(a.shape[0], int) else None
    if xs is None:
        raise Unsupported('prod')
    r = 1
    for x in xs:
        r = I.binop(ast.Mult(), r, x)
    return r


def dot(I, a, b, out=None):
    if isnum(a) or isnum(b):
        return I.binop(ast.Mult(), a, b)
    a, b = asarr(I, a), asarr(I, b)
    if a.ndim == 0 or b.ndim == 0:
        return I.binop(ast.Mult(), a, b)
    n = a.shape[-1]
    m = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not I.same_dim(n, m):
        if isinstance(n, int) and isinstance(m, int):
            raise PyExc('ValueError', ('shapes not aligned',))
        raise Unsupported('dot of %s and %s' % (a.shape, b.shape))
    f, g = a.snap(), b.snap()
    na = a.ndim - 1
    dt = jdt(a.dtype, b.dtype)

    def fn(*i):
        i0, i1 = i[:na], i[na:]
        if b.ndim == 1:
            return ssum(n, lambda k: f(*i0, k) * g(k))
        return ssum(n, lambda k: f(*i0, k) * g(*i1[:-1], k, i1[-1]))
    shape = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ())
    if not shape:
        return asort(fn(), zero_of(dt).sort)
    r = new(shape, fn, dt)
    if out is not None:
        I.store_all(out, r.snap())
        return out
    return r


def matmul(I, a, b, out=None):
    a, b = asarr(I, a), asarr(I, b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(I, a, b, out)
    n = a.shape[-1]
    f, g = a.snap(), b.snap()
    bs = I.bshape(a.shape[:-2], b.shape[:-2])
    ka, kb = len(bs) - (a.ndim - 2), len(bs) - (b.ndim - 2)

    def fn(*i):
        bi, r, c = i[:-2], i[-2], i[-1]
        return ssum(n, lambda k: f(*_bi(bi[ka:], a.shape), r, k) * g(*_bi(bi[kb:], b.shape), k, c))
    return new(tuple(bs) + (a.shape[-2], b.shape[-1]), fn, jdt(a.dtype, b.dtype))


def _bi(i, sh):
    return [T.ZERO if s == 1 else x for x, s in zip(i, sh)]


def inner(I, a, b):
    if isnum(a) or isnum(b):
        return I.binop(ast.Mult(), a, b)
    a, b = asarr(I, a), asarr(I, b)
    if not I.same_dim(a.shape[-1], b.shape[-1]):
        raise Unsupported('inner')
    f, g = a.snap(), b.snap()
    n = a.shape[-1]
    na = a.ndim - 1
    shape = a.shape[:-1] + b.shape[:-1]
    fn = lambda *i: ssum(n, lambda k: f(*i[:na], k) * g(*i[na:], k))
    return new(shape, fn, jdt(a.dtype, b.dtype)) if shape else fn()


def vdot(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    return dot(I, conj(I, reshape(I, a, -1)), reshape(I, b, -1))


def outer(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    f, g = a.snap(), b.snap()
    return new(a.shape + b.shape, lambda i, j: f(i) * g(j), jdt(a.dtype, b.dtype))


def kron(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported('kron')
    f, g = a.snap(), b.snap()
    p, q = b.shape
    # kept as a product-index array: element ((i,k),(j,l)); reads at i*p+k decode by mixed radix
    return new((prod([a.shape[0], p]), prod([a.shape[1], q])),
               lambda i, j: f(T.floordiv(i, p), T.floordiv(j, q)) * g(T.mod(i, p), T.mod(j, q)), jdt(a.dtype, b.dtype))


def einsum(I, spec, *ops, out=None, optimize=None, **kw):
    spec = spec.replace(' ', '')
    ins, res = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    ops = [asarr(I, o) for o in ops]
    if '.' in spec:
        raise Unsupported('einsum ellipsis')
    if res is None:
        al = sorted(set(''.join(ins)))
        res = ''.join(c for c in al if ''.join(ins).count(c) == 1)
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyExc('ValueError', ('einsum',))
        for c, n in zip(s, o.shape):
            if c in dims and dims[c] != 1:
                if n != 1 and not I.same_dim(n, dims[c]):
                    raise Unsupported('einsum dims')
            else:
                dims[c] = n
    contracted = [c for c in dims if c not in res]
    gs = [o.snap() for o in ops]

    def fn(*i):
        env = dict(zip(res, i))

        def rec(k):
            if k == len(contracted):
                r = T.ONE
                for s, g in zip(ins, gs):
                    r = r * g(*[env[c] for c in s])
                return r

            def f(x):
                env[contracted[k]] = x
                return rec(k + 1)
            return ssum(dims[contracted[k]], f)
        return rec(0)
    dt = jdt(*[o.dtype for o in ops])
    if not res:
        return fn()
    r = new([dims[c] for c in res], fn, dt)
    if out is not None:
        I.store_all(out, r.snap())
        return out
    return r


def norm(I, a, ord=None, axis=None):
    a = asarr(I, a)
    if ord is not None and size(I.num(ord)) != 2:
        raise Unsupported('norm')
    sq = I.map1(a, lambda x: T.abs2(x) if x.sort == 'C' else x * x, 'R')
    s = asum(I, sq, axis)
    if isinstance(s, Arr):
        return I.map1(s, sqrt)
    return sqrt(s)


def conj(I, a):
    if isnum(a):
        return T.conj(I.num(a))
    a = asarr(I, a)
    return I.map1(a, T.conj) if a.dtype == 'C' else a


def real(I, a):
    if isnum(a):
        return T.re_(I.num(a))
    a = asarr(I, a)
    return I.map1(a, T.re_, 'R') if a.dtype == 'C' else a


def imag(I, a):
    if isnum(a):
        return T.im_(I.num(a))
    a = asarr(I, a)
    return I.map1(a, T.im_, 'R')


def uf(f, dt=None):
    def g(I, a, out=None, where=None, **kw):
        if isinstance(a, (list, tuple)):
            a = array(I, a)
        if isnum(a):
            return f(I.num(a))
        a = asarr(I, a)
        d = dt or ('R' if a.dtype in 'IBU' else a.dtype)
        if where is not None and where is not True:
            w = asarr(I, where)
            if out is None:
                raise Unsupported('where without out')
            old, x, m = out.snap(), a.snap(), I.bget(w, a.shape)
            I.store_all(out, lambda *i: ite(T.bool_of_poly(m(*i)), f(x(*i)), old(*i)))
            return out
        r = I.map1(a, lambda x: asort(f(x), zero_of(d).sort), d)
        if out is not None:
            I.store_all(out, r.snap())
            return out
        return r
    return g


def absuf(I, a):
    if isnum(a):
        return abs_(I.num(a))
    a = asarr(I, a)
    return I.map1(a, abs_, 'R' if a.dtype == 'C' else a.dtype)


def selection(I, c):
    """the increasing sequence of the indices where a mask of symbolic length holds: a function of the mask alone"""
    n, f = c.shape[0], c.snap()
    m = lambda t: tobool(lift(f(t))).poly()
    cnt = ssum(n, m)
    key = ssum(n, lambda t: m(t) * T.app('tag', t))
    I.solver.facts.append(lambda a: [T.cmp_le(0, Poly.atom(a)), T.cmp_lt(Poly.atom(a), n)] if a.kind == 'App' and a.args[0] == 'selected' and lift(a.args[1]) == key else [])
    return new((cnt,), lambda j: T.app('selected', key, j, sort='I'), 'I')


def where(I, c, a=None, b=None):
    if a is None:
        c = asarr(I, c)
        if c.ndim == 1 and isinstance(c.shape[0], int):
            idx = [k for k in range(c.shape[0]) if I.decide(T.bool_of_poly(c.get(k)))]
            return (array(I, idx, 'I') if idx else new((0,), lambda i: T.ZERO, 'I'),)
        if c.ndim == 1:
            return (selection(I, c),)
        raise Unsupported('np.where of one argument')
    if isinstance(c, (bool, B)):
        c = new((), lambda: tob(c).poly(), 'B')
    c = asarr(I, c)
    sh = I.bshape(c.shape, I.bshape(a.shape if isinstance(a, Arr) else (), b.shape if isinstance(b, Arr) else ()))
    f, g, h = I.bget(c, sh), I.bget(a, sh), I.bget(b, sh)
    r = new(sh, lambda *i: ite(T.bool_of_poly(f(*i)), g(*i), h(*i)), jdt(dtype_of(a), dtype_of(b)))
    return r


def any_(I, a, axis=None):
    if isinstance(a, (B, bool)):
        return a
    a = asarr(I, a)
    if axis is not None:
        raise Unsupported('any axis')
    if all(isinstance(s, int) for s in a.shape):
        import itertools
        r = T.FALSE
        for i in itertools.product(*[range(s) for s in a.shape]):
            r = bor(r, tobool(a.get(*i)))
        return r.args if r.op == 'c' else r
    g = a.snap()
    f = lambda *i: tobool(g(*i)).poly()
    s = asum(I, new(a.shape, f, 'I'))
    r = T.cmp_lt(0, s)
    return r.args if r.op == 'c' else r


def tobool(p):
    return T.bool_of_poly(p) if p.sort == 'I' else bnot(T.cmp_eq(p, 0))


def all_(I, a, axis=None):
    if isinstance(a, (B, bool)):
        return a
    a = asarr(I, a)
    r = any_(I, I.map1(a, lambda x: bnot(tobool(x)).poly(), 'B'), axis)
    return (not r) if isinstance(r, bool) else bnot(r)


def amin(I, a, mx, axis=None):
    a = asarr(I, a)
    if axis is None and all(isinstance(s, int) for s in a.shape):
        import itertools
        r = None
        for i in itertools.product(*[range(s) for s in a.shape]):
            x = a.get(*i)
            r = x if r is None else minmax(I, r, x, mx)
        return r
    if axis is None and a.ndim == 1:
        # a function of the array alone
        if I.trap is not None:
            I.trap.append((list(I.pc), T.cmp_le(1, lift(a.shape[0])), 'minimum of an empty array in ' + (I.callstack[-1] if I.callstack else '?')))
        f = a.snap()
        key = ssum(a.shape[0], lambda t: lift(f(t)) * T.app('tag', t))
        return T.app('maximum' if mx else 'minimum', key, lift(a.shape[0]), sort='I' if a.dtype in ('I', 'U') else 'R')
    raise Unsupported('min/max')


def concatenate(I, arrs, axis=0, **kw):
    xs = [asarr(I, x) for x in I.seq(arrs)]
    ax = int(size(I.num(axis))) % xs[0].ndim
    offs, tot = [], T.ZERO
    for x in xs:
        offs.append(tot)
        tot = tot + lift(x.shape[ax])
    gs = [x.snap() for x in xs]

    def fn(*i):
        r = T.ZERO
        for x, g, o in zip(xs, gs, offs):
            k = list(i)
            k[ax] = i[ax] - o
            c = band(T.cmp_le(o, i[ax]), T.cmp_lt(i[ax], o + lift(x.shape[ax])))
            if c.op == 'c' and not c.args:
                continue
            r = r + c.poly() * g(*k)
        return r
    sh = list(xs[0].shape)
    sh[ax] = size(tot)
    return new(sh, fn, jdt(*[x.dtype for x in xs]))


def stack(I, arrs, axis=0, **kw):
    if isinstance(arrs, SList):
        r = array(I, arrs)
    else:
        r = array(I, [asarr(I, x) for x in I.seq(arrs)])
    ax = int(size(I.num(axis)))
    ax = ax % r.ndim
    if ax:
        p = list(range(1, r.ndim))
        p.insert(ax, 0)
        r = transpose(I, r, *p)
    return r


def vstack(I, arrs):
    xs = [asarr(I, x) for x in I.seq(arrs)]
    xs = [index(I, x, (None, slice(None))) if x.ndim == 1 else x for x in xs]
    return concatenate(I, xs, 0)


def tile(I, a, reps):
    a = asarr(I, a)
    reps = shape_of(I, reps)
    n = max(a.ndim, len(reps))
    sh = (1,) * (n - a.ndim) + a.shape
    reps = (1,) * (n - len(reps)) + tuple(reps)
    g = a.snap()
    k = n - a.ndim
    return new([size(lift(x) * lift(y)) for x, y in zip(sh, reps)],
               lambda *i: g(*[I.ctx(T.mod(x, s)) if r != 1 else x for x, s, r in list(zip(i, sh, reps))[k:]]), a.dtype)


def repeat(I, a, n, axis=None):
    raise Unsupported('repeat')


def broadcast_to(I, a, shape, **kw):
    a = asarr(I, a)
    sh = shape_of(I, shape)
    g = I.bget(a, sh)
    return new(sh, g, a.dtype)


def atleast_1d(I, a):
    a = asarr(I, a)
    return reshape(I, a, 1) if a.ndim == 0 else a


def atleast_2d(I, a):
    a = asarr(I, a)
    if a.ndim == 0:
        return reshape(I, a, 1, 1)
    return index(I, a, (None, slice(None))) if a.ndim == 1 else a


def squeeze(I, a, axis=None):
    if isnum(a):
        return a
    a = asarr(I, a)
    items = tuple(0 if isinstance(s, int) and s == 1 else slice(None) for s in a.shape)
    if all(x == 0 for x in items if not isinstance(x, slice)) and not any(isinstance(x, slice) for x in items):
        return new((), lambda: a.get(*([0] * a.ndim)), a.dtype)
    return index(I, a, items)


def diff(I, a):
    a = asarr(I, a)
    g = a.snap()
    return new((lift(a.shape[0]) - 1,), lambda i: g(i + 1) - g(i), a.dtype)


def ndindex(I, *dims):
    if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
        dims = tuple(dims[0])

    def push(f, tag, fr):
        def rec(k, idx):
            if k == len(dims):
                f(idx)
            else:
                I.iterate(Rng(0, I.num(dims[k])), lambda x: rec(k + 1, idx + (x,)), None, fr)
        rec(0, ())
    it = Iter(push)
    sz = [size(I.num(d)) for d in dims]
    if not all(isinstance(x, int) for x in sz):
        n = T.ONE
        for x in sz:
            n = n * x

        def at(t):
            out = []
            t = lift(t)
            for x in sz[:0:-1]:
                out.append(T.mod(t, lift(x)))
                t = T.floordiv(t, lift(x))
            return tuple([t] + out[::-1])
        it.n, it.fn = n, at
    return it


def product(I, *its, repeat=1):
    its = [I.seq(x) if not isinstance(x, (Rng, Arr, SList)) else x for x in its] * int(size(I.num(repeat)))
    if all(not isinstance(x, (Rng, Arr, SList)) or I.symlen(x) is None for x in its):
        import itertools
        return ListIter(list(itertools.product(*[I.seq(x) for x in its])))

    def push(f, tag, fr):
        def rec(k, idx):
            if k == len(its):
                f(idx)
            else:
                I.iterate(its[k], lambda x: rec(k + 1, idx + (x,)), None, fr)
        rec(0, ())
    return Iter(push)


def b_sum(I, it, start=0):
    cell = {'s': start}

    def f(x):
        I.set(cell, 's', I.binop(ast.Add(), cell['s'], x))
    if isinstance(it, Arr):
        if it.ndim == 1:
            return I.binop(ast.Add(), start, asum(I, it))
        if not isinstance(it.shape[0], int):
            return I.binop(ast.Add(), start, asum(I, it, 0))
    I.iterate(it, f)
    return cell['s']


def b_enumerate(I, it, start=0):
    n = I.symlen(it)
    if n is not None:
        return SList(n, lambda i: (simp(lift(start) + i), I.at(it, i)))

    if isinstance(it, (list, tuple, Arr, SList, Rng, dict)):
        return [(start + k, x) for k, x in enumerate(I.seq(it))]

    def push(f, tag, fr):
        cell = {'k': start}

        def g(x):
            k = cell['k']
            I.set(cell, 'k', simp(lift(k) + 1))
            f((k, x))
        I.iterate(it, g, None, fr)
    return Iter(push)


def b_zip(I, *its):
    lens = [I.symlen(x) for x in its]
    if any(n is not None for n in lens):
        n = [x for x in lens if x is not None]
        for x, l in zip(its, lens):
            if l is None or not I.same_dim(l, n[0]):
                raise Unsupported('zip of different lengths')
        return SList(n[0], lambda i: tuple(I.at(x, i) for x in its))
    return list(zip(*[I.seq(x) for x in its]))


def b_len(I, x):
    if isinstance(x, (list, tuple, dict, str, set)):
        return len(x)
    if isinstance(x, Arr):
        return x.shape[0]
    if isinstance(x, SList):
        return x.n
    if isinstance(x, Rng):
        return I.rng_len(x)
    if isinstance(x, Obj):
        f = x.cls.find('__len__')
        if f is not MISSING:
            return I.call(Bound(f, x), [])
        if '__tuple__' in x.attrs:
            return len(x.attrs['__tuple__'])
    raise Unsupported('len of %r' % (x,))


def b_map(I, f, *its):
    if len(its) == 1 and I.symlen(its[0]) is not None:
        it = its[0]
        return I.freeze(I.symlen(it), lambda i: I.call(f, [I.at(it, i)]))
    return [I.call(f, list(xs)) for xs in zip(*[I.seq(x) for x in its])]


def b_int(I, x=0, base=None):
    if isinstance(x, str):
        raise Unsupported('int of string')
    if isinstance(x, Word):
        return I.num(x)
    p = I.num(x)
    return simp(toint(p))


def b_float(I, x=0):
    if isinstance(x, str):
        if x in ('inf', '-inf'):
            return T.app('inf') * (1 if x == 'inf' else -1)
        raise Unsupported('float of string')
    p = I.num(x)
    if p.sort == 'C':
        raise PyExc('TypeError')
    return asort(p, 'R')


def b_isinstance(I, x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(I, x, y) for y in t)
    n = t.name if isinstance(t, (Cls, Native)) else None
    if isinstance(t, Cls) and isinstance(x, (Obj,)):
        return t in x.cls.mro() or (n == 'object')
    if isinstance(t, Cls) and isinstance(x, Arr) and x.cls is not None and t in x.cls.mro():
        return True
    if n == 'ndarray':
        return isinstance(x, Arr)
    if n in ('int', 'Integral', 'integer'):
        return isinstance(x, (int,)) or isinstance(x, Poly) and x.sort == 'I' or (isinstance(x, Word) and n != 'int')
    if n in ('float', 'floating'):
        return isinstance(x, Poly) and x.sort == 'R'
    if n == 'complex':
        return isinstance(x, Poly) and x.sort == 'C'
    if n == 'bool':
        return isinstance(x, (bool, B))
    if n == 'str':
        return isinstance(x, str)
    if n == 'tuple':
        return isinstance(x, tuple) or isinstance(x, Obj) and '__tuple__' in x.attrs
    if n == 'list':
        return isinstance(x, (list, SList))
    if n == 'dict':
        return isinstance(x, dict)
    if n in ('Iterable', 'Sequence'):
        return isinstance(x, (list, tuple, Arr, SList))
    if n in ('Number', 'Real'):
        return isnum(x)
    if isinstance(t, Cls):
        return False
    raise Unsupported('isinstance with %r' % (t,))


def c_after(I, lo, hi, k):
    """counter of a C counting loop when it has ended"""
    lo, hi, k = I.num(lo), I.num(hi), int(size(I.num(k)))
    return ite(T.cmp_le(hi, lo), lo, hi if k == 1 else lo + k * T.floordiv(hi - lo + k - 1, k))


def b_range(I, *a):
    a = [I.num(x) for x in a]
    if len(a) == 1:
        return Rng(0, a[0])
    return Rng(*a)


def b_minmax(mx):
    def f(I, *a, key=None, default=None):
        if len(a) == 1:
            if isinstance(a[0], Arr):
                return amin(I, a[0], mx)
            a = I.seq(a[0])
        if key is not None:
            ks = [I.call(key, [x]) for x in a]
            best = 0
            for j in range(1, len(a)):
                c = I.compare(ast.Gt() if mx else ast.Lt(), ks[j], ks[best])
                if I.decide(c):
                    best = j
            return a[best]
        r = a[0]
        for x in a[1:]:
            if isinstance(r, int) and isinstance(x, int):
                r = max(r, x) if mx else min(r, x)
            else:
                r = simp(minmax(I, r, x, mx))
        return r
    return f


def b_sorted(I, it, key=None, reverse=False):
    if isinstance(it, SymSet):
        if I.sorted_hook is None or key is not None or reverse:
            raise Unsupported('sorting a symbolic set')
        return I.sorted_hook(it.items)
    xs = I.seq(it)
    if key is None and all(isinstance(x, (int, str)) for x in xs):
        return sorted(xs, reverse=bool(reverse))
    if key is None and all(isinstance(x, tuple) and all(isinstance(y, (int, str)) for y in x) for x in xs):
        return sorted(xs, reverse=bool(reverse))
    ks = [I.call(key, [x]) for x in xs] if key is not None else xs
    if all(isinstance(k, (int, str, tuple)) and not isinstance(k, bool) for k in ks):
        try:
            return [x for _, _, x in sorted(((k, i, x) for i, (k, x) in enumerate(zip(ks, xs))), key=lambda t: t[:2], reverse=bool(reverse))]
        except TypeError:
            pass
    # insertion sort with decided comparisons
    out = []
    for k, x in zip(ks, xs):
        p = len(out)
        while p > 0 and I.decide(I.compare(ast.Lt(), k, out[p - 1][0])):
            p -= 1
        out.insert(p, (k, x))
    r = [x for _, x in out]
    return r[::-1] if reverse else r


def b_anyall(isany):
    def f(I, it):
        r = T.FALSE if isany else T.TRUE
        for x in I.seq(it):
            t = tob(I.truth(x))
            r = bor(r, t) if isany else band(r, t)
        return r.args if r.op == 'c' else r
    return f


def b_next(I, it, default=MISSING):
    if isinstance(it, ListIter):
        if it.pos < len(it.items):
            v = it.items[it.pos]
            I.setnat(it, 'pos', it.pos + 1)
            return v
        if default is not MISSING:
            return default
        raise PyExc('StopIteration')
    if isinstance(it, (GenExp, Gen)):
        # first element
        class Found(Exception):
            pass
        box = []

        def f(x):
            box.append(x)
            raise Found
        try:
            I.iterate(it, f)
        except Found:
            return box[0]
        if default is not MISSING:
            return default
        raise PyExc('StopIteration')
    raise Unsupported('next')


class ListIter(Iter):
    def __init__(self, items):
        self.items, self.pos = items, 0
        self.ser = next(loops._ser)

    def push(self, I, f, tag, fr):
        while self.pos < len(self.items):
            x = self.items[self.pos]
            I.setnat(self, 'pos', self.pos + 1)
            f(x)


def b_iter(I, x):
    if isinstance(x, ListIter):
        return x
    if isinstance(x, (list, tuple, dict, set, str)):
        return ListIter(list(x))
    return x


def obj_attr(I, o, a):
    if '__tuple__' in o.attrs and a == '_fields':
        return o.cls.ns.get('_fields', MISSING)
    if a == '__init__':
        return Native(lambda I, *x, **k: None)
    return MISSING


def super_attr(I, s, a):
    if a == '__init__':
        return Native(lambda I, *x, **k: None)
    if a == '__new__':
        return Native(lambda I, c, *x, **k: Obj(c))
    if isinstance(s.obj, Arr):
        return arr_attr(I, s.obj, a)
    return MISSING


def val_attr(I, o, a):
    if isinstance(o, (Poly, int, bool, B, Word, float)) or isinstance(o, Fraction):
        if a == 'real':
            return real(I, o)
        if a == 'imag':
            return imag(I, o)
        if a in ('conj', 'conjugate'):
            return Native(lambda I: conj(I, o))
        if a == 'ndim':
            return 0
        if a == 'shape':
            return ()
        if a == 'size':
            return 1
        if a in ('copy', 'item', 'sum', 'mean', 'max', 'min', 'squeeze'):
            return Native(lambda I, *x, **k: o)
        if a == 'any' or a == 'all':
            return Native(lambda I, *x, **k: o)
        if a == 'astype':
            return Native(lambda I, d: o)
        if a == 'dtype':
            return DType(dtype_of(o))
        if a == 'dot':
            return Native(lambda I, b: dot(I, o, b))
        if a == 'is_integer':
            return Native(lambda I: I.num(o).sort == 'I')
        return MISSING
    if isinstance(o, dict):
        return dict_attr(I, o, a)
    if isinstance(o, list):
        return list_attr(I, o, a)
    if isinstance(o, tuple):
        if a == 'index':
            return Native(lambda I, x: [i for i, y in enumerate(o) if I.truth(I.compare(ast.Eq(), x, y)) is True][0])
        if a == 'count':
            return Native(lambda I, x: sum(1 for y in o if I.truth(I.compare(ast.Eq(), x, y)) is True))
        return MISSING
    if isinstance(o, str):
        if a in ('lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'format', 'join', 'count', 'find', 'title'):
            return Native(lambda I, *x, **k: getattr(o, a)(*[I.seq(y) if isinstance(y, (GenExp,)) else y for y in x]) if a != 'format' else 'formatted')
        return MISSING
    if isinstance(o, (set, frozenset)):
        if a == 'add':
            def add(I, x):
                raise Unsupported('set.add')
            return Native(add)
        if a in ('union', 'intersection', 'difference', 'issubset', 'issuperset'):
            return Native(lambda I, *x: getattr(o, a)(*[set(I.key(z) for z in I.seq(y)) for y in x]))
        return MISSING
    if isinstance(o, DType):
        if a == 'kind':
            return {'I': 'i', 'U': 'u', 'R': 'f', 'C': 'c', 'B': 'b', 'O': 'O'}[o.code]
        if a == 'type':
            return o
        return MISSING
    if isinstance(o, Prop):
        if a == 'setter':
            return Native(lambda I, f: Prop(o.get, f))
        if a == 'getter':
            return Native(lambda I, f: Prop(f, o.set))
        return MISSING
    if isinstance(o, SList):
        if a == 'append':
            def app(I, x):
                n0, f0 = lift(o.n), o.fn
                raise Unsupported('append to a symbolic list')
            return Native(app)
        return MISSING
    if isinstance(o, Native):
        if a == '__name__':
            return o.name
        at = getattr(o, 'attrs', None)
        if at and a in at:
            return at[a]
        return MISSING
    if isinstance(o, Rng):
        return {'start': o.lo, 'stop': o.hi, 'step': o.step}.get(a, MISSING)
    if isinstance(o, Bound):
        if a == '__self__':
            return o.self_
        if a == '__func__':
            return o.f
        return I.getattr_(o.f, a)
    if isinstance(o, slice):
        return getattr(o, a)
    return MISSING


def dict_attr(I, o, a):
    if a == 'items':
        return Native(lambda I: [(k, v) for k, v in o.items()])
    if a == 'keys':
        return Native(lambda I: list(o.keys()))
    if a == 'values':
        return Native(lambda I: list(o.values()))
    if a == 'get':
        def get(I, k, d=None):
            kk = I.key(k)
            if kk in o:
                return o[kk]
            if isinstance(kk, Poly) or any(isinstance(y, Poly) for y in o):
                raise Unsupported('symbolic get')
            return d
        return Native(get)
    if a == 'pop':
        def pop(I, k, d=MISSING):
            kk = I.key(k)
            if kk in o:
                v = o[kk]
                I.set(o, kk, MISSING)
                return v
            if d is not MISSING:
                return d
            raise PyExc('KeyError', (kk,))
        return Native(pop)
    if a == 'update':
        def update(I, *d, **k):
            for x in d:
                for kk, v in (x.items() if isinstance(x, dict) else I.seq(x)):
                    I.setitem(o, kk, v)
            for kk, v in k.items():
                I.setitem(o, kk, v)
        return Native(update)
    if a == 'setdefault':
        def setdefault(I, k, d=None):
            kk = I.key(k)
            if kk not in o:
                I.set(o, kk, d)
            return o[kk]
        return Native(setdefault)
    if a == 'copy':
        return Native(lambda I: type(o)(o))
    if a == 'clear':
        def clear(I):
            for k in list(o):
                I.set(o, k, MISSING)
        return Native(clear)
    if a == 'popitem':
        raise Unsupported('popitem')
    if a == 'default_factory':
        return getattr(o, 'factory', None)
    return MISSING


def list_attr(I, o, a):
    if a == 'append':
        return Native(lambda I, x: I.setlist(o, o + [x]))
    if a == 'extend':
        return Native(lambda I, x: I.setlist(o, o + I.seq(x)))
    if a == 'insert':
        return Native(lambda I, k, x: I.setlist(o, o[:int(size(I.num(k)))] + [x] + o[int(size(I.num(k))):]))
    if a == 'pop':
        def pop(I, k=-1):
            v = o[int(size(I.num(k)))]
            nl = list(o)
            del nl[int(size(I.num(k)))]
            I.setlist(o, nl)
            return v
        return Native(pop)
    if a == 'copy':
        return Native(lambda I: list(o))
    if a == 'index':
        return Native(lambda I, x: [i for i, y in enumerate(o) if I.truth(I.compare(ast.Eq(), x, y)) is True][0])
    if a == 'reverse':
        return Native(lambda I: I.setlist(o, o[::-1]))
    if a == 'sort':
        return Native(lambda I, key=None, reverse=False: I.setlist(o, b_sorted(I, o, key, reverse)))
    if a == 'clear':
        return Native(lambda I: I.setlist(o, []))
    if a == 'count':
        return Native(lambda I, x: sum(1 for y in o if I.truth(I.compare(ast.Eq(), x, y)) is True))
    if a == 'remove':
        raise Unsupported('list.remove')
    return MISSING


def arr_attr(I, o, a):
    if a == 'sort' and getattr(I, 'array_sort', None):
        return Native(lambda I: I.array_sort(I, o))
    N = lambda f: Native(lambda I, *x, **k: f(I, o, *x, **k), a)
    if a == 'shape':
        return tuple(o.shape)
    if a == 'size':
        return size(prod(o.shape))
    if a == 'ndim':
        return o.ndim
    if a == 'dtype':
        return DType(o.dtype)
    if a == 'T':
        return transpose(I, o)
    if a in ('real', 'imag') and o.dtype == 'C':
        r = Arr(o.shape, PartBuf(o.buf, a[:2]), o.fwd, o.inv)
        r.attrs = dict(o.attrs)
        return r
    if a == 'real':
        return o
    if a == 'imag':
        return imag(I, o)
    if a == 'flags':
        f = Obj(Cls('flags'))
        f.attrs = dict(f_contiguous=bool(o.attrs.get('f')) or o.ndim <= 1, c_contiguous=not o.attrs.get('f'), writeable=o.attrs.get('writeable', True))
        f.cls.ns['__setattr__'] = None
        return f
    if a == 'flat':
        r = reshape(I, o, -1)
        r.attrs['flat_of'] = o
        return r
    t = {'sum': asum, 'mean': mean, 'dot': dot, 'conj': conj, 'conjugate': conj, 'transpose': transpose, 'reshape': reshape, 'any': any_, 'all': all_,
         'squeeze': squeeze, 'prod': aprod}.get(a)
    if a == 'reshape':
        def rs(I, *x, **k):
            m1 = len(x) == 1 and not k and (x[0] == -1 if isinstance(x[0], (int, Poly)) else isinstance(x[0], tuple) and len(x[0]) == 1 and x[0][0] == -1)
            return flat(I, o) if m1 else reshape(I, o, *x, **k)
        return Native(rs)
    if t is not None:
        return N(t)
    if a in ('copy', 'flatten'):
        def cp(I, *x, **k):
            r = new(o.shape, o.snap(), o.dtype)
            r.cls = o.cls if a == 'copy' else None
            if o.attrs.get('f') and a == 'copy' and k.get('order', 'C') in ('K', 'F', 'A'):
                r.attrs['f'] = True
            return flat(I, r) if a == 'flatten' else r
        return Native(cp)
    if a == 'ravel':
        return Native(lambda I, *x, **k: flat(I, o))
    if a == 'astype':
        return Native(lambda I, d, **k: cast(I, new(o.shape, o.snap(), o.dtype), dtype_code(d)))
    if a == 'fill':
        return Native(lambda I, v: I.store_all(o, lambda *i: I.num(v)))
    if a == 'view':
        def view(I, c=None):
            r = Arr(o.shape, o.buf, o.fwd, o.inv)
            if isinstance(c, Cls) and c.name != 'ndarray':
                r.cls = c
            elif c is not None and not isinstance(c, (Cls, Native)):
                raise Unsupported('view')
            return r
        return Native(view)
    if a == 'min' or a == 'max':
        return Native(lambda I, axis=None: amin(I, o, a == 'max', axis))
    if a == 'diagonal':
        def diagonal(I, offset=0, axis1=0, axis2=1):
            a1, a2 = int(size(I.num(axis1))) % o.ndim, int(size(I.num(axis2))) % o.ndim
            g = o.snap()
            rest = [d for d in range(o.ndim) if d not in (a1, a2)]

            def fn(*i):
                idx = [None] * o.ndim
                for d, x in zip(rest, i):
                    idx[d] = x
                idx[a1], idx[a2] = i[-1], i[-1] + offset
                return g(*idx)
            return new([o.shape[d] for d in rest] + [o.shape[a1]], fn, o.dtype)
        return Native(diagonal)
    if a == 'trace':
        return Native(lambda I: ssum(o.shape[0], lambda k: o.get(k, k)))
    if a == 'item':
        return Native(lambda I, *k: o.get(*[I.num(x) for x in k]) if k else o.get(*([0] * o.ndim)))
    if a == 'tolist':
        return Native(lambda I: I.seq(o))
    if a == 'swapaxes':
        def sw(I, x, y):
            p = list(range(o.ndim))
            x, y = int(size(I.num(x))), int(size(I.num(y)))
            p[x], p[y] = p[y], p[x]
            return transpose(I, o, *p)
        return Native(sw)
    if a == 'setflags':
        return Native(lambda I, write=None, **k: I.set(o.attrs, 'writeable', write) if write is not None else None)
    if a == 'base':
        return None
    if a == 'strides':
        raise Unsupported('strides')
    if a in ('ctypes', 'data'):
        raise Unsupported(a)
    return MISSING


def identity_dec(I, *a, **k):
    if len(a) == 1 and isinstance(a[0], Func) and not k:
        return a[0]
    return Native(lambda I, f: f, 'decorator')


def vectorize_dec(I, *a, **k):
    def wrap(I, f):
        def call(I, *args):
            if any(isinstance(x, (Arr, list, tuple)) for x in args):
                args = [asarr(I, x) if isinstance(x, (list, tuple)) else x for x in args]
                sh = ()
                for x in args:
                    if isinstance(x, Arr):
                        sh = I.bshape(sh, x.shape)
                gs = [I.bget(x, sh) for x in args]

                def fn(*i):
                    k, v = I.merged(lambda: I.call(f, [g(*i) for g in gs]))
                    I.outcome(k, v)
                    return I.num(v)
                return new(sh, fn, 'R')
            return I.call(f, list(args))
        n = Native(call, f.name)
        n.inner = f
        return n
    if len(a) == 1 and isinstance(a[0], Func):
        return wrap(I, a[0])
    return Native(wrap)


def guvectorize_dec(I, *a, **k):
    sig = [x for x in a if isinstance(x, str) and '->' in x][-1] if a else k.get('signature')

    def wrap(I, f):
        n = Native(lambda I, *args, **kw: gu_call(I, f, sig, args, kw), f.name)
        n.inner = f
        return n
    return Native(wrap)


def gu_call(I, f, sig, args, kw):
    ins, outs = sig.replace(' ', '').split('->')
    ins, outs = [x.split(',') if x else [] for x in ins[1:-1].split('),(')], [x.split(',') if x else [] for x in outs[1:-1].split('),(')]
    dims = {}
    for s, x in zip(ins, args):
        x = asarr(I, x)
        if x.ndim != len(s):
            raise Unsupported('guvectorize broadcast')
        for c, n in zip(s, x.shape):
            dims[c] = n
    xs = [asarr(I, x) for x in args[:len(ins)]]
    out = list(args[len(ins):]) or ([kw['out']] if 'out' in kw else [])
    if isinstance(out and out[0], tuple):
        out = list(out[0])
    if not out:
        dt = jdt(*[x.dtype for x in xs])
        out = [empty(I, [dims[c] for c in s], DType(dt)) for s in outs]
    I.call(f, xs + out)
    return out[0] if len(out) == 1 else tuple(out)


def namedtuple(I, name, fields, **kw):
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    c = Cls(name)
    c.ns['_fields'] = tuple(fields)

    def nw(I, cls, args, k):
        vals = list(args)
        for f in fields[len(vals):]:
            if f not in k:
                raise PyExc('TypeError', ('missing ' + f,))
            vals.append(k[f])
        o = Obj(cls, dict(zip(fields, vals)))
        o.attrs['__tuple__'] = tuple(vals)
        return o
    c.native_new = nw
    return c


def make_dataclass(I, name, fields, **kw):
    fs = []
    for f in fields:
        if isinstance(f, str):
            fs.append((f, MISSING))
        else:
            d = f[2] if len(f) > 2 else MISSING
            fs.append((f[0], d))
    c = Cls(name)

    def nw(I, cls, args, k):
        o = Obj(cls)
        for (n, d), v in zip(fs, args):
            o.attrs[n] = v
        for n, d in fs[len(args):]:
            if n in k:
                o.attrs[n] = k[n]
            elif d is not MISSING:
                o.attrs[n] = d.attrs.get('default') if isinstance(d, Obj) else d
            else:
                raise PyExc('TypeError', ('missing ' + n,))
        return o
    c.native_new = nw
    return c


def dc_field(I, default=MISSING, default_factory=MISSING, **k):
    return Obj(Cls('field'), {'default': default})


def defaultdict(I, factory=None, *a):
    d = DefDict()
    d.factory = factory
    if a:
        d.update(a[0])
    return d


def nditer(I, op, flags=(), op_flags=None, op_dtypes=None, order='K', casting='safe', op_axes=None, itershape=None):
    """elementwise iteration in chunks of unspecified size (external_loop): modelled as a single chunk holding everything, which is the same
    for a body that treats the elements independently"""
    if list(flags) != ['external_loop'] or op_dtypes is not None or itershape is not None or op_flags is not None:
        raise Unsupported('nditer of this kind')
    ops = [None if a is None else asarr(I, a) for a in op]
    axes = list(op_axes) if op_axes is not None else [None] * len(ops)
    axes = [None if a is None else [int(lift(I.num(x)).cval()) for x in a] for a in axes]
    nd = max([len(a) for a in axes if a is not None] + [a.ndim for a, x in zip(ops, axes) if a is not None and x is None])
    shape, gets = (1,) * nd, []
    for a, x in zip(ops, axes):
        if a is None:
            gets.append(None)
            continue
        if x is None:
            x = [-1] * (nd - a.ndim) + list(range(a.ndim))
        if sorted(k for k in x if k >= 0) != list(range(a.ndim)):
            raise Unsupported('nditer: operand axes')
        sh = tuple(a.shape[k] if k >= 0 else 1 for k in x)
        shape = I.bshape(shape, sh)
        v = new(sh, lambda *i, a=a, x=x: a.snap()(*[i[x.index(k)] for k in range(a.ndim)]), a.dtype)
        gets.append(v)
    dts = [a.dtype for a in ops if a is not None]
    dt = 'C' if 'C' in dts else 'R' if 'R' in dts else dts[0]
    out = []
    for v in gets:
        if v is None:
            out.append(new(shape, lambda *i: T.app('undef', *i, sort='R'), dt))
        else:
            v = new(shape, I.bget(v, shape), v.dtype)
            v.buf.frozen = True
            out.append(v)
    c = Cls('nditer')
    o = Obj(c)
    c.ns['__iter__'] = Native(lambda I, s: [tuple(out)])
    c.ns['__enter__'] = Native(lambda I, s: s)
    for k in ('__iter__', '__enter__'):
        c.ns[k].method = True
    o.attrs['operands'] = tuple(out)
    return o


def np_errstate(I, **k):
    return Obj(Cls('errstate'))


def isscalar(I, x):
    return isnum(x) and not isinstance(x, Arr)


def ufunc_binary(op):
    def f(I, a, b, out=None):
        if isinstance(a, (list, tuple)):
            a = array(I, a)
        if isinstance(b, (list, tuple)):
            b = array(I, b)
        r = I.binop(op(), a, b)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            if not isinstance(r, Arr):
                I.store_all(out, lambda *i: I.num(r))
                return out
            if not I.same_shape(I.bshape(r.shape, out.shape), out.shape):
                raise PyExc('ValueError')
            I.store_all(out, I.bget(r, out.shape))
            return out
        return r
    return f


def reciprocal(I, a, out=None):
    r = I.binop(ast.Div(), 1, a)
    if out is not None:
        I.store_all(out, r.snap())
        return out
    return r


def opaque(name, sort='R'):
    def f(I, *a, **k):
        raise Unsupported(name)
    return Native(f, name)


def binom(I, n, k):
    if isinstance(n, Arr) or isinstance(k, Arr):
        raise Unsupported('binom of arrays')
    n, k = I.num(n), I.num(k)
    if n.is_const() and k.is_const():
        from math import comb
        a, b = int(n.cval()), int(k.cval())
        return lift(comb(a, b) if 0 <= b <= a else 0)
    return T.app('binom', n, k, sort='I')


def _rb(n, k):
    if n.is_const() and k.is_const():
        from math import comb
        a, b = int(n.cval()), int(k.cval())
        return lift(comb(a, b) if 0 <= b <= a else 0)
    return T.app('binom', n, k, sort='I')


T.REBUILD['binom'] = _rb


def binary_repr(I, i, width=None):
    if width is None:
        raise Unsupported('binary_repr without a width')
    n = I.num(width)
    w = I.word(i)
    I.trap is not None and I.trap.append((list(I.pc), T.TRUE, 'binary_repr'))
    a = new((size(n),), lambda k: w.fn(n - 1 - lift(k)), 'B')
    a.cls = STR
    return a


STR = Cls('str')


def fromiter(I, it, dtype=None, count=-1):
    if isinstance(it, Arr):
        return new(it.shape, it.snap(), it.dtype)
    return array(I, it, dtype)


def unravel_index(I, i, dims):
    i = I.num(i)
    out = []
    for d in reversed(list(dims)[1:]):
        d = I.num(d)
        out.insert(0, simp(I.ctx(T.mod(i, d))))
        i = I.ctx(T.floordiv(i, d))
    out.insert(0, simp(i))
    return tuple(out)


def ravel_multi_index(I, idx, dims):
    r = T.ZERO
    for x, d in zip(I.seq(idx), I.seq(dims)):
        r = r * I.num(d) + I.num(x)
        c = band(T.cmp_le(0, I.num(x)), T.cmp_lt(I.num(x), I.num(d)))
        if c.op == 'c' and not c.args:
            raise PyExc('ValueError', ('invalid entry in coordinates array',))
        if I.trap is not None and c.op != 'c':
            I.trap.append((list(I.pc), c, 'ravel_multi_index coordinates in range'))
    return simp(r)


def c_names(I, c):
    """names the rewritten Cython / C text refers to"""
    def cybuf(I, a, dt, nd):
        if not isinstance(a, Arr):
            raise Unsupported('buffer argument that is not an array')
        if nd is not None and a.ndim != nd:
            raise PyExc('ValueError', ())
        want = {'complex': 'C', 'double': 'R', 'np.float64_t': 'R', 'csi': 'I', 'int': 'I'}.get(dt)
        if want and a.dtype != want:
            raise PyExc('ValueError', ())
        return a

    def cdiv(I, a, b):
        a, b = I.num(a), I.num(b)
        if not I.solver.implied(I.pc, band(T.cmp_le(0, a), T.cmp_lt(0, b))):
            raise Unsupported('C integer division of possibly negative operands')
        return I.arith('FloorDiv', a, b)

    def cmod(I, a, b):
        a, b = I.num(a), I.num(b)
        if not I.solver.implied(I.pc, band(T.cmp_le(0, a), T.cmp_lt(0, b))):
            raise Unsupported('C integer remainder of possibly negative operands')
        return I.arith('Mod', a, b)

    def box(I):
        nm = 'undef!%d' % next(T._fresh)
        return new((1,), lambda *i: T.app(nm, *i, sort='R'), 'R')
    d = dict(_cybuf=cybuf, _cdiv=cdiv, _cmod=cmod, _cstruct=lambda I: Obj(Cls('cs')), _cbox=box, _cafter=c_after, _cpoison=lambda I: Poison('uninitialised C variable'))
    if c:
        d.update(sqrt=lambda I, x: sqrt(I.num(x)), fabs=lambda I, x: abs_(I.num(x)), pow=lambda I, x, y: power(I, I.num(x), y),
                 cpow=lambda I, x, y: power(I, I.num(x), y), cabs=lambda I, x: abs_(I.num(x)), creal=lambda I, x: T.re_(lift(I.num(x))),
                 cimag=lambda I, x: T.im_(lift(I.num(x))), free=lambda I, x: None, printf=lambda I, *a: 0, fprintf=lambda I, *a: 0,
                 exit=lambda I, n: _raise('exit'), stderr=lambda I: None)
    return {k: Native(v, k) for k, v in d.items()}


def _raise(n):
    raise PyExc(n, ())


def c_alloc(I):
    """allocation: fresh blocks of unspecified content"""
    def mk(dt):
        def f(I, *n):
            nm = 'malloc!%d' % next(T._fresh)
            return new(tuple(I.num(x) for x in n), lambda *i: T.app(nm, *i, sort=dt), dt)
        return Native(f, 'alloc')
    return dict(vector=mk('R'), cvector=mk('C'), cmatrix=mk('C'))


def modules(I):
    m = {}
    f = lambda **k: {a: (Native(b, a) if callable(b) and not isinstance(b, (Native, Cls, Module)) else b) for a, b in k.items()}
    ndarray = Cls('ndarray')
    linalg = Module('numpy.linalg', f(norm=norm))
    np = Module('numpy', f(
        array=array, asarray=lambda I, a, dtype=None, **k: a if isinstance(a, Arr) and (dtype is None or dtype_code(dtype) == a.dtype) else array(I, a, dtype),
        ascontiguousarray=lambda I, a, dtype=None: a if isinstance(a, Arr) and not a.attrs.get('f') else array(I, a, dtype),
        zeros=zeros, empty=empty, ones=ones, full=lambda I, s, v, dtype=None: full(I, s, I.num(v), dtype_code(dtype) or dtype_of(v)),
        zeros_like=like(zeros), empty_like=like(empty), ones_like=like(ones), arange=arange, linspace=linspace, eye=eye,
        identity=lambda I, n: eye(I, n), diag=diag, dot=dot, matmul=matmul, inner=inner, vdot=vdot, outer=outer, kron=kron, einsum=einsum,
        sum=asum, mean=mean, prod=aprod, exp=uf(exp), sqrt=uf(sqrt), log=uf(log), sign=uf(sign), sinh=uf(sinh), cosh=uf(cosh), tanh=uf(tanh),
        abs=absuf, absolute=absuf, fabs=absuf, conj=conj, conjugate=conj, real=real, imag=imag, where=where, any=any_, all=all_,
        concatenate=concatenate, stack=stack, vstack=vstack, tile=tile, broadcast_to=broadcast_to, atleast_1d=atleast_1d, atleast_2d=atleast_2d,
        squeeze=squeeze, diff=diff, ndindex=ndindex, transpose=transpose, reshape=lambda I, a, s, **k: reshape(I, asarr(I, a), s, **k),
        ravel=lambda I, a: reshape(I, asarr(I, a), -1), multiply=ufunc_binary(ast.Mult), add=ufunc_binary(ast.Add), subtract=ufunc_binary(ast.Sub),
        divide=ufunc_binary(ast.Div), true_divide=ufunc_binary(ast.Div), power=lambda I, a, b: I.binop(ast.Pow(), a, b), reciprocal=reciprocal,
        square=uf(lambda x: x * x), negative=lambda I, a: I.unop(ast.USub(), a),
        minimum=lambda I, a, b: I.map2(a, b, lambda x, y: minmax(I, x, y, False)) if isinstance(a, Arr) or isinstance(b, Arr) else minmax(I, a, b, False),
        maximum=lambda I, a, b: I.map2(a, b, lambda x, y: minmax(I, x, y, True)) if isinstance(a, Arr) or isinstance(b, Arr) else minmax(I, a, b, True),
        isscalar=isscalar, errstate=np_errstate, nditer=nditer, size=lambda I, a: size(prod(asarr(I, a).shape)), ndim=lambda I, a: asarr(I, a).ndim,
        shape=lambda I, a: tuple(asarr(I, a).shape), copy=lambda I, a, **k: array(I, a), unravel_index=unravel_index, binary_repr=binary_repr, fromiter=fromiter, ravel_multi_index=ravel_multi_index,
        diagonal=lambda I, a, *x, **k: I.call(arr_attr(I, asarr(I, a), 'diagonal'), list(x), k), trace=lambda I, a: ssum(a.shape[0], lambda k: a.get(k, k)),
        swapaxes=lambda I, a, x, y: I.call(arr_attr(I, a, 'swapaxes'), [x, y]), shares_memory=lambda I, a, b: a.buf is b.buf,
        divmod=lambda I, a, b: (I.binop(ast.FloorDiv(), a, b), I.binop(ast.Mod(), a, b)),
        uint32=lambda I, x=0: x if isinstance(x, Word) else simp(toint(I.num(x))), int32=b_int, int64=b_int, int_=b_int, uint64=b_int,
        float64=lambda I, x=0: asort(I.num(x), 'R') if not isinstance(x, Arr) else cast(I, x, 'R'), float_=b_float, complex128=lambda I, x=0, y=0: asort(I.num(x), 'C'),
        bool_=lambda I, x=False: I.truth(x), newaxis=None, pi=T.var('pi', 'R'), inf=T.app('inf'), nan=T.app('nan'), ndarray=ndarray, linalg=linalg,
        dtype=lambda I, d: DType(dtype_code(d)), isclose=lambda I, *a, **k: _uns('isclose'), allclose=allclose, expm1=lambda I, x, **k: I.binop(ast.Sub(), uf(exp)(I, x), 1)))
    np.ns['int'] = I_INT
    np.ns['float'] = I_FLOAT
    np.ns['complex'] = I_COMPLEX
    np.ns['bool'] = I_BOOL
    np.ns['object'] = Cls('object')
    np.ns['integer'] = Cls('integer')
    np.ns['random'] = Module('numpy.random', {'Generator': Cls('Generator'), 'SeedSequence': Cls('SeedSequence')})
    np.ns['testing'] = Module('numpy.testing', {'assert_allclose': opaque('assert_allclose')})
    m['numpy'] = np
    m['numpy.linalg'] = linalg
    types = {k: Cls(k) for k in 'int64 int32 uint32 float64 complex128 boolean Array UniTuple Tuple void float32'.split()}
    for c in types.values():
        c.native_new = lambda I, c, a, k: c
    nb = Module('numba', dict(types))
    nb.ns.update(f(njit=identity_dec, jit=identity_dec, vectorize=vectorize_dec, guvectorize=guvectorize_dec, prange=b_range))
    nb.ns['types'] = Module('numba.types', types)
    m['numba'] = nb
    m['numba.types'] = nb.ns['types']
    m['numba.core'] = Module('numba.core')
    m['numba.core.decorators'] = Module('numba.core.decorators', {'njit': nb.ns['njit']})
    m['scipy'] = Module('scipy')
    m['mpmath'] = Module('mpmath', f(psi=polygamma))
    m['scipy.special'] = Module('scipy.special', f(binom=binom, comb=binom))
    csr = csr_class()
    m['scipy.sparse'] = Module('scipy.sparse', {'csr_matrix': csr})
    m['scipy.sparse'].ns['csr_matrix'] = csr
    m['scipy.constants'] = Module('scipy.constants', {k: T.var(k, 'R') for k in ('e', 'k', 'hbar', 'eV')})
    m['scipy.constants'].ns['physical_constants'] = Poison('physical_constants')
    m['collections'] = Module('collections', f(namedtuple=namedtuple, defaultdict=defaultdict, OrderedDict=lambda I, *a: dict(*a)))
    m['collections.abc'] = Module('collections.abc', {k: Cls(k) for k in ('Iterable', 'Sequence', 'Mapping')})
    m['itertools'] = Module('itertools', f(product=product, chain=lambda I, *a: [y for x in a for y in I.seq(x)], zip_longest=lambda I, *a, fillvalue=None: _zl(I, a, fillvalue),
                                           combinations=lambda I, a, r: __import__('itertools').combinations(I.seq(a), int(size(I.num(r)))), islice=opaque('islice'), count=opaque('count'),
                                           permutations=lambda I, a, r=None: list(__import__('itertools').permutations(I.seq(a), r)), accumulate=opaque('accumulate'), repeat=opaque('repeat')))
    m['dataclasses'] = Module('dataclasses', f(make_dataclass=make_dataclass, field=dc_field, dataclass=lambda I, *a, **k: _uns('dataclass')))
    m['warnings'] = Module('warnings', f(warn=lambda I, *a, **k: None))
    m['typing'] = Module('typing', {k: Cls(k) for k in 'List Dict Tuple Optional Union Any Callable ValuesView Iterable Sequence'.split()})
    m['types'] = Module('types', f(MethodType=lambda I, g, o: Bound(g, o), SimpleNamespace=lambda I, **k: Obj(Cls('SimpleNamespace'), dict(k))))
    m['functools'] = Module('functools', f(lru_cache=identity_dec, wraps=lambda I, g: Native(lambda I, h: h), partial=lambda I, g, *a, **k: Native(lambda I, *b, **l: I.call(g, list(a) + list(b), dict(k, **l))),
                                           reduce=lambda I, g, it, *s: _reduce(I, g, it, s)))
    m['operator'] = Module('operator', f(attrgetter=lambda I, n: Native(lambda I, o: I.getattr(o, n)), itemgetter=lambda I, n: Native(lambda I, o: I.getitem(o, n))))
    m['math'] = Module('math', f(sqrt=lambda I, x: sqrt(I.num(x)), exp=lambda I, x: exp(I.num(x)), pi=np.ns['pi'], comb=binom, log=lambda I, x: log(I.num(x)), fabs=lambda I, x: abs_(I.num(x)),
                                  floor=opaque('floor'), ceil=opaque('ceil')))
    m['sys'] = Module('sys', {'platform': 'linux'})
    m['os'] = Module('os', {})
    m['time'] = Module('time', f(time=lambda I: T.fresh('time', 'R')))
    m['logging'] = Module('logging', f(getLogger=lambda I, *a: _quiet(), debug=lambda I, *a: None, info=lambda I, *a: None))
    m['random'] = Module('random', f(random=opaque('random'), uniform=opaque('uniform')))
    m['pathlib'] = Module('pathlib', f(Path=opaque('Path')))
    m['copy'] = Module('copy', f(copy=opaque('copy'), deepcopy=opaque('deepcopy')))
    return m


def _quiet():
    c = Cls('Logger')
    o = Obj(c)
    for n in ('debug', 'info', 'warning', 'error'):
        o.attrs[n] = Native(lambda I, *a, **k: None, n)
    return o


def _zl(I, a, fill):
    import itertools
    return list(itertools.zip_longest(*[I.seq(x) for x in a], fillvalue=fill))


def _reduce(I, g, it, s):
    xs = I.seq(it)
    r = s[0] if s else xs.pop(0)
    for x in xs:
        r = I.call(g, [r, x])
    return r


def _uns(n):
    raise Unsupported(n)


def _cls(name, fn):
    c = Cls(name)
    c.native_new = lambda I, cls, a, k: fn(I, *a, **k)
    return c


I_INT = _cls('int', b_int)
I_FLOAT = _cls('float', b_float)
I_COMPLEX = _cls('complex', lambda I, a=0, b=0: asort(I.num(a) + T.IU * I.num(b), 'C'))
I_BOOL = _cls('bool', lambda I, a=False: I.truth(a))


def builtins_ns(I):
    exc = {}
    base = Cls('BaseException')
    E = Cls('Exception', [base])
    exc['BaseException'], exc['Exception'] = base, E
    for n, b in [('ValueError', 'Exception'), ('TypeError', 'Exception'), ('RuntimeError', 'Exception'), ('LookupError', 'Exception'), ('IndexError', 'LookupError'),
                 ('KeyError', 'LookupError'), ('AssertionError', 'Exception'), ('AttributeError', 'Exception'), ('ArithmeticError', 'Exception'),
                 ('ZeroDivisionError', 'ArithmeticError'), ('OverflowError', 'ArithmeticError'), ('StopIteration', 'Exception'),
                 ('NotImplementedError', 'RuntimeError'), ('NameError', 'Exception'), ('ImportError', 'Exception'), ('OSError', 'Exception'),
                 ('UnboundLocalError', 'NameError'), ('ModuleNotFoundError', 'ImportError'), ('RuntimeWarning', 'Exception'), ('UserWarning', 'Exception')]:
        exc[n] = Cls(n, [exc[b]])
    ns = dict(exc)
    N = lambda **k: {a: Native(b, a) for a, b in k.items()}
    ns.update(N(range=b_range, len=b_len, abs=absuf, min=b_minmax(False), max=b_minmax(True), sum=b_sum, enumerate=b_enumerate, zip=b_zip, map=b_map,
                isinstance=b_isinstance, print=lambda I, *a, **k: None, sorted=b_sorted, any=b_anyall(True), all=b_anyall(False), next=b_next, iter=b_iter,
                reversed=lambda I, x: I.seq(x)[::-1] if I.symlen(x) is None else SList(I.symlen(x), lambda i: I.at(x, lift(I.symlen(x)) - 1 - i)),
                hasattr=lambda I, o, a: I.getattr_(o, a) is not MISSING, getattr=lambda I, o, a, *d: I.getattr(o, a, *d), setattr=lambda I, o, a, v: I.setattr(o, a, v),
                repr=lambda I, x: 'formatted', callable=lambda I, x: isinstance(x, (Func, Native, Bound, Cls)) or isinstance(x, Obj) and x.cls.find('__call__') is not MISSING,
                filter=lambda I, f, it: [x for x in I.seq(it) if I.decide(I.call(f, [x]))], divmod=lambda I, a, b: (I.binop(ast.FloorDiv(), a, b), I.binop(ast.Mod(), a, b)),
                property=lambda I, g, s=None: Prop(g, s), staticmethod=lambda I, f: Static(f), classmethod=lambda I, f: ClsM(f), round=opaque('round').fn,
                id=lambda I, x: id(x), type=lambda I, x, *a: x.cls if isinstance(x, Obj) else _uns('type'), vars=lambda I, x: x.attrs, locals=lambda I: _uns('locals'),
                slice=lambda I, *a: slice(*a), format=lambda I, *a: 'formatted', hash=lambda I, x: id(x)))
    ns.update(int=I_INT, float=I_FLOAT, complex=I_COMPLEX, bool=I_BOOL, object=Cls('object'))
    mk = lambda n, fn: _cls(n, fn)
    ns['list'] = mk('list', lambda I, x=(): x if isinstance(x, SList) else I.seq(x) if I.symlen(x) is None else SList(I.symlen(x), lambda i: I.at(x, i)))
    ns['tuple'] = mk('tuple', lambda I, x=(): tuple(I.seq(x)))
    ns['dict'] = mk('dict', lambda I, *a, **k: dict([(I.key(p[0]), p[1]) for p in (I.seq(y) for y in I.seq(a[0]))] if a and not isinstance(a[0], dict) else (a[0] if a else {}), **k))
    ns['set'] = mk('set', lambda I, x=(): x if isinstance(x, SymSet) else SymSet(x) if I.symlen(x) is not None else set(I.key(y) for y in I.seq(x)))
    ns['frozenset'] = mk('frozenset', lambda I, x=(): frozenset(I.key(y) for y in I.seq(x)))
    ns['str'] = mk('str', lambda I, x='': x if isinstance(x, str) else 'formatted')
    ns['NotImplemented'] = Native(lambda I: None, 'NotImplemented')
    ns['__name__'] = 'module'
    return ns
