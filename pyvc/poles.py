"""Weighted pole sets that the code builds as two lists filled in step.

A PoleSet is the ghost state of a pair of lists (per key, for dictionaries of lists): for a test function w that nothing is
assumed about it holds  acc = sum over the pairs (q, l) appended so far of  q * w(l),  which determines the set of poles with
their weights.  The lists are never summarised themselves.
"""
from . import terms as T
from .terms import lift
from .interp import *
from .npmodel import ssum, reshape


class PoleSet:
    def __init__(self, I, w='w', keys=0):
        self.I, self.w, self.nk = I, w, keys
        self.G = NDict({"p": None})
        dims = tuple(T.var('keys%d' % k) for k in range(keys))
        self.acc = {f: new(dims, lambda *i: T.ZERO, 'R') for f in 'ab'}      # a: the first list holds the weights
        self.made = []

    def handle(self, field, key=()):
        o = Obj(Cls('list'))
        o.attrs['extend'] = Native(lambda I, v: self.extend(field, key, v))
        o.attrs['append'] = Native(lambda I, v: self.extend(field, key, new((1,), lambda t, v=I.num(v): v, 'R')))
        o.attrs['poles'] = (self, field, key)
        return o

    def extend(self, field, key, v):
        I = self.I
        if isinstance(v, (list, tuple)):
            v = new((len(v),), lambda t, v=v: I.num(v[int(t.cval())]), 'R')
        if not isinstance(v, Arr):
            raise Unsupported('poles: extended by something that is not an array')
        fl = v.attrs.get('flat')
        if fl is not None and fl[2] is v.buf.fn:
            shape, fn = fl[:2]
        elif v.ndim == 1:
            shape, fn = v.shape, v.snap()
        else:
            raise Unsupported('poles: extended by an array of rank %d' % v.ndim)
        p = self.G['p']
        if p is None:
            return I.set(self.G, 'p', (field, key, shape, fn))
        f2, k2, s2, fn2 = p
        if f2 == field or len(key) != len(k2) or not all((lift(x) - lift(y)).is_zero() for x, y in zip(key, k2)):
            raise Unsupported('poles: the two lists are not filled in step')
        if len(shape) != len(s2) or not all(I.same_dim(x, y) for x, y in zip(shape, s2)):
            raise Unsupported('poles: lists of different lengths')
        I.set(self.G, 'p', None)
        A, B = (fn2, fn) if f2 == 0 else (fn, fn2)
        for name, q, l in (('a', A, B), ('b', B, A)):
            def tot(k, idx):
                if k == len(shape):
                    return q(*idx) * T.app(self.w, l(*idx))
                return ssum(shape[k], lambda t: tot(k + 1, idx + (t,)))
            x = tot(0, ())
            arr = self.acc[name]
            old = arr.buf.fn
            kk = tuple(lift(z) for z in key)
            cond = lambda j, kk=kk: T.band(*[T.cmp_eq(y, z) for y, z in zip(j, kk)]) if kk else T.TRUE
            I.setbuf(arr.buf, memo(lambda *j, old=old, x=x, cond=cond: old(*j) + (cond(j).poly() * x if j else x)))

    def total(self, q, l):
        """(accumulated measure as a function of the key, key) when q holds the weights and l the positions"""
        a, b = [getattr(h, 'attrs', {}).get('poles') for h in (q, l)]
        if a is None or b is None or a[0] is not self or b[0] is not self or a[1] == b[1]:
            raise Unsupported('poles: not the two lists that were filled')
        if self.G['p'] is not None:
            raise Unsupported('poles: one list is longer')
        if len(a[2]) != len(b[2]) or not all((lift(x) - lift(y)).is_zero() for x, y in zip(a[2], b[2])):
            raise Unsupported('poles: lists of different keys')
        return self.acc['a' if a[1] == 0 else 'b'], a[2]


def lists(I, fname, w='w'):
    """the first two empty lists of function fname are a PoleSet"""
    P = PoleSet(I, w)

    def hook(q, val):
        if q.split('.')[-1] == fname and isinstance(val, list) and val == [] and len(P.made) < 2:
            h = P.handle(len(P.made))
            P.made.append(h)
            return h
        return None
    I.list_hook = hook
    return P


def maps(I, mod, w='w', keys=2):
    """the first two defaultdict(list) of a module are a PoleSet with keys"""
    P = PoleSet(I, w, keys)

    def dd(I, factory=None, *a):
        if len(P.made) >= 2:
            raise Unsupported('poles: a third dictionary')
        f = len(P.made)
        c = Cls('defaultdict')
        o = Obj(c)
        g = Native(lambda I, s, k: P.handle(f, tuple(lift(I.num(x)) for x in (k if isinstance(k, tuple) else (k,)))))
        g.method = True
        c.ns['__getitem__'] = g
        P.made.append(o)
        return o
    I.load(mod).ns['defaultdict'] = Native(dd)
    return P
