"""Matrices in compressed-row form that the code fills with a running cursor.

A Tape is the ghost state of one such matrix: records (value, column) appended one by one, rows closed by writing the next
row pointer.  Writing is accepted only at the cursor; the ghost state then gives, for test functions w and v that nothing
is assumed about,

    rowacc(r) = sum over the records of row r of  value * w(column)        rowcnt(r) = sum over them of v(column)

and the number of records, which determine the stored matrix.  The arrays themselves are never summarised.
"""
from . import terms as T
from .terms import lift, Poly
from .interp import *
from .interp import MISSING


class Ghost(NDict):
    ghost = True

    def __init__(self, **kw):
        NDict.__init__(self, kw)


class Tape:
    def __init__(self, I, rows, cols, nnz=None, w='w', v='v', ptr0=True):
        self.I, self.rows, self.cols, self.nnz, self.w, self.v = I, rows, cols, nnz, w, v
        self.G = Ghost(g=T.ZERO, rows=T.ZERO, mark=T.ZERO, acc=T.ZERO, cnt=T.ZERO, p=None)
        self.G.tape = self
        self.rowacc = new((rows,), lambda r: T.ZERO, 'R')
        self.rowcnt = new((rows,), lambda r: T.ZERO, 'R')
        self.roles = {}
        self.overflow = []
        I.set(I.ghosts, id(self.G), self.G)

    # ---- handles
    def arr(self, field):
        n = {'x': self.nnz, 'c': self.nnz, 'ptr': lift(self.rows) + 1}[field]
        a = new((n,), lambda *j: (_ for _ in ()).throw(Unsupported('read of a matrix under construction')), 'R' if field == 'x' else 'I')
        a.attrs['tape'] = (self, field)
        return a

    def need(self, a, b, why):
        d = lift(a) - lift(b)
        if not (d.is_zero() or self.I.solver.implied(self.I.pc, T.cmp_eq(d, 0))):
            raise TapeMiss('tape: ' + why)

    def setg(self, k, v):
        self.I.set(self.G, k, v)

    # ---- protocol
    def write(self, field, k, v):
        I, G = self.I, self.G
        if field == 'ptr':
            k = lift(I.num(k))
            if k.is_zero():
                self.need(G['rows'], 0, 'first row pointer')
                return self.need(I.num(v), 0, 'first row pointer')
            self.need(k, G['rows'] + 1, 'row pointers in order')
            return self.close(I.num(v))
        self.need(I.num(k), G['g'], 'write at the cursor')
        if self.nnz is not None:
            self.overflow.append((list(I.pc), T.cmp_lt(G['g'], self.nnz)))
        self.put(field, v)

    def put(self, field, v, append=False):
        I, G = self.I, self.G
        p = dict(G['p'] or ())
        if append and field in p:
            raise Unsupported('tape: two values appended for one record')
        p[field] = lift(I.num(v))
        if len(p) < 2:
            return self.setg('p', tuple(p.items()))
        self.setg('p', None)
        x, c = p['x'], p['c']
        self.overflow.append((list(I.pc), T.band(T.cmp_le(0, c), T.cmp_lt(c, self.cols)), 'col'))
        self.setg('acc', G['acc'] + x * T.app(self.w, c))
        self.setg('cnt', G['cnt'] + T.app(self.v, c))
        self.setg('g', G['g'] + 1)

    def close(self, v):
        I, G = self.I, self.G
        if G['p'] is not None:
            raise Unsupported('tape: row closed inside a record')
        self.need(v, G['g'], 'row pointer is the number of records')
        r = G['rows']
        for arr, key in ((self.rowacc, 'acc'), (self.rowcnt, 'cnt')):
            old, val = arr.buf.fn, G[key]
            I.setbuf(arr.buf, memo(lambda j, old=old, val=val: ite(T.cmp_eq(j, r), val, old(j))))
        self.setg('acc', T.ZERO)
        self.setg('cnt', T.ZERO)
        self.setg('mark', G['g'])
        self.setg('rows', r + 1)

    def read(self, field, k):
        I, G = self.I, self.G
        if field != 'ptr':
            raise Unsupported('tape: read of a record')
        self.need(I.num(k), G['rows'], 'only the last row pointer is read')
        return G['mark']

    def getitem(self, a, field, k):
        if isinstance(k, slice):
            if k.start is None and k.step is None and k.stop is not None and field != 'ptr':
                self.need(self.I.num(k.stop), self.G['g'], 'cut at the cursor')
                r = new((self.I.num(k.stop),), a.buf.fn, a.dtype)
                r.attrs['tape'] = (self, field)
                return r
            raise Unsupported('slice of a matrix under construction')
        return self.read(field, k)


class TList:
    """python list of a Tape: role '0', '1' (records) or 'ptr'"""

    def __init__(self, tape, field):
        self.tape, self.field = tape, field

    def append(self, I, v):
        if self.field == 'ptr':
            return self.tape.close(I.num(v))
        self.tape.put(self.field, v, True)


def list_hook(I, fname, rows, cols, order='xc', **kw):
    """the lists [], [], [0] that function fname starts with are the arrays of one Tape"""
    t = Tape(I, rows, cols, None, **kw)
    t.order = []

    def hook(q, val):
        if q.split('.')[-1] != fname or not isinstance(val, list):
            return None
        if val == []:
            if len(t.order) >= 2:
                raise Unsupported('tape: a third list')
            f = order[len(t.order)]
            t.order.append(f)
            return TList(t, f)
        if len(val) == 1 and isnum(val[0]) and lift(val[0]).is_zero():
            return TList(t, 'ptr')
        return None
    I.list_hook = hook
    return t


def fold_rows(p, ip, ix, x, byx, byc):
    """rewrite sums over one row of a stored matrix (row pointers ip, columns ix, values x) by that matrix's contract:
    sum x(p) F(ix(p)) = byx(row, F)   and   sum F(ix(p)) = byc(row, F)"""
    p = lift(p)
    out = T.ZERO
    for m, c in p.t.items():
        q = lift(c)
        for a, e in m:
            if a.kind == 'Sum' and e == 1 and any(ip in atom_fns(b) or ix in atom_fns(b) for b, _ in a.args[1]):
                q = q * _fold_sum(a, ip, ix, x, byx, byc)
            else:
                q = q * (Poly.atom(a) ** e if e > 0 else T.inv(Poly.atom(a)) ** -e)
        out = out + q
    return out


def _fold_sum(a, ip, ix, x, byx, byc):
    n, gm = a.args
    bs = T.bvars(a)
    ren = {b: T.fresh('k') for b in bs}
    fac = [(T.subst_atom(f, ren), e) for f, e in gm]
    vs = [T.the_var(ren[b]) for b in bs]
    # the binder that runs over a row
    for v in vs:
        rows = []
        rest = []
        for f, e in fac:
            (mm, cc), = f.t.items() if len(f.t) == 1 else ((None, None),)
            at = mm[0][0] if mm and len(mm) == 1 else None
            if at is not None and at.kind == 'Iv' and v in at.vars() and ip in atom_fns(at):
                rows.append(at)
            else:
                rest.append((f, e))
        if len(rows) != 2:
            continue
        vp = Poly.atom(v)
        lo = hi = None
        for at in rows:
            if at.args[0] != 'le':
                continue
            q = at.args[1]
            if (q + vp).vars().isdisjoint({v}):
                lo = q + vp             # lo <= v
            elif (q - vp).vars().isdisjoint({v}):
                hi = -(q - vp) + 1      # v < hi
        r = _app(lo, ip) if lo is not None else None
        if r is None or hi is None or hi != T.app(ip, r + 1, sort='I'):
            continue
        # v may occur as x(v) once and ix(v)
        xs, fs = [], []
        z = T.fresh('z')
        for f, e in rest:
            if f == T.app(x, vp) and e == 1:
                xs.append(f)
                continue
            g = _replace(f, T.app(ix, vp, sort='I'), z)
            if v in g.vars():
                return _keep(a)
            fs.append((g, e))
        if len(xs) > 1:
            return _keep(a)
        zv = T.the_var(z)
        body = T.ONE
        for g, e in fs:
            body = body * (g ** e if e > 0 else T.inv(g) ** -e)
        F = lambda j: T.subst(body, {zv: lift(j)})
        res = (byx if xs else byc)(r, F)
        for u in vs:
            if u is not v:
                res = T.mk_sum_raw(u, res)
        return fold_rows(res, ip, ix, x, byx, byc)
    return _keep(a)


def _keep(a):
    return Poly.atom(a)


def _app(p, name):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'App' and m[0][0].args[0] == name:
            return m[0][0].args[1]
    return None


def _replace(p, old, new_):
    return _rep(p, next(iter(old.atoms())), new_)


def _rep(p, atom, new_):
    def at(a):
        if a is atom:
            return new_
        if a.kind == 'Var' or atom not in _sub(a):
            return Poly.atom(a)
        if a.kind == 'App':
            return T.app(a.args[0], *[_rep(lift(x), atom, new_) for x in a.args[1:]], sort=a.sort)
        if a.kind == 'Iv':
            return T.mk_iv(a.args[0], _rep(a.args[1], atom, new_)).poly()
        if a.kind == 'Inv':
            return T.inv(_rep(a.args[0], atom, new_))
        if a.kind == 'Div':
            return T.floordiv(_rep(a.args[0], atom, new_), _rep(a.args[1], atom, new_))
        if a.kind == 'Sum':
            nb, m = a.args
            fr = [T.fresh('s') for _ in range(nb)]
            body = _rep(T.subst(Poly({m: 1}, a.sort), dict(zip(T.bvars(a), fr))), atom, new_)
            for f in fr:
                body = T.mk_sum_raw(T.the_var(f), body)
            return body
        raise Unsupported('rewriting inside ' + a.kind)
    out = T.ZERO
    for m, c in p.t.items():
        q = lift(c)
        for a, e in m:
            b = at(a)
            q = q * (b ** e if e > 0 else T.inv(b) ** -e)
        out = out + q
    return out


def _sub(a):
    out = set()

    def walk(b):
        out.add(b)
        for x in b.args:
            if isinstance(x, Poly):
                for y in x.atoms():
                    walk(y)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple) and hasattr(y[0], 'kind'):
                        walk(y[0])
    walk(a)
    return out
