"""Contract groups: every group symbolically executes real functions and emits named obligations."""
import os
import subprocess
import time
from . import terms as T
from .terms import Poly, B, lift, ite, band, bor, bnot
from .interp import *
from .interp import MISSING
from .prove import Solver
from .npmodel import ssum

GROUPS = []


def vc(name, fn='', limit=120, tiers=('quick', 'thorough')):
    def deco(f):
        GROUPS.append((name, fn, limit, tiers, f))
        return f
    return deco


class G:
    """what a contract sees"""

    def __init__(self, name, fn, root, tier, seed):
        self.name, self.fn, self.root, self.tier, self.seed = name, fn, root, tier, seed
        self.S = Solver()
        self.obl = []
        self.assumptions = []
        self.vacuity = []
        self.bounded = []
        self.extra = []
        self.I = Interp(root, self.S)
        self.interps = [self.I]

    def fresh_interp(self):
        self.I = Interp(self.root, self.S)
        self.interps.append(self.I)
        return self.I

    def fnc(self, mod, name):
        return self.I.get(mod, name)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # precondition
    def pre(self, *bs):
        self.I.pc = self.I.pc + [b for b in bs]
        ok = self.S.sat(self.I.pc)
        self.vacuity.append('%s: precondition %s' % (self.name, 'satisfiable' if ok else 'not shown satisfiable'))
        if not ok:
            self.add('precondition is satisfiable', 'undecided', 'z3', 0., 'not shown satisfiable')

    def add(self, what, status, backend='', t=0., detail=''):
        if status == 'refuted' and self.I.cut_used:         # found in a state that the program may not have
            status, detail = 'undecided', 'with an arbitrary quotient: %s' % detail
        self.obl.append(dict(name='%s: %s' % (self.name, what), function=self.fn, status=status, backend=backend,
                             time=round(t, 3), detail=str(detail)[:9000]))

    def run(self, thunk):
        """every path of thunk, with its state in place: yields (path condition, kind, value)"""
        I = self.I
        mark = len(I.log)
        paths, single = I.enum(thunk)
        for conds, kind, val, delta in paths:
            pc = I.pc + [c if d else bnot(c) for c, d in conds]
            if self.S.unsat(pc):
                continue
            if not single:
                for k, v in delta.items():
                    I.apply(v, v[4])
            old = I.pc
            I.pc = pc
            try:
                yield pc, kind, val
            finally:
                I.pc = old
                if not single:
                    I.rollback(mark)

    def call(self, f, *args, **kw):
        """the single normal result of a call"""
        I = self.I
        paths, single = I.enum(lambda: I.call(f, list(args), kw))
        if not single:
            paths = [p for p in paths if not self.S.unsat(I.pc + [c if d else bnot(c) for c, d in p[0]])]
            if len(paths) != 1:
                raise Unsupported('%d paths, one expected: %s' % (len(paths), [p[1:3] for p in paths][:4]))
            for k, v in paths[0][3].items():
                I.apply(v, v[4])
        if paths[0][1] == 'exc':
            raise PathExc(paths[0][2])
        return paths[0][2]

    def do(self, thunk):
        """the single normal result of a thunk run in a path scope"""
        I = self.I
        paths, single = I.enum(thunk)
        if not single:
            paths = [p for p in paths if not self.S.unsat(I.pc + [c if d else bnot(c) for c, d in p[0]])]
            if len(paths) != 1:
                raise Unsupported('%d paths, one expected: %s' % (len(paths), [p[1:3] for p in paths][:4]))
            for k, v in paths[0][3].items():
                I.apply(v, v[4])
        if paths[0][1] == 'exc':
            raise PathExc(paths[0][2])
        return paths[0][2]

    # obligations
    def zero(self, what, p, *more, depth=6, tlimit=25.):
        t = time.time()
        pc = self.I.pc + list(more)
        st, be, d = self.S.zero(p, pc, depth, tlimit)
        self.add(what, st, be, time.time() - t, d)
        return st == 'discharged'

    def eq(self, what, a, b, *more, **kw):
        return self.zero(what, lift(a) - lift(b), *more, **kw)

    def true(self, what, b, *more, tlimit=20):
        """b holds under the precondition (integer reasoning, z3)"""
        t = time.time()
        pc = self.I.pc + list(more)
        b = tob(b) if not isinstance(b, B) else b
        old, self.S.timeout = self.S.timeout, 8000
        try:
            ok = self.S.implied(pc, b)
        finally:
            self.S.timeout = old
        if ok:
            self.add(what, 'discharged', 'z3', time.time() - t)
            return True
        st, be, d = self.S.zero(lift(1) - b.poly(), pc, 6, tlimit)
        self.add(what, st, be, time.time() - t, d)
        return st == 'discharged'

    def same(self, what, ok, detail=''):
        """a structural fact that was computed exactly (shape, identity, class of an exception)"""
        self.add(what, 'discharged' if ok else 'undecided', 'structural', 0., detail)
        return ok

    def shape(self, what, a, shape):
        ok = isinstance(a, Arr) and len(a.shape) == len(shape) and all(self.I.same_dim(x, y) for x, y in zip(a.shape, shape))
        if not ok and isinstance(a, Arr) and len(a.shape) == len(shape):
            return all([self.true('%s: extent %d' % (what, k), T.cmp_eq(lift(x), lift(y))) for k, (x, y) in enumerate(zip(a.shape, shape))
                        if not self.I.same_dim(x, y)])
        return self.same(what, ok, '' if ok else 'shape %r' % (getattr(a, 'shape', None),))

    def array(self, what, a, shape, spec, *more, **kw):
        """a has the shape and spec(idx) is each of its elements"""
        if not self.shape(what + ' [shape]', a, shape):
            return False
        js = [T.fresh('x') for _ in shape]
        v = a.get(*js)
        return self.eq(what, v, spec(*js), in_range(js, shape), *more, **kw)

    def unchanged(self, what, a, name):
        """array argument made by sym(name, ...) still holds its initial content"""
        js = [T.fresh('x') for _ in a.shape]
        srt = {'U': 'I', 'B': 'I'}.get(a.dtype, a.dtype)
        return self.eq(what, a.get(*js), T.app(name, *js, sort=srt), in_range(js, a.shape))


def positive(g, *names):
    """integer-valued symbols name(k, ...) are at least one"""
    from . import prove
    prove.POSINT.update(names)
    g.S.facts.append(lambda a: [T.cmp_le(1, Poly.atom(a))] if a.kind == 'App' and a.args[0] in names else [])


def sector_k(g, k, pre=''):
    """sector number k of an eigen-space: dup(k) x dwn(k) product basis, nev(k) eigenpairs"""
    du, dd, nev = [T.app(pre + x, k, sort='I') for x in ('dup', 'dwn', 'nev')]
    A = lambda name, shape, dt='R': new(shape, lambda *i: T.app(pre + name, k, *i, sort='I' if dt == 'U' else 'R'), dt)
    st = g.I.call(g.I.get('edpyt.espace', 'SzStates'), [A('up', (du,), 'U'), A('dw', (dd,), 'U')])
    return g.I.call(g.I.get('edpyt.espace', 'Sector'), [st, du * dd, A('E', (nev,)), A('vec', (du * dd, nev))])


def sym_espace(g, n, pre='', mk=sector_k):
    """eigen-space with a symbolic number n of sectors, iterated in order"""
    g.I.get('edpyt.espace', 'SzStates')
    positive(g, pre + 'dup', pre + 'dwn', pre + 'nev')
    cls = Cls('dict')
    key = lambda k: (T.app(pre + 'qup', k, sort='I'), T.app(pre + 'qdw', k, sort='I'))
    o = Obj(cls)
    vals = SList(n, lambda k: mk(g, k, pre))
    o.attrs['values'] = Native(lambda I: vals)
    o.attrs['keys'] = Native(lambda I: SList(n, key))
    o.attrs['items'] = Native(lambda I: SList(n, lambda k: (key(k), mk(g, k, pre))))
    cls.ns['__len__'] = Native(lambda I, s: n)
    return o


LEMMAS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas')


def nolimit():
    import resource
    for r in (resource.RLIMIT_AS, resource.RLIMIT_DATA):
        try:
            resource.setrlimit(r, (resource.getrlimit(r)[1],) * 2)
        except (ValueError, OSError):
            pass


def lean(g, file, theorems):
    """theorems of a Lean file, checked by Lean itself on this run: {theorem: what it says}"""
    t0 = time.time()
    f = os.path.join(LEMMAS, file)
    try:
        src = open(f).read()
        r = subprocess.run(['lean', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=150, cwd='/tmp', preexec_fn=nolimit)
        ok = r.returncode == 0 and 'error' not in r.stdout and 'sorry' not in r.stdout and 'sorry' not in src and 'axiom' not in src
        out = r.stdout[-500:]
    except Exception as e:
        ok, out, src = False, str(e), ''
    for nm, what in theorems.items():
        g.add('%s (theorem %s)' % (what, nm), 'discharged' if ok and 'theorem ' + nm in src else 'undecided', 'Lean 4 + Mathlib', time.time() - t0, out)


class PathExc(Exception):
    pass
