"""Bit-precise execution of small integer functions: symbolic machine words, concrete control where positions are concrete.

Two machine models: 'numpy' (uint32 op uint32 wraps at 32 bits, uint32 op int gives int64) and 'numba' (integer
arithmetic on uint32 is carried out on 64 bits; results are cut back to the declared type on return or store)."""
import ast, os, re
import z3


class BVUnsupported(Exception):
    pass


class BVExc(Exception):
    def __init__(self, cls):
        self.cls = cls


class U:
    """machine word"""

    def __init__(self, e, w, signed):
        self.e, self.w, self.signed = e, w, signed

    def to(self, w, signed=None):
        if w == self.w:
            return self.e
        if w < self.w:
            return z3.Extract(w - 1, 0, self.e)
        return z3.SignExt(w - self.w, self.e) if self.signed else z3.ZeroExt(w - self.w, self.e)


class Fn:
    def __init__(self, node, mod):
        self.node, self.mod = node, mod


class Nat:
    def __init__(self, f):
        self.f = f


class Cast:
    def __init__(self, w, signed):
        self.w, self.signed = w, signed


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cnt(Exception):
    pass


CASTS = {'uint32': Cast(32, False), 'uint64': Cast(64, False), 'int64': Cast(64, True), 'int32': Cast(32, True), 'int': Cast(64, True),
         'intp': Cast(64, True), 'int_': Cast(64, True), 'uint8': Cast(8, False)}


class ArrV:
    """symbolic 1-d array of uint32 with symbolic size"""

    def __init__(self, size, read, write=None):
        self.size, self.read, self.write = size, read, write


class BVExec:
    def __init__(self, root, mode='numpy'):
        self.root, self.mode = root, mode
        self.mods = {}
        self.seen = set()
        self.solver = z3.Solver()
        self.pc = []
        self.dec = None
        self.loop_hook = None

    # ------------------------------------------------------------ modules
    def mod(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.root, *name.split('.')) + '.py'
        if not os.path.exists(p):
            raise BVUnsupported('module ' + name)
        m = {'__name__': name}
        self.mods[name] = m
        for s in ast.parse(open(p).read()).body:
            if isinstance(s, ast.FunctionDef):
                m[s.name] = Fn(s, m)
            elif isinstance(s, ast.ImportFrom) and s.module and s.module.startswith('edpyt'):
                try:
                    sub = self.mod(s.module)
                    for a in s.names:
                        if a.name in sub:
                            m[a.asname or a.name] = sub[a.name]
                except BVUnsupported:
                    pass
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name == 'numpy':
                        m[a.asname or 'numpy'] = 'numpy'
            elif isinstance(s, ast.Assign):
                try:
                    v = self.ev(s.value, {}, m)
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m[t.id] = v
                except (BVUnsupported, KeyError, BVExc):
                    pass
        return m

    # ------------------------------------------------------------ paths
    def paths(self, thunk):
        """every feasible path: (condition, kind, value)"""
        todo = [[]]
        out = []
        while todo:
            pre = todo.pop()
            self.dec, self.pos, self.pc2 = list(pre), 0, []
            self.fork = todo
            try:
                v = thunk()
                out.append((list(self.pc2), 'ok', v))
            except BVExc as e:
                out.append((list(self.pc2), 'exc', e.cls))
            except _Infeasible:
                pass
            if len(out) > 400:
                raise BVUnsupported('too many paths')
        return out

    def feasible(self, extra):
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*self.pc, *self.pc2, extra)
        return s.check() != z3.unsat

    def truth(self, v):
        if isinstance(v, (bool, int)):
            return bool(v)
        if isinstance(v, U):
            v = v.e != 0
        if v is None:
            return False
        if z3.is_expr(v):
            v = z3.simplify(v)
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            if self.pos < len(self.dec):
                d = self.dec[self.pos]
            else:
                t, f = self.feasible(v), self.feasible(z3.Not(v))
                if not t and not f:
                    raise _Infeasible()
                d = t
                if t and f:
                    self.fork.append(self.dec + [False])
                self.dec.append(d)
            self.pos += 1
            self.pc2.append(v if d else z3.Not(v))
            return d
        raise BVUnsupported('truth of %r' % (v,))

    # ------------------------------------------------------------ calls
    def call(self, f, *args):
        if isinstance(f, Cast):
            return self.cast(args[0], f.w, f.signed)
        if isinstance(f, Nat):
            return f.f(*args)
        if not isinstance(f, Fn):
            raise BVUnsupported('call of %r' % (f,))
        self.seen.add(f.mod['__name__'].split('.')[-1] + '.' + f.node.name)
        names = [a.arg for a in f.node.args.args]
        loc = dict(zip(names, args))
        for a, d in zip(names[len(names) - len(f.node.args.defaults):], f.node.args.defaults):
            if a not in loc:
                loc[a] = self.ev(d, {}, f.mod)
        if self.mode == 'numba':
            sig = self.sigs(f)
            if sig:
                for n, t in zip(names, sig[1]):
                    if t in CASTS and n in loc and not isinstance(loc[n], ArrV):
                        loc[n] = self.cast(loc[n], CASTS[t].w, CASTS[t].signed) if not isinstance(loc[n], int) else loc[n]
        try:
            self.block(f.node.body, loc, f.mod)
            r = None
        except _Ret as e:
            r = e.v
        if self.mode == 'numba':
            sig = self.sigs(f)
            if sig and sig[0] in CASTS and (isinstance(r, U) or z3.is_expr(r)):
                r = self.cast(r, CASTS[sig[0]].w, CASTS[sig[0]].signed)
            elif sig and isinstance(sig[0], tuple) and isinstance(r, tuple) and len(r) == len(sig[0]):
                r = tuple(self.cast(x, CASTS[t].w, CASTS[t].signed) if isinstance(x, U) and t in CASTS else x for x, t in zip(r, sig[0]))
        return r

    def sigs(self, f):
        """(return type, argument types) of the first string signature of njit"""
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call):
                for c in ast.walk(d):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str) and '(' in c.value:
                        s = c.value.replace(' ', '')
                        m = re.match(r'Tuple\(\(([^)]*)\)\)\(([^)]*)\)$', s)
                        if m:
                            return tuple(m.group(1).split(',')), m.group(2).split(',')
                        m = re.match(r'(\w+)\(([^()]*)\)$', s)
                        if m:
                            return m.group(1), m.group(2).split(',')
        return None

    def cast(self, v, w, signed):
        if isinstance(v, bool) or isinstance(v, int):
            if self.mode == 'numpy' or True:
                return U(z3.BitVecVal(int(v), w), w, signed)
        if z3.is_bool(v):
            return U(z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), w, signed)
        if isinstance(v, U):
            return U(v.to(w), w, signed)
        if isinstance(v, tuple) and v and v[0] == 'div':
            return self.cast(v[1], w, signed)
        raise BVUnsupported('cast of %r' % (v,))

    # ------------------------------------------------------------ statements
    def block(self, body, loc, mod):
        for s in body:
            self.stmt(s, loc, mod)

    def stmt(self, s, loc, mod):
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, loc, mod)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, loc, mod)
            for t in s.targets:
                self.assign(t, v, loc, mod)
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(ast.copy_location(_load(s.target), s), loc, mod)
            self.assign(s.target, self.binop(s.op, cur, self.ev(s.value, loc, mod)), loc, mod)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, loc, mod), loc, mod)
        elif isinstance(s, ast.Return):
            raise _Ret(self.ev(s.value, loc, mod) if s.value is not None else None)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, loc, mod)) else s.orelse, loc, mod)
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, loc, mod)):
                raise BVExc('AssertionError')
        elif isinstance(s, ast.Raise):
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            raise BVExc(e.id if isinstance(e, ast.Name) else 'Exception')
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
            pass
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, loc, mod)
            if isinstance(it, tuple) and it and it[0] == 'symrange':
                if self.loop_hook is None:
                    raise BVUnsupported('symbolic range')
                self.loop_hook(self, s, it, loc, mod)
                return
            for x in it:
                self.assign(s.target, x, loc, mod)
                try:
                    self.block(s.body, loc, mod)
                except _Brk:
                    break
                except _Cnt:
                    continue
            else:
                self.block(s.orelse, loc, mod)
        elif isinstance(s, ast.While):
            n = 0
            while self.truth(self.ev(s.test, loc, mod)):
                n += 1
                if n > 80:
                    raise BVUnsupported('while loop')
                try:
                    self.block(s.body, loc, mod)
                except _Brk:
                    break
                except _Cnt:
                    continue
        elif isinstance(s, ast.Break):
            raise _Brk()
        elif isinstance(s, ast.Continue):
            raise _Cnt()
        else:
            raise BVUnsupported(type(s).__name__)

    def assign(self, t, v, loc, mod):
        if isinstance(t, ast.Name):
            loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = list(v)
            if len(v) != len(t.elts):
                raise BVUnsupported('unpacking')
            for a, b in zip(t.elts, v):
                self.assign(a, b, loc, mod)
        elif isinstance(t, ast.Subscript):
            a, k = self.ev(t.value, loc, mod), self.ev(t.slice, loc, mod)
            if isinstance(a, ArrV) and a.write:
                a.write(k, self.cast(v, 32, False))
            elif isinstance(a, list) and isinstance(k, int):
                a[k] = v
            else:
                raise BVUnsupported('store')
        else:
            raise BVUnsupported('target')

    # ------------------------------------------------------------ expressions
    def ev(self, e, loc, mod):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise BVUnsupported(type(e).__name__)
        return m(e, loc, mod)

    def e_Constant(self, e, loc, mod):
        return e.value

    def e_Name(self, e, loc, mod):
        if e.id in loc:
            return loc[e.id]
        if e.id in mod:
            return mod[e.id]
        b = {'range': Nat(self.range), 'prange': Nat(self.range), 'sorted': Nat(self.sorted), 'int': Nat(lambda v: v if isinstance(v, (int, U)) else self.cast(v, 64, True)),
             'bool': Nat(lambda v: self.tob(v)), 'min': Nat(lambda *a: self.mm(a, True)), 'max': Nat(lambda *a: self.mm(a, False)),
             'abs': Nat(self.abs_), 'len': Nat(len), 'sum': Nat(self.sum_), 'reversed': Nat(lambda x: list(x)[::-1]), 'enumerate': Nat(lambda x: list(enumerate(x)))}
        if e.id in b:
            return b[e.id]
        if e.id in ('AssertionError', 'ValueError'):
            return e.id
        raise BVUnsupported('name ' + e.id)

    def e_Attribute(self, e, loc, mod):
        v = self.ev(e.value, loc, mod)
        if v == 'numpy':
            if e.attr in CASTS:
                return CASTS[e.attr]
            if e.attr in ('bitwise_and', 'bitwise_xor', 'bitwise_or', 'left_shift', 'right_shift'):
                op = {'bitwise_and': ast.BitAnd, 'bitwise_xor': ast.BitXor, 'bitwise_or': ast.BitOr, 'left_shift': ast.LShift, 'right_shift': ast.RShift}[e.attr]
                return Nat(lambda a, b: self.binop(op(), a, b))
            raise BVUnsupported('np.' + e.attr)
        if isinstance(v, ArrV) and e.attr == 'size':
            return v.size
        if isinstance(v, ArrV) and e.attr == 'shape':
            return (v.size,)
        raise BVUnsupported('attribute ' + e.attr)

    def e_Tuple(self, e, loc, mod):
        return tuple(self.ev(x, loc, mod) for x in e.elts)

    def e_List(self, e, loc, mod):
        return [self.ev(x, loc, mod) for x in e.elts]

    def e_Subscript(self, e, loc, mod):
        a, k = self.ev(e.value, loc, mod), self.ev(e.slice, loc, mod)
        if isinstance(a, ArrV):
            return a.read(k)
        if isinstance(a, (tuple, list)) and isinstance(k, int):
            return a[k]
        raise BVUnsupported('subscript')

    def e_Call(self, e, loc, mod):
        f = self.ev(e.func, loc, mod)
        if e.keywords:
            raise BVUnsupported('keywords')
        return self.call(f, *[self.ev(x, loc, mod) for x in e.args])

    def e_IfExp(self, e, loc, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, loc, mod)) else e.orelse, loc, mod)

    def e_GeneratorExp(self, e, loc, mod):
        return self.e_ListComp(e, loc, mod)

    def e_ListComp(self, e, loc, mod):
        if len(e.generators) != 1:
            raise BVUnsupported('comprehension')
        g = e.generators[0]
        out = []
        l2 = dict(loc)
        for x in self.ev(g.iter, loc, mod):
            self.assign(g.target, x, l2, mod)
            if all(self.truth(self.ev(c, l2, mod)) for c in g.ifs):
                out.append(self.ev(e.elt, l2, mod))
        return out

    def e_BoolOp(self, e, loc, mod):
        v = None
        for x in e.values:
            v = self.ev(x, loc, mod)
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v
        return v

    def tob(self, v):
        if isinstance(v, U):
            return v.e != 0
        if isinstance(v, int):
            return bool(v)
        return v

    def e_UnaryOp(self, e, loc, mod):
        v = self.ev(e.operand, loc, mod)
        if isinstance(e.op, ast.Not):
            if isinstance(v, U):
                return v.e == 0
            if z3.is_expr(v):
                return z3.Not(v)
            return not v
        if isinstance(v, bool) or z3.is_bool(v):
            v = self.cast(v, 64, True)
        if isinstance(v, int):
            return -v if isinstance(e.op, ast.USub) else ~v if isinstance(e.op, ast.Invert) else v
        if isinstance(v, U):
            if self.mode == 'numba' and v.w < 64:
                v = U(v.to(64), 64, v.signed)
            if isinstance(e.op, ast.USub):
                return U(-v.e, v.w, v.signed)
            if isinstance(e.op, ast.Invert):
                return U(~v.e, v.w, v.signed)
            return v
        raise BVUnsupported('unary')

    def e_Compare(self, e, loc, mod):
        l = self.ev(e.left, loc, mod)
        out = []
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, loc, mod)
            out.append(self.cmp(op, l, r))
            l = r
        if all(isinstance(x, bool) for x in out):
            return all(out)
        out = [x for x in out if x is not True]
        if any(x is False for x in out):
            return False
        return out[0] if len(out) == 1 else z3.And(*out)

    def cmp(self, op, l, r):
        t = type(op).__name__
        if not isinstance(l, U) and not isinstance(r, U) and not z3.is_expr(l) and not z3.is_expr(r):
            return {'Lt': lambda: l < r, 'LtE': lambda: l <= r, 'Gt': lambda: l > r, 'GtE': lambda: l >= r, 'Eq': lambda: l == r,
                    'NotEq': lambda: l != r, 'Is': lambda: l is r, 'IsNot': lambda: l is not r, 'In': lambda: l in r, 'NotIn': lambda: l not in r}[t]()
        # exact comparison of the two mathematical values, on 66 bits
        a, b = self.wide(l), self.wide(r)
        return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b, 'Eq': lambda: a == b, 'NotEq': lambda: a != b}[t]()

    def wide(self, v):
        if isinstance(v, (bool, int)):
            return z3.BitVecVal(int(v), 66)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, 66), z3.BitVecVal(0, 66))
        return v.to(66)

    def e_BinOp(self, e, loc, mod):
        return self.binop(e.op, self.ev(e.left, loc, mod), self.ev(e.right, loc, mod))

    def binop(self, op, l, r):
        t = type(op).__name__
        if z3.is_bool(l):
            l = self.cast(l, 64, True)
        if z3.is_bool(r):
            r = self.cast(r, 64, True)
        if isinstance(l, (bool, int)) and isinstance(r, (bool, int)):
            return {'Add': lambda: l + r, 'Sub': lambda: l - r, 'Mult': lambda: l * r, 'FloorDiv': lambda: l // r, 'Mod': lambda: l % r, 'LShift': lambda: l << r,
                    'RShift': lambda: l >> r, 'BitAnd': lambda: l & r, 'BitOr': lambda: l | r, 'BitXor': lambda: l ^ r, 'Pow': lambda: l ** r}[t]()
        if t == 'Pow' and isinstance(l, int) and l == -1 and isinstance(r, U):
            b = z3.Extract(0, 0, r.e)
            return U(z3.If(b == 1, z3.BitVecVal(-1, 64), z3.BitVecVal(1, 64)), 64, True)
        if not isinstance(l, (U, int)) or not isinstance(r, (U, int)):
            raise BVUnsupported('operands of %s' % t)
        # result type
        if isinstance(l, U) and isinstance(r, U):
            if self.mode == 'numpy':
                if l.signed == r.signed:
                    w, sg = max(l.w, r.w), l.signed
                else:
                    u, s = (l, r) if not l.signed else (r, l)
                    w, sg = (64, True) if u.w < 64 else (64, False)
            else:
                w, sg = 64, (l.signed or r.signed)
        else:
            x = l if isinstance(l, U) else r
            k = r if isinstance(l, U) else l
            if x.w == 64 and not x.signed and k < 0:
                raise BVUnsupported('uint64 with a negative integer')
            w, sg = 64, True if (x.signed or x.w < 64) else False
        a = l.to(w) if isinstance(l, U) else z3.BitVecVal(l, w)
        b = r.to(w) if isinstance(r, U) else z3.BitVecVal(r, w)
        if t in ('LShift', 'RShift') and not isinstance(r, U) and not (0 <= r < w):
            raise BVUnsupported('shift out of range')
        if t == 'Add':
            e = a + b
        elif t == 'Sub':
            e = a - b
        elif t == 'Mult':
            e = a * b
        elif t == 'BitAnd':
            e = a & b
        elif t == 'BitOr':
            e = a | b
        elif t == 'BitXor':
            e = a ^ b
        elif t == 'LShift':
            e = a << b
        elif t == 'RShift':
            e = (a >> b) if sg else z3.LShR(a, b)
        elif t in ('FloorDiv', 'Mod') and isinstance(r, int) and r > 0 and r & (r - 1) == 0:
            k = r.bit_length() - 1
            e = ((a >> k) if sg else z3.LShR(a, k)) if t == 'FloorDiv' else a & z3.BitVecVal(r - 1, w)
        elif t in ('FloorDiv', 'Mod') and not sg:
            e = z3.UDiv(a, b) if t == 'FloorDiv' else z3.URem(a, b)
        elif t in ('FloorDiv', 'Mod'):
            # signed operands: only when both are known to be non-negative
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*self.pc, *self.pc2, z3.Or(a < 0, b <= 0))
            if s.check() != z3.unsat:
                raise BVUnsupported('signed division')
            e = z3.UDiv(a, b) if t == 'FloorDiv' else z3.URem(a, b)
        elif t == 'Div':
            # true division: only the exact quotient of unsigned words is modelled (as a pending value that a cast consumes)
            # exactness and the 53-bit bound are checked by the caller through self.div_obl
            if isinstance(l, U) and isinstance(r, U):
                q = z3.UDiv(a, b)
                self.div_obl.append((list(self.pc2), z3.And(z3.URem(a, b) == 0, b != 0)))
                if w > 32:
                    self.div_obl.append((list(self.pc2), z3.ULT(a, z3.BitVecVal(1 << 53, w))))
                return ('div', U(q, w, False))
            raise BVUnsupported('true division')
        else:
            raise BVUnsupported(t)
        return U(e, w, sg)

    div_obl = []

    # ------------------------------------------------------------ builtins
    def range(self, *a):
        if all(isinstance(x, int) for x in a):
            return list(range(*a))
        return ('symrange',) + a

    def sorted(self, x):
        x = list(x)
        if all(isinstance(y, int) for y in x):
            return sorted(x)
        raise BVUnsupported('sorted')

    def mm(self, a, mn):
        if len(a) == 1:
            a = tuple(a[0])
        if all(isinstance(y, int) for y in a):
            return min(a) if mn else max(a)
        raise BVUnsupported('min/max')

    def abs_(self, v):
        if isinstance(v, int):
            return abs(v)
        raise BVUnsupported('abs')

    def sum_(self, x, s=0):
        for y in x:
            s = self.binop(ast.Add(), s, y)
        return s


class _Infeasible(Exception):
    pass


def _load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


def valid(claim, assume=(), timeout=20000):
    """-> 'discharged' | 'refuted' | 'undecided', model text"""
    s = z3.SolverFor('QF_BV')
    s.set('timeout', timeout)
    s.add(*assume)
    s.add(z3.Not(claim))
    r = s.check()
    if r == z3.unsat:
        return 'discharged', ''
    if r == z3.sat:
        return 'refuted', str(s.model())
    return 'undecided', 'timeout'


def popcount(e, w=32, out=8):
    r = z3.BitVecVal(0, out)
    for k in range(w):
        r = r + z3.ZeroExt(out - 1, z3.Extract(k, k, e))
    return r


def parity(e, w=32):
    r = z3.Extract(0, 0, e)
    for k in range(1, w):
        r = r ^ z3.Extract(k, k, e)
    return r
