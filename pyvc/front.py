"""Front ends: Cython and C sources are rewritten, mechanically and on every run, to the Python subset.

Cython: type declarations, `nogil`, `cimport`, `ctypedef`, decorators and extern headers are dropped (buffer
declarations become a dtype/rank check), prange(n, nogil=True) becomes range(n), &x[k] becomes x[k:].
C: after preprocessing with stand-in system headers, pointers become array views (p + k and &p[k] -> p[k:],
*p -> p[0]), locals whose address is taken become one-element arrays, canonical for loops become range loops.
Dropped: machine integer width, rounding, allocation failure, the order of parallel iterations.
"""
import ast
import os
import re
import subprocess
import glob as _glob


# ------------------------------------------------------------------ Cython

def join_lines(src):
    out, buf, depth = [], '', 0
    for ln in src.split('\n'):
        code = re.sub(r"#.*$", '', ln) if '"""' not in ln and "'" not in ln.split('#')[0][-1:] else ln
        buf = buf + (' ' + code.strip() if buf else code.rstrip())
        depth = sum(buf.count(c) for c in '([{') - sum(buf.count(c) for c in ')]}')
        if depth <= 0:
            out.append(buf)
            buf = ''
    if buf:
        out.append(buf)
    return out


def split_top(s, sep=','):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


BUF = re.compile(r'^np\.ndarray\s*\[(.*?)\]\s*(\w+)\s*(not None)?\s*(=\s*(.*))?$', re.S)


def bufdecl(s):
    m = BUF.match(s)
    if not m:
        return None
    ps = split_top(m.group(1))
    dt, nd = None, None
    for p in ps:
        k = p.split('=')
        if len(k) == 1:
            dt = p
        elif k[0].strip() == 'dtype':
            dt = k[1].strip()
        elif k[0].strip() == 'ndim':
            nd = int(k[1])
    return m.group(2), dt, nd, m.group(5)


def strip_default(a):
    """name and default of a declared argument"""
    d = None
    if '=' in a:
        a, d = a.split('=', 1)
    a = a.replace('not None', '').strip()
    n = re.split(r'[\s\*&]+', a)[-1]
    return n, d


def pyx(src):
    out = []
    skip = None
    doc = False
    for ln in join_lines(src):
        ind = len(ln) - len(ln.lstrip())
        s = ln.strip()
        if skip is not None:
            if s and ind <= skip:
                skip = None
            else:
                continue
        pad = ' ' * ind
        if '"""' in s:
            if s.count('"""') == 1:
                doc = not doc
            out.append(ln)
            continue
        if doc or not s:
            out.append(ln)
            continue
        if s.startswith('cimport') or re.match(r'from [\w\.]+ cimport', s) or s.startswith('from cython') or s.startswith('@cython') or s.startswith('assert sizeof'):
            continue
        if s.startswith('ctypedef') or s.startswith('cdef extern') or s.startswith('cdef struct'):
            if s.endswith(':'):
                skip = ind
            continue
        m = re.match(r'^(cp?def|def)\s+([^=(]*?)(\w+)\s*\((.*)\)\s*(nogil|noexcept|except[^:]*|\s)*:\s*$', s)
        if m and not (m.group(1) == 'cdef' and '=' in m.group(2)):
            args, checks = [], []
            for a in split_top(m.group(4)):
                b = bufdecl(a)
                if b:
                    args.append(b[0])
                    checks.append('%s    _cybuf(%s, %r, %r)' % (pad, b[0], b[1], b[2]))
                else:
                    n, d = strip_default(a)
                    args.append(n if d is None else '%s=%s' % (n, d))
            out.append('%sdef %s(%s):' % (pad, m.group(3), ', '.join(args)))
            out.extend(checks)
            continue
        if s.startswith('cdef '):
            rest = s[5:].strip()
            if rest.startswith('np.ndarray'):
                b = bufdecl(rest)
                if b[3] is not None:
                    out.append('%s%s = _cybuf(%s, %r, %r)' % (pad, b[0], b[3], b[1], b[2]))
                continue
            m = re.match(r'^(unsigned\s+|const\s+|struct\s+)*[\w\.]+[\s\*]+(.*)$', rest)
            stmts = []
            for d in split_top(m.group(2)):
                if '=' in d:
                    n, v = d.split('=', 1)
                    stmts.append('%s = %s' % (n.strip(' *'), v.strip()))
                elif re.match(r'^cs\b', rest):
                    stmts.append('%s = _cstruct()' % d)
            out.append(pad + '; '.join(stmts) if stmts else pad + 'pass')
            continue
        s = re.sub(r'prange\((.*?),\s*nogil\s*=\s*True[^)]*\)', r'range(\1)', s)
        s = re.sub(r'with nogil\s*:', 'if True:', s)
        s = re.sub(r'&(\w+)\[\s*0\s*\]', r'\1', s)
        s = re.sub(r'&(\w+)\[([^\[\]]*)\]', r'\1[\2:]', s)
        s = re.sub(r'([(,]\s*)&(\w+)', r'\1\2', s)
        out.append(pad + s)
    return '\n'.join(out) + '\n'


# ------------------------------------------------------------------ C

FAKE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'fakeinc')


def cparse(path):
    from pycparser import c_parser
    r = subprocess.run(['gcc', '-E', '-P', '-nostdinc', '-I', FAKE, '-I', os.path.dirname(path), path],
                       capture_output=True, text=True)
    if r.returncode:
        raise ValueError(r.stderr[:300])
    return c_parser.CParser().parse(r.stdout, path)


class CErr(Exception):
    pass


class CFn:
    def __init__(self, fd, globs):
        from pycparser import c_ast as A
        self.A = A
        self.fd = fd
        self.types = dict(globs)
        self.boxed = set()
        self.globs = set(globs)
        self.loc = set()
        self.tmp = 0

    def ty(self, d):
        """0 = scalar double, 'i' integer, 'c' complex; pointers: ('p', elem)"""
        A = self.A
        if isinstance(d, (A.PtrDecl, A.ArrayDecl)):
            t = self.ty(d.type)
            return t if t == 'f' else ('p', t)
        if isinstance(d, A.FuncDecl):
            return 'f'
        if isinstance(d, A.TypeDecl):
            n = getattr(d.type, 'names', None) or [getattr(d.type, 'name', '')]
            if '_Complex' in n:
                return 'c'
            if 'double' in n or 'float' in n:
                return 'r'
            if set(n) & {'int', 'long', 'unsigned', 'int32_t', 'size_t', 'short', 'char'}:
                return 'i'
            return 's'
        raise CErr('type %s' % type(d).__name__)

    def addressed(self, n):
        A = self.A
        out = set()

        class V(A.NodeVisitor):
            def visit_UnaryOp(s, u):
                if u.op == '&' and isinstance(u.expr, A.ID):
                    out.add(u.expr.name)
                s.generic_visit(u)
        V().visit(n)
        return out

    def source(self):
        A = self.A
        fd = self.fd
        ps = []
        for p in (fd.decl.type.args.params if fd.decl.type.args else []):
            if isinstance(p, A.Decl):
                ps.append(p.name)
                self.types[p.name] = self.ty(p.type)
                self.loc.add(p.name)
        self.boxed = self.addressed(fd.body)
        body = self.block(fd.body, 1)
        st = set(re.findall(r'^\s*(\w+) (?:[-+*/]?=) ', '\n'.join(body), re.M)) | set(re.findall(r'\((\w+) := ', '\n'.join(body)))
        gl = sorted((st & self.globs) - self.loc)
        if self.boxed & set(ps):
            raise CErr('address of a parameter')
        head = ['def %s(%s):' % (fd.decl.name, ', '.join(ps))]
        if gl:
            head.append('    global ' + ', '.join(gl))
        return '\n'.join(head + (body or ['    pass'])) + '\n'

    def block(self, n, k):
        A = self.A
        if n is None:
            return []
        items = n.block_items or [] if isinstance(n, A.Compound) else [n]
        out = []
        for s in items:
            out += self.stmt(s, k)
        return out

    def typ(self, e):
        A = self.A
        if isinstance(e, A.ID):
            return self.types.get(e.name, 'f')
        if isinstance(e, A.Constant):
            return 'i' if e.type == 'int' else 'r'
        if isinstance(e, A.Cast):
            return self.ty(e.to_type.type)
        if isinstance(e, A.ArrayRef):
            t = self.typ(e.name)
            return t[1] if isinstance(t, tuple) else 's'
        if isinstance(e, A.StructRef):
            return {'p': ('p', 'i'), 'i': ('p', 'i'), 'x': ('p', 'r')}.get(e.field.name, 'i')
        if isinstance(e, A.UnaryOp):
            if e.op == '&':
                return ('p', self.typ(e.expr))
            if e.op == '*':
                t = self.typ(e.expr)
                return t[1] if isinstance(t, tuple) else 's'
            if e.op == '!':
                return 'i'
            return self.typ(e.expr)
        if isinstance(e, A.BinaryOp):
            a, b = self.typ(e.left), self.typ(e.right)
            if isinstance(a, tuple):
                return a
            if isinstance(b, tuple):
                return b
            if e.op in ('<', '<=', '>', '>=', '==', '!=', '&&', '||'):
                return 'i'
            return 'c' if 'c' in (a, b) else 'r' if 'r' in (a, b) or 's' in (a, b) else 'i'
        if isinstance(e, A.TernaryOp):
            return self.typ(e.iftrue)
        if isinstance(e, A.FuncCall):
            n = e.name.name if isinstance(e.name, A.ID) else ''
            return {'vector': ('p', 'r'), 'cvector': ('p', 'c'), 'cpow': 'c'}.get(n, 'r')
        if isinstance(e, A.Assignment):
            return self.typ(e.lvalue)
        if isinstance(e, A.ExprList):
            return self.typ(e.exprs[-1])
        raise CErr('type of %s' % type(e).__name__)

    def E(self, e):
        A = self.A
        if isinstance(e, A.ID):
            if e.name in self.boxed:
                return '%s[0]' % e.name
            return {'I': '1j'}.get(e.name, e.name)
        if isinstance(e, A.Constant):
            if e.type == 'string':
                return repr(e.value)
            return re.sub(r'[uUlLfF]+$', '', e.value)
        if isinstance(e, A.Cast):
            t = self.ty(e.to_type.type)
            if t == 'r':
                return 'float(%s)' % self.E(e.expr)
            if isinstance(t, tuple):
                return self.E(e.expr)
            raise CErr('cast')
        if isinstance(e, A.ArrayRef):
            return '%s[%s]' % (self.E(e.name), self.E(e.subscript))
        if isinstance(e, A.StructRef):
            return '%s.%s' % (self.E(e.name), e.field.name)
        if isinstance(e, A.UnaryOp):
            if e.op == '&':
                x = e.expr
                if isinstance(x, A.ID):
                    return x.name
                if isinstance(x, A.ArrayRef):
                    return '%s[%s:]' % (self.E(x.name), self.E(x.subscript))
                raise CErr('&')
            if e.op == '*':
                if self.typ(e.expr) == 'f':
                    return self.E(e.expr)
                return '%s[0]' % self.E(e.expr)
            if e.op == '!':
                return '(not %s)' % self.C(e.expr)
            if e.op in '-+~':
                return '(%s%s)' % (e.op, self.E(e.expr))
            raise CErr('operator ' + e.op)
        if isinstance(e, A.BinaryOp):
            if e.op in ('&&', '||'):
                return '(%s %s %s)' % (self.C(e.left), {'&&': 'and', '||': 'or'}[e.op], self.C(e.right))
            l, r = self.E(e.left), self.E(e.right)
            tl, tr = self.typ(e.left), self.typ(e.right)
            if isinstance(tl, tuple) and e.op == '+':
                return '%s[%s:]' % (l, r)
            if isinstance(tr, tuple) and e.op == '+':
                return '%s[%s:]' % (r, l)
            if isinstance(tl, tuple) or isinstance(tr, tuple):
                raise CErr('pointer arithmetic')
            if e.op == '/' and tl == tr == 'i':
                return '_cdiv(%s, %s)' % (l, r)
            if e.op == '%':
                return '_cmod(%s, %s)' % (l, r)
            return '(%s %s %s)' % (l, e.op, r)
        if isinstance(e, A.TernaryOp):
            return '(%s if %s else %s)' % (self.E(e.iftrue), self.C(e.cond), self.E(e.iffalse))
        if isinstance(e, A.FuncCall):
            f = self.E(e.name)
            return '%s(%s)' % (f, ', '.join(self.E(a) for a in (e.args.exprs if e.args else [])))
        if isinstance(e, A.ExprList):
            return '(%s)[%d]' % (', '.join(self.E(x) for x in e.exprs), len(e.exprs) - 1)
        if isinstance(e, A.Assignment) and e.op == '=' and isinstance(e.lvalue, A.ID) and e.lvalue.name not in self.boxed:
            self.conv(self.typ(e.lvalue), e.rvalue)
            return '(%s := %s)' % (e.lvalue.name, self.E(e.rvalue))
        raise CErr('expression %s' % type(e).__name__)

    def C(self, e):
        """condition"""
        return self.E(e)

    def target(self, e):
        return self.E(e)

    def stmt(self, s, k):
        A = self.A
        pad = '    ' * k
        if isinstance(s, A.Compound):
            return self.block(s, k)
        if isinstance(s, A.DeclList):
            return [x for d in s.decls for x in self.stmt(d, k)]
        if isinstance(s, A.Decl):
            self.types[s.name] = self.ty(s.type)
            self.loc.add(s.name)
            if isinstance(s.type, A.ArrayDecl):
                raise CErr('local array')
            out = []
            if s.name in self.boxed:
                out.append('%s%s = _cbox()' % (pad, s.name))
            if s.init is not None:
                self.conv(self.types[s.name], s.init)
                out.append('%s%s = %s' % (pad, s.name + '[0]' if s.name in self.boxed else s.name, self.E(s.init)))
            return out
        if isinstance(s, A.Assignment):
            return self.assign(s, pad)
        if isinstance(s, A.ExprList):
            return [x for d in s.exprs for x in self.stmt(d, k)]
        if isinstance(s, A.UnaryOp) and s.op in ('p++', '++', 'p--', '--'):
            return ['%s%s %s= 1' % (pad, self.E(s.expr), '+' if '+' in s.op else '-')]
        if isinstance(s, A.FuncCall):
            return [pad + self.E(s)]
        if isinstance(s, A.Return):
            return [pad + ('return' if s.expr is None else 'return ' + self.E(s.expr))]
        if isinstance(s, A.If):
            out = ['%sif %s:' % (pad, self.C(s.cond))] + (self.block(s.iftrue, k + 1) or [pad + '    pass'])
            if s.iffalse is not None:
                out += [pad + 'else:'] + (self.block(s.iffalse, k + 1) or [pad + '    pass'])
            return out
        if isinstance(s, A.While):
            return ['%swhile %s:' % (pad, self.C(s.cond))] + (self.block(s.stmt, k + 1) or [pad + '    pass'])
        if isinstance(s, A.Break):
            return [pad + 'break']
        if isinstance(s, A.Continue):
            return [pad + 'continue']
        if isinstance(s, A.EmptyStatement):
            return []
        if isinstance(s, A.For):
            return self.loop(s, k)
        raise CErr('statement %s' % type(s).__name__)

    def assign(self, s, pad):
        A = self.A
        if s.op == '=' and isinstance(s.rvalue, A.Assignment):
            inner = self.assign(s.rvalue, pad)
            return inner + ['%s%s = %s' % (pad, self.target(s.lvalue), self.E(s.rvalue.lvalue))]
        op = s.op
        self.conv(self.typ(s.lvalue), s.rvalue)
        if op == '/=' and self.typ(s.lvalue) == 'i':
            raise CErr('integer /=')
        return ['%s%s %s %s' % (pad, self.target(s.lvalue), op, self.E(s.rvalue))]

    def conv(self, t, e):
        """implicit conversions that lose information are outside the subset"""
        u = self.typ(e)
        if (t == 'i' and u in ('r', 'c')) or (t == 'r' and u == 'c'):
            raise CErr('narrowing conversion')

    def names(self, n):
        A = self.A
        out = set()

        class V(A.NodeVisitor):
            def visit_ID(s, i):
                out.add(i.name)
        V().visit(n)
        return out

    def stored(self, n):
        A = self.A
        out = set()

        def base(x):
            while isinstance(x, (A.ArrayRef, A.UnaryOp, A.StructRef)):
                x = x.name if not isinstance(x, A.UnaryOp) else x.expr
            return x.name if isinstance(x, A.ID) else '?'

        class V(A.NodeVisitor):
            def visit_Assignment(s, a):
                out.add(base(a.lvalue))
                s.generic_visit(a)

            def visit_UnaryOp(s, u):
                if u.op in ('p++', '++', 'p--', '--', '&'):
                    out.add(base(u.expr))
                s.generic_visit(u)
        V().visit(n)
        return out

    def loop(self, s, k):
        A = self.A
        pad = '    ' * k
        init, decl = [], False
        if isinstance(s.init, A.DeclList):
            if len(s.init.decls) != 1:
                raise CErr('for with several declarations')
            d = s.init.decls[0]
            v, a = d.name, d.init
            decl = True
            save = self.types.get(v)
            self.types[v] = self.ty(d.type)
            self.loc.add(v)
        elif isinstance(s.init, A.Assignment) and s.init.op == '=' and isinstance(s.init.lvalue, A.ID):
            v, a = s.init.lvalue.name, s.init.rvalue
        elif s.init is None and isinstance(s.next, (A.UnaryOp, A.Assignment)):
            v = getattr(s.next, 'expr', None) or getattr(s.next, 'lvalue', None)
            if not isinstance(v, A.ID):
                raise CErr('for')
            a, v = v, v.name
        else:
            raise CErr('for')
        c = s.cond
        step = None
        nx = s.next
        if isinstance(nx, A.UnaryOp) and nx.op in ('p++', '++') and isinstance(nx.expr, A.ID) and nx.expr.name == v:
            step = 1
        if isinstance(nx, A.Assignment) and nx.op == '+=' and isinstance(nx.lvalue, A.ID) and nx.lvalue.name == v \
                and isinstance(nx.rvalue, A.Constant) and nx.rvalue.value.isdigit():
            step = int(nx.rvalue.value)
        if not (step and isinstance(c, A.BinaryOp) and c.op in ('<', '<=')):
            raise CErr('for loop that is not a counting loop')
        left, off = c.left, ''
        if isinstance(left, A.BinaryOp) and left.op in '+-' and isinstance(left.left, A.ID) and left.left.name == v \
                and isinstance(left.right, A.Constant) and left.right.value.isdigit():
            off = ' %s %s' % ('-' if left.op == '+' else '+', left.right.value)
            left = left.left
        if not (isinstance(left, A.ID) and left.name == v):
            raise CErr('for loop that is not a counting loop')
        st = self.stored(s.stmt)
        if v in st or v in self.boxed or (self.names(c.right) & st) or v in self.names(c.right):
            raise CErr('loop bound or counter modified in the loop')
        hi = self.E(c.right) + off + (' + 1' if c.op == '<=' else '')
        lo = self.E(a)
        body = self.block(s.stmt, k + 1) or [pad + '    pass']
        out = []
        if decl or self.exits(s.stmt):
            out.append('%sfor %s in range(%s, %s%s):' % (pad, v, lo, hi, ', %d' % step if step != 1 else ''))
            return out + body + ['%s%s = _cpoison()' % (pad, v)]
        self.nloop = getattr(self, 'nloop', 0) + 1
        x, y = '_clo%d' % self.nloop, '_chi%d' % self.nloop
        out.append('%s%s, %s = %s, %s' % (pad, x, y, lo, hi))
        out.append('%sfor %s in range(%s, %s%s):' % (pad, v, x, y, ', %d' % step if step != 1 else ''))
        # value of the counter when the loop has ended
        return out + body + ['%s%s = _cafter(%s, %s, %d)' % (pad, v, x, y, step)]

    def exits(self, s):
        """a break or goto of this loop"""
        A = self.A
        hit = []

        def walk(n, inner):
            if isinstance(n, (A.Goto, A.Label, A.Switch)) or isinstance(n, A.Break) and not inner:
                hit.append(n)
            for _, ch in n.children():
                walk(ch, inner or isinstance(n, (A.For, A.While, A.DoWhile)))
        walk(s, False)
        return bool(hit)


def c_source(paths):
    """Python text of a set of C files, linked; (text, {function: reason}) """
    from pycparser import c_ast as A
    trees = [cparse(p) for p in paths]
    globs, fns, out, bad = {}, [], [], {}
    helper = CFn(None, {})
    for t in trees:
        for x in t.ext:
            if isinstance(x, A.FuncDef):
                fns.append(x)
            elif isinstance(x, A.Decl) and x.name and not isinstance(x.type, (A.FuncDecl, A.Struct)):
                globs[x.name] = helper.ty(x.type)
                if x.init is not None:
                    out.append('%s = %s' % (x.name, CFn(None, {}).E(x.init)))
    for n in sorted(globs):
        if not any(o.startswith(n + ' =') for o in out):
            out.append('%s = _cpoison()' % n)
    for f in fns:
        try:
            src = CFn(f, globs).source()
            ast.parse(src)
            out.append(src)
        except (CErr, SyntaxError) as e:
            bad[f.decl.name] = str(e)
            out.append('%s = _cpoison()' % f.decl.name)
    return '\n'.join(out) + '\n', bad


def source_for(root, name):
    """(python text, real source path) of a module that has no .py file, or None"""
    if name.startswith('C:'):
        d = name[2:]
        p = os.path.join(root, d)
        paths = sorted(x for x in (_glob.glob(os.path.join(p, '*.c')) if os.path.isdir(p) else [p]) if not os.path.basename(x).startswith('_'))
        return c_source(paths)[0], p
    parts = name.split('.')
    if parts[-1].startswith('_'):
        p = os.path.join(root, *parts[:-1], parts[-1][1:] + '.pyx')
        if os.path.exists(p):
            return pyx(open(p).read()), p
    return None


if __name__ == '__main__':
    import sys
    r = source_for(sys.argv[1], sys.argv[2])
    print(r[0])
    if sys.argv[2].startswith('C:'):
        p = os.path.join(sys.argv[1], sys.argv[2][2:])
