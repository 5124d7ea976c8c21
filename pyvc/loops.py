"""Exact summaries of loops over a symbolic range."""
import ast
from . import terms as T
from .terms import Poly, B, lift, ite, band, bnot
from .interp import *
from .interp import MISSING, _ser


class Carried:
    pass


def summarise(I, n, f, tag, fr):
    n = lift(n)
    inv = I.invariants.get(tag) if tag else None
    if inv is not None:
        return inv.run_for(I, n, f, fr)
    if I.solver.implied(I.pc, T.cmp_le(n, 0)):
        return
    i = T.fresh('i')
    iv = T.the_var(i)
    guard = [T.cmp_le(0, i), T.cmp_lt(i, n)]
    mark = len(I.log)
    npc = len(I.pc)
    hav = {}            # location -> (loc, init, fresh value, symbols)
    sorts = {}
    for g in I.ghosts.values():
        hav[('d', id(g), 'rows')] = dict(loc=['d', g, 'rows'], init=g['rows'])
    start = next(_ser)
    hint = I.loophints.setdefault((tag, id(fr.vars), tuple(map(id, I.ghosts.values()))), {}) if tag else {}
    if tag:
        I.keepalive.append(fr.vars)
    for k, (o, js, lk) in list(hint.items()):       # what this loop changed the last time it was summarised
        if k not in hav:
            hav[k] = dict(loc=[k[0], o, k[2]], init=o.get(k[2], MISSING) if k[0] == 'd' else o.fn)
            if js is not None:
                sorts[k] = js
        if lk is not None:
            hav[k]['hint'] = lk
    for rnd in range(12):
        I.rollback(mark)
        syms = {}       # Var atom or function name -> location
        for k, h in sorted(hav.items(), key=lambda kv: getattr(kv[1]['loc'][1], 'ghost', False)):
            link = ghost_link(I, h, hav, i, n) if getattr(h['loc'][1], 'ghost', False) else None
            if link is not None:
                h['fresh'], h['names'] = link, []
                I.apply(h['loc'], link)
                continue
            val, names = havoc(h['loc'], h['init'], sorts.get(k))
            h['fresh'], h['names'] = val, names
            for x in names:
                syms[x] = k
            I.apply(h['loc'], val)
        mark2 = len(I.log)
        own = {iv} | {x for x in syms if not isinstance(x, str)}
        fns = {x for x in syms if isinstance(x, str)}
        I.pc += guard
        try:
            post = body_paths(I, lambda: f(i), own, fns, mark2)
        except TapeMiss:
            del I.pc[npc:]
            h = next((h for h in hav.values() if h['loc'][2] == 'rows' and h.get('link') and len(h['cands']) > 1), None)
            if h is None:
                raise
            h['cands'].pop(0)
            h['link'] = None
            continue
        finally:
            del I.pc[npc:]
        post = {k: v for k, v in post.items() if getattr(v[1], 'ser', 0) < start and not (v[0] == 'd' and v[3] is None and v[4] is None)}
        again = False
        for k, h in hav.items():
            if h.get('link') and not link_holds(I, h, hav, post, k, guard):
                h['cands'].pop(0)
                h['link'] = None
                again = True
        for k, v in post.items():
            if k not in hav:
                init = v[3]
                hav[k] = dict(loc=v[:3], init=init)
                again = True
            if v[0] == 'd' and isnum(v[4]) and not isinstance(v[4], Word):
                s = lift(v[4]).sort
                i0 = hav[k]['init']
                s0 = lift(i0).sort if isnum(i0) and not isinstance(i0, Word) else s
                js = T.jsort(s, s0)
                if sorts.get(k) != js:
                    if k in sorts or js != s0:
                        again = True
                    sorts[k] = js
        if not again:
            break
    else:
        raise Unsupported('loop state does not stabilise')
    I.rollback(mark)
    if promote(I, n, hav, post, own | {iv}):
        return summarise(I, n, f, None, fr)
    for k, h in hav.items():
        if k[0] in 'db' and getattr(h['loc'][1], 'ser', 0) < start and (k in post or h.get('link')):
            hint[k] = (h['loc'][1], sorts.get(k), h.get('link'))
    solve(I, n, i, iv, hav, post, guard)


def promote(I, n, hav, post, own):
    """a number that the first iteration turns into an array: start from the array of this number"""
    done = False
    for k, h in hav.items():
        loc = h['loc']
        if loc[0] != 'd' or h.get('link') or k not in post or not isnum(h['init']) or isinstance(h['init'], (Word, bool, B)):
            continue
        c = post[k][4]
        if not isinstance(c, Arr) or c.cls is not None or c.dtype not in 'RC' or not isnum(h['fresh']):
            continue
        js = [T.fresh('j') for _ in range(c.ndim)]
        try:
            p = lift(c.get(*js))
        except Unreadable:
            continue
        if T.the_var(h['fresh']) not in p.vars() or any(lift(d).vars() & own for d in c.shape):
            continue
        if not I.solver.implied(I.pc, T.cmp_lt(0, n)):
            continue
        x = lift(h['init'])
        I.set(loc[1], loc[2], new(c.shape, lambda *j, x=x: x, c.dtype))
        done = True
    return done


def ghost_link(I, h, hav, i, n=None):
    """ghost variables are carried as: equal to a program variable, counting iterations, or unchanged - checked after the body"""
    if 'cands' not in h and h['loc'][2] != 'p':
        x0 = lift(h['init'])
        key = h['loc'][2]
        if key == 'rows':
            h['cands'] = [('iter', None), ('const', None)]
            m = quotient(h['loc'][1].tape.rows, n)
            if m is not None and m != T.ONE:
                h['cands'].insert(0, ('scale', m))
        elif key in ('g', 'mark'):
            h['cands'] = None
        else:
            h['cands'] = [('const', None)]
        if h.get('hint') and h['cands']:
            h['cands'].sort(key=lambda c: c[0] != h['hint'][0])
    if h['loc'][2] == 'p':
        h['cands'] = []
    if h['cands'] is None:
        x0 = lift(h['init'])
        c = [('var', k2) for k2, h2 in hav.items() if h2['loc'][0] == 'd' and not getattr(h2['loc'][1], 'ghost', False)
             and isnum(h2['init']) and not isinstance(h2['init'], Word) and lift(h2['init']).sort == 'I' and (lift(h2['init']) - x0).is_zero()]
        if not c:
            return None
        if h.get('hint'):
            c.sort(key=lambda x: x != h['hint'])
        h['cands'] = c
    if not h['cands']:
        return None
    kind, k2 = h['link'] = h['cands'][0]
    if kind == 'iter':
        return lift(h['init']) + i
    if kind == 'scale':
        return lift(h['init']) + k2 * i
    if kind == 'const':
        return lift(h['init'])
    return hav[k2]['fresh']


def quotient(p, n):
    """m with p == m * n, n a variable"""
    if p is None or n is None:
        return None
    p, n = lift(p), lift(n)
    if len(n.t) != 1 or n.is_const():
        return None
    (mn, c), = n.t.items()
    if c != 1 or len(mn) != 1 or mn[0][1] != 1:
        return None
    v, out = mn[0][0], {}
    for m, c in p.t.items():
        d = dict(m)
        if d.get(v) != 1:
            return None
        d.pop(v)
        out[tuple(sorted(d.items(), key=lambda z: z[0].uid))] = c
    return Poly(out, 'I')


def link_holds(I, h, hav, post, k, guard):
    kind, k2 = h['link']
    pv = lift(post[k][4]) if k in post else lift(h['fresh'])
    if kind == 'iter':
        want = lift(h['fresh']) + 1
    elif kind == 'scale':
        want = lift(h['fresh']) + k2
    elif kind == 'const':
        want = lift(h['fresh'])
    else:
        v = post[k2][4] if k2 in post else hav[k2]['fresh']
        if not isnum(v) or isinstance(v, Word):
            return False
        want = lift(v)
    d = pv - want
    return d.is_zero() or I.solver.implied(I.pc + guard, T.cmp_eq(d, 0))


def havoc(loc, init, sort=None):
    kind, obj, key = loc
    if kind == 'b':
        nm = 'h!%d' % next(T._fresh)
        srt = {'U': 'I', 'B': 'I'}.get(obj.dtype, obj.dtype)
        if obj.dtype == 'B':
            T.BITLIKE.add(nm)
        return memo(lambda *j: T.app(nm, *j, sort=srt)), [nm]
    if kind == 'd':
        return havval(init, str(key), sort)
    raise Unsupported('loop changes a %s' % ('list' if kind == 'l' else 'native attribute %s' % (key,)))


def havval(init, name, sort=None):
    if init is MISSING:
        return Unbound(name), []
    if isinstance(init, (bool, B)):
        v = T.fresh('h_' + name)
        return T.mk_iv('b', v), [T.the_var(v)]
    if isnum(init) and not isinstance(init, Word):
        v = T.fresh('h_' + name, sort or lift(init).sort)
        return v, [T.the_var(v)]
    if isinstance(init, Arr) and init.cls is None:
        nm = 'h!%d' % next(T._fresh)
        srt = {'U': 'I', 'B': 'I'}.get(init.dtype, init.dtype)
        return new(init.shape, lambda *j: T.app(nm, *j, sort=srt), init.dtype), [nm]
    if isinstance(init, tuple):
        parts = [havval(x, name) for x in init]
        return tuple(p[0] for p in parts), [y for p in parts for y in p[1]]
    return Unbound(name), []


class Unbound(PoisonVar):
    def __init__(self, name):
        self.n = name

    def read(self):
        raise Unsupported('loop-carried value of ' + self.n)


def deps(p, i):
    return p.vars(), poly_fns(p)


def body_paths(I, thunk, own, fns, mark):
    while True:
        paths, single = I.enum(thunk)
        if I.pruned:
            raise Unsupported('a loop with an invariant inside a summarised loop')
        good = []
        for p in paths:
            if p[1] == 'exc':
                c = band(*[c if d else bnot(c) for c, d in p[0]])
                if I.solver.unsat(I.pc + [c]):
                    continue
                if not (c.vars() & own) and c.op != 'c' and I.scopes:
                    good.append(p)
                    continue
                raise Unsupported('exception inside a loop: %s' % (p[2],))
            if p[1] in ('brk', 'ret'):
                raise Unsupported('%s inside a symbolic loop' % p[1])
            good.append(p)
        paths = good
        if not paths:
            raise Unsupported('loop body without a normal path')
        if single:
            return paths[0][3]
        if len(paths) == 1:
            # other paths were infeasible; state was rolled back
            for k, v in paths[0][3].items():
                I.apply(v, v[4])
            return I.delta(mark)
        I.rollback(mark)
        try:
            m = I.merge(paths)
        except Unmergeable as e:
            c = paths[0][0][0][0]
            if c.vars() & own or not I.scopes or any(atom_fns(a) & fns for a in c.atoms()):
                if not I.lenient:
                    I.lenient = 1
                    try:
                        return body_paths(I, thunk, own, fns, mark)
                    finally:
                        I.lenient = 0
                raise Unsupported('branch inside a loop: %s' % e)
            I.decide(c)
            continue
        for loc, val in m[2]:
            I.apply(loc, val)
        return I.delta(mark)


def flat(v):
    if isinstance(v, tuple):
        return [y for x in v for y in flat(x)]
    return [v]


def solve(I, n, i, iv, hav, post, guard):
    pend = {}           # symbol -> (kind, post value)
    init = {}
    arrs = {}
    final = []
    for k, h in hav.items():
        loc = h['loc']
        if h.get('link'):
            continue
        pv = post[k][4] if k in post else h['fresh']
        if loc[0] == 'b':
            nm = h['names'][0]
            pend[nm] = ('b', pv, len(loc[1].shape), loc[1])
            init[nm] = h['init']
        else:
            fi, ff, fp = flat(h['init']), flat(h['fresh']), flat(pv)
            if len(fi) == len(fp):
                for a, b, c in zip(fi, ff, fp):
                    if isinstance(b, Arr):
                        (m, _), = list(b.get(*[T.var('_q%d' % q) for q in range(b.ndim)]).t.items())
                        nm = m[0][0].args[0]
                        if isinstance(c, Arr) and c.ndim == b.ndim and I.same_shape(c.shape, b.shape):
                            pend[nm] = ('b', c.snap(), b.ndim, None)
                            init[nm] = a.snap()
                    elif isinstance(b, (Poly, B)):
                        x = T.the_var(b) if isinstance(b, Poly) else next(iter(b.vars()))
                        if isnum(c) and not isinstance(c, Word):
                            pend[x] = ('s', lift(c), None, None)
                            init[x] = lift(a)
    closed = {}         # symbol -> function(iteration) -> Poly  /  function(iteration) -> function
    names = set(pend)

    def close(p, at):
        """value of p at iteration `at`, pending symbols untouched"""
        env = {x: closed[x](at) for x in closed if not isinstance(x, str)}
        fe = {x: closed[x](at) for x in closed if isinstance(x, str)}
        if fe:
            p = subst_fn(p, fe)
        env[iv] = lift(at)
        return T.subst(p, env)

    def open_syms(p):
        s = {v for v in p.vars() if v in names and v not in closed}
        return s | {x for x in poly_fns(p) if x in names and x not in closed}

    progress = True
    posts = {}
    while progress and len(closed) < len(pend):
        progress = False
        for x, (kind, p, nd, buf) in pend.items():
            if x in closed:
                continue
            if kind == 's':
                q = close(p, i)
                o = open_syms(q)
                if o - {x}:
                    continue
                d = q - Poly.atom(x)
                if x in d.vars():
                    d1 = unit_slope(I, q, x)
                    if d1 is not None:
                        d, q = d1, d1 + Poly.atom(x)
                if x not in d.vars():
                    closed[x] = (lambda d, x0: lambda at: x0 + acc(d, iv, at))(d, init[x])
                    posts[x] = q
                    progress = True
                elif x not in q.vars():
                    closed[x] = (lambda q, x0: lambda at: ite(T.cmp_le(at, 0), x0, T.subst(q, {iv: lift(at) - 1})))(q, init[x])
                    posts[x] = q
                    progress = True
                else:
                    g = I.np.fold(I, x, q, iv)
                    if g is not None:
                        closed[x] = (lambda g, x0: lambda at: g(x0, at))(g, init[x])
                        progress = True
            else:
                js = [T.fresh('j') for _ in range(nd)]
                try:
                    q = close(lift(p(*js)), i)
                except Unreadable:
                    continue
                o = open_syms(q)
                if o - {x}:
                    continue
                r = array_rec(I, x, q, js, i, iv, n, guard, buf)
                if r is None:
                    continue
                closed[x] = (lambda r, js, h0: lambda at: lambda *j: r(h0, at, j))(r, js, init[x])
                progress = True
    left = [x for x in pend if x not in closed]
    # values that are left open are only a problem when something depends on them
    for k, h in hav.items():
        loc = h['loc']
        pv = post[k][4] if k in post else h['fresh']
        if h.get('link'):
            kind, k2 = h['link']
            if kind == 'var':
                x = T.the_var(h['fresh'])
                if x not in closed:
                    raise Unsupported('cursor of a matrix under construction')
                I.apply(loc, closed[x](n))
            else:
                I.apply(loc, lift(h['init']) + (n if kind == 'iter' else k2 * n if kind == 'scale' else 0))
            continue
        if loc[0] == 'b':
            nm = h['names'][0]
            if nm not in closed:
                # values that the closed forms cannot express: an error when one of them is read
                I.apply(loc, unreadable('value left in %s by a loop' % (getattr(loc[1], 'name', None) or 'an array')))
                continue
            I.apply(loc, memo(closed[nm](n)))
            continue
        val = final_value(I, pv, h, closed, close, i, n)
        I.apply(loc, val)


def unit_slope(I, q, x):
    """c when q = x + c and c does not depend on x: the slope of x is a sum of conditions that exclude each other"""
    slope, c = lift(0), lift(0)
    for m, co in q.t.items():
        e = dict(m).get(x)
        t = Poly({tuple((a, k) for a, k in m if a is not x): co}, q.sort)
        if e is None:
            c = c + t
        elif e == 1:
            slope = slope + t
        else:
            return None
    if x in slope.vars() or x in c.vars():
        return None
    return c if I.solver.iszero(slope - 1, I.pc) else None


def unreadable(why):
    def fn(*j):
        raise Unreadable(why)
    return fn


def acc(d, iv, at):
    if d.is_zero():
        return d
    l = T.fresh('l')
    return T.mk_sum(l, 0, lift(at), T.subst(d, {iv: l}))


def final_value(I, pv, h, closed, close, i, n):
    init = h['init']

    def val(a, b, c):
        # a initial, b fresh, c post
        if isinstance(b, (Poly, B)) and not isinstance(b, Unbound):
            x = T.the_var(b) if isinstance(b, Poly) else next(iter(b.vars()))
            if x in closed:
                r = closed[x](n)
                return T.bool_of_poly(r) if isinstance(a, (bool, B)) and isinstance(c, (bool, B)) else simp(r)
            return Poison('loop-carried variable %s' % h['loc'][2])
        if isinstance(b, Arr):
            (m, _), = list(b.get(*[T.var('_q%d' % q) for q in range(b.ndim)]).t.items())
            nm = m[0][0].args[0]
            if nm in closed:
                return new(b.shape, closed[nm](n), c.dtype if isinstance(c, Arr) else b.dtype)
            return Poison('loop-carried array %s' % h['loc'][2])
        # not carried: value of the last iteration
        if not I.solver.implied(I.pc, T.cmp_lt(0, n)):
            return Poison('value of %s after a loop' % (h['loc'][2],))
        return last(c)

    def last(c):
        at = lift(n) - 1
        if isinstance(c, Word):
            f, pp = c.fn, c.poly
            return Word(lambda k: close(f(k), at), close(pp, at) if pp is not None else None)
        if isinstance(c, (bool, int)):
            return c
        if isinstance(c, B):
            return T.bool_of_poly(close(c.poly(), at))
        if isinstance(c, Poly):
            return close(c, at)
        if isinstance(c, Arr) and c.cls is None:
            g = c.snap()
            return new([close(lift(s), at) for s in c.shape], lambda *j: close(lift(g(*j)), at), c.dtype)
        if isinstance(c, tuple):
            return tuple(last(x) for x in c)
        if c is None or isinstance(c, (str, Func, Native, Cls, Module)):
            return c if not isinstance(c, Func) else Poison('closure made in a loop')
        return Poison('value of %s after a loop' % (h['loc'][2],))
    if isinstance(pv, tuple) and isinstance(init, tuple) and len(pv) == len(init):
        return tuple(val(a, b, c) for a, b, c in zip(init, h['fresh'], pv))
    return val(init, h['fresh'], pv)


def reads_of(nm, p, out):
    """arguments of every nm(...) in p; None when one is under a sum"""
    for a in p.atoms():
        if nm not in atom_fns(a):
            continue
        if a.kind == 'App' and a.args[0] == nm:
            if tuple(a.args[1:]) not in out:
                out.append(tuple(a.args[1:]))
            continue
        if a.kind in ('Sum', 'Re', 'Im'):
            return None
        for x in a.args:
            if isinstance(x, Poly) and reads_of(nm, x, out) is None:
                return None
    return out


def same_element(I, args, js, mono, guard, buf):
    """the element read is js, given the brackets of the monomial"""
    args, want = list(args), list(js)
    if args == want:
        return True
    for b, e in mono:
        if b.kind == 'Iv' and b.args[0] == 'eq':
            s = T.solve_eq(b.args[1])
            if s is not None:
                args, want = [[T.subst(x, {s[0]: s[1]}) for x in l] for l in (args, want)]
    if args == want:
        return True
    ctx = I.pc + guard + [B('a', b) for b, e in mono if b.kind == 'Iv'] + ([in_range(js, buf.shape)] if buf is not None else [])
    return all(x == y or I.solver.implied(ctx, T.cmp_eq(x, y)) for x, y in zip(args, want))


def read_before_write(I, nm, q, js, i, iv, n, guard, buf):
    """each element is written in at most one iteration, from elements that no earlier iteration has written"""
    A, Bc = T.ZERO, T.ZERO
    for m, c in q.t.items():
        hs = [(a, e) for a, e in m if nm in atom_fns(a)]
        if len(hs) == 1 and hs[0][1] == 1 and hs[0][0].kind == 'App' and hs[0][0].args[0] == nm and same_element(I, hs[0][0].args[1:], js, m, guard, buf):
            Bc = Bc + Poly({tuple(x for x in m if x[0] is not hs[0][0]): c}, 'I')
        else:
            A = A + Poly({m: c}, q.sort)
    C = T.ONE - Bc
    if C.is_zero() or iv not in C.vars() or any(a.kind == 'Sum' for a in C.atoms()):
        return None
    jv = [T.the_var(j) for j in js]
    reads = reads_of(nm, A, [])
    if reads is None:
        return None
    l = T.fresh('l')
    box = [in_range(js, buf.shape)] if buf is not None else []
    before = I.pc + guard + [T.cmp_le(0, l), T.cmp_lt(l, i)] + box
    cb = T.bool_of_poly(C)
    if not I.solver.unsat(before + [cb, T.bool_of_poly(T.subst(C, {iv: l}))]):
        return None
    for ar in reads:
        env = dict(zip(jv, ar))
        env[iv] = l
        if not I.solver.unsat(before + [cb, T.bool_of_poly(T.subst(C, env))]):
            return None
    if not (A * Bc).is_zero() and not I.solver.iszero(A * Bc, I.pc + guard + box, 2, 3):
        return None

    w = T.fresh('w')            # elements j may themselves be named by the loop variable
    wv = T.the_var(w)
    A, C = T.subst(A, {iv: w}), T.subst(C, {iv: w})

    def run(h0, at, j):
        env = dict(zip(jv, map(lift, j)))
        A0 = T.subst(subst_fn(A, {nm: lambda *x: lift(h0(*x))}), env)
        return lift(h0(*j)) * (T.ONE - acc(T.subst(C, env), wv, at)) + acc(A0, wv, at)
    return run


def array_rec(I, nm, q, js, i, iv, n, guard, buf=None):
    return array_rec1(I, nm, q, js, i, iv, n, guard, buf) or read_before_write(I, nm, q, js, i, iv, n, guard, buf)


def oriented(p):
    """p with one of the two brackets of each inequality and its negation"""
    r = T.ZERO
    for m, c in p.t.items():
        x = lift(c)
        for a, e in m:
            f = Poly.atom(a)
            if a.kind == 'Iv' and a.args[0] == 'le' and a.args[1].sort == 'I':
                o = T.cmp_le(1 - a.args[1], 0).poly()
                if len(o.t) == 1 and str(o) < str(f):
                    f = T.ONE - o
            x = x * f ** e
        r = r + x
    return r


def compact(C, A):
    """the condition under which a loop body writes, as the brackets of what it writes"""
    if len(C.t) < 2 or len(C.t) > 40 or not A.t:
        return C
    ivs = set.intersection(*[{(a, e) for a, e in m if a.kind == 'Iv'} for m in A.t])
    if ivs:
        P = Poly({tuple(sorted(ivs, key=lambda z: z[0].uid)): 1}, 'I')
        if (oriented(C) - oriented(P)).is_zero():
            return P
    return C


def array_rec1(I, nm, q, js, i, iv, n, guard, buf=None):
    """q = value of element js after iteration i, in terms of nm(..) before it"""
    A, Bc = T.ZERO, T.ZERO
    for m, c in q.t.items():
        hs = [(a, e) for a, e in m if nm in atom_fns(a)]
        if not hs:
            A = A + Poly({m: c}, q.sort)
            continue
        if len(hs) > 1 or hs[0][1] != 1 or hs[0][0].kind != 'App' or hs[0][0].args[0] != nm:
            return None
        a = hs[0][0]
        rest = tuple(x for x in m if x[0] is not a)
        # the element read must be js itself, given the brackets of this monomial
        args, want = list(a.args[1:]), list(js)
        if args != want:
            for b, e in rest:
                if b.kind == 'Iv' and b.args[0] == 'eq':
                    s = T.solve_eq(b.args[1])
                    if s is not None:
                        env = {s[0]: s[1]}
                        args = [T.subst(x, env) for x in args]
                        want = [T.subst(x, env) for x in want]
            if args != want:
                ctx = I.pc + guard + [B('a', b) for b, e in rest if b.kind == 'Iv']
                if buf is not None:
                    ctx = ctx + [in_range(js, buf.shape)]
                if not all(x == y or I.solver.implied(ctx, T.cmp_eq(x, y)) for x, y in zip(args, want)):
                    return None
        Bc = Bc + Poly({rest: c}, 'I')
    C = compact(T.ONE - Bc, A)
    jv = [T.the_var(j) for j in js]
    if buf is not None and not C.is_zero() and len(C.t) <= 80:
        box = I.pc + guard + [in_range(js, buf.shape)]
        Cs = I.solver.simp(C, box)
        if Cs.is_zero() or I.solver.iszero(Cs, box, 3, 4):
            C, A = T.ZERO, I.solver.simp(A, box)
    w = T.fresh('w')            # elements j may themselves be named by the loop variable
    wv = T.the_var(w)
    if C.is_zero():
        Aw = T.subst(A, {iv: w})

        def run(h0, at, j):
            env = dict(zip(jv, map(lift, j)))
            return lift(h0(*j)) + acc(T.subst(Aw, env), wv, at)
        return run
    if iv not in C.vars():
        # the same elements are rewritten in every iteration
        def run(h0, at, j):
            env = dict(zip(jv, map(lift, j)))
            env2 = dict(env)
            env2[iv] = lift(at) - 1
            v = T.subst(Bc, env) * h0(*j) + T.subst(A, env2)
            return ite(T.cmp_le(at, 0), h0(*j), v)
        if (A * Bc).is_zero() or I.solver.iszero(A * Bc, I.pc + guard, 2, 3):
            return run
        return None
    # each element is written in at most one iteration
    if jv and not any(iv in a.vars() and any(x in a.vars() for x in jv) for a in C.atoms()):
        return None
    l = T.fresh('l')
    C2 = T.subst(C, {iv: l})
    ctx = I.pc + guard + [T.cmp_le(0, l), T.cmp_lt(i, l), T.cmp_lt(l, n)]
    if buf is not None:
        ctx = ctx + [in_range(js, buf.shape)]
    prod = C * C2
    if not prod.is_zero():
        cb, cb2 = T.bool_of_poly(C), T.bool_of_poly(C2)
        if not I.solver.unsat(ctx + [cb, cb2]) and I.solver.iszero(prod, ctx, 3, 5) is False \
                and not I.np.cursor_disjoint(I, C, iv, ctx):
            return None
    AB = A * Bc
    if not AB.is_zero() and I.solver.iszero(AB, I.pc + guard + ([in_range(js, buf.shape)] if buf is not None else []), 2, 3) is False:
        return None

    Aw, Cw = T.subst(A, {iv: w}), T.subst(C, {iv: w})

    def run(h0, at, j):
        env = dict(zip(jv, map(lift, j)))
        return lift(h0(*j)) * (T.ONE - acc(T.subst(Cw, env), wv, at)) + acc(T.subst(Aw, env), wv, at)
    return run


class Houdini:
    """while-loop invariant: the largest inductive subset of candidate facts about the carried integers"""

    def __init__(self, cands, measure=None):
        self.cands, self.measure = cands, measure
        self.kept = []
        self.terminates = None

    def run_while(self, I, s, fr):
        names = []
        for st in ast.walk(s):
            if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store) and st.id in fr.vars and st.id not in names:
                names.append(st.id)
            if isinstance(st, (ast.Return, ast.Break, ast.Subscript)) and (not isinstance(st, ast.Subscript) or isinstance(st.ctx, ast.Store)):
                raise Unsupported('while loop with %s' % type(st).__name__)
        names = [x for x in names if isnum(fr.vars[x])]
        init = [I.num(fr.vars[x]) for x in names]
        cs = self.cands(I, names, init, fr)
        live = [k for k, (l, b) in enumerate(cs) if I.solver.implied(I.pc, b)]
        mark = len(I.log)
        while True:
            hv = [T.fresh('w_' + x, i.sort) for x, i in zip(names, init)]
            for x, h in zip(names, hv):
                I.set(fr.vars, x, h)
            inv = self.cands(I, names, hv, fr)
            inv_b = [inv[k][1] for k in live]
            npc = len(I.pc)
            I.pc += inv_b
            dropped = set()
            term = True

            def body():
                t = I.truth(I.ev(s.test, fr))
                if isinstance(t, bool):
                    if not t:
                        raise Unsupported('loop test is false')
                else:
                    I.pc.append(t)
                    I.scopes[-1].conds.append((t, True))
                I.block(s.body, fr)
            I.nomerge += 1
            try:
                paths, single = I.enum(body)
            finally:
                I.nomerge -= 1
            m2 = len(I.log)
            for conds, kind, val, delta in paths:
                pc = I.pc + [c if d else bnot(c) for c, d in conds]
                if I.solver.unsat(pc):
                    continue
                if kind == 'exc':
                    raise Unsupported('exception in a while loop: %s' % (val,))
                post = []
                for x, h in zip(names, hv):
                    v = next((e[4] for e in delta.values() if e[0] == 'd' and e[1] is fr.vars and e[2] == x), h)
                    post.append(I.num(v))
                pb = self.cands(I, names, post, fr)
                for k in live:
                    if not I.solver.implied(pc, pb[k][1]):
                        dropped.add(k)
                if self.measure:
                    a, b = self.measure(names, hv), self.measure(names, post)
                    term = term and any(I.solver.implied(pc, band(T.cmp_le(0, x), T.cmp_lt(y, x))) for x, y in zip(a, b))
            del I.pc[npc:]
            I.rollback(mark)
            if not dropped:
                break
            live = [k for k in live if k not in dropped]
        self.kept = [inv[k][0] for k in live]
        self.terminates = term
        guard = band(*I.pc)
        for x, h in zip(names, hv):
            I.set(fr.vars, x, h)
        t = tob(I.truth(I.ev(s.test, fr)))
        for b in [inv[k][1] for k in live] + [bnot(t)]:
            I.solver.gfacts.append(T.bor(bnot(guard), b))
        # variables assigned in the body that did not exist before
        for st in ast.walk(s):
            if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store) and st.id not in names:
                I.set(fr.vars, st.id, Poison('value of %s after a while loop' % st.id))



class Invariant:
    """Hoare-style treatment of one loop.  state(I, fr, c) puts the frame into an arbitrary state that satisfies the invariant
    at the start of iteration c (c is None for a while loop) and returns its assumptions; check(I, fr, c) lists the
    obligations (label, polynomial that is zero or formula that holds) that say the frame satisfies it.
    The invariant is checked on entry and after every iteration that is followed by another one; what follows the loop is
    executed from the end of an arbitrary last iteration."""

    def __init__(self, g, name, state, check, enter=lambda I, fr: None):
        self.g, self.name, self.state, self.check, self.enter = g, name, state, check, enter
        self.done = {}
        self.seen = set()

    def again(self, I, what):
        """paths are enumerated by running the program again: this point has been reached with the same decisions before"""
        key = (what, I.runs, len(I.log), len(I.pc), tuple(tuple(sc.dec[:sc.pos]) for sc in I.scopes))
        if key in self.seen:
            return True
        self.seen.add(key)
        return False

    def obligations(self, I, fr, c, when):
        if self.again(I, when):
            return
        for label, x in self.check(I, fr, c):
            what = '%s: %s (%s)' % (self.name, label, when)
            k = len(self.g.obl)
            if isinstance(x, (B, bool)):
                self.g.true(what, tob(x))
            else:
                self.g.zero(what, x)
            new = self.g.obl[k:]
            rank = {'discharged': 0, 'undecided': 1, 'refuted': 2}
            old = self.done.get(what)
            if old is not None:         # the same obligation on another path: the worst result stands
                del self.g.obl[k:]
                for n in new:
                    if rank[n['status']] > rank[old['status']]:
                        old.update(n)
            elif new:
                self.done[what] = new[0]

    def arrive(self, I, fr, c, extra=()):
        for b in list(self.state(I, fr, c)) + list(extra):
            I.assume(b)

    def preserve(self, I, fr, c, extra, body, again):
        """one arbitrary iteration, in a scope of its own"""
        if self.again(I, 'iteration'):
            return
        mark, npc = len(I.log), len(I.pc)

        def thunk():
            self.arrive(I, fr, c, extra)
            try:
                body()
            except Cont:
                pass
            if not again():
                raise Pruned()
            self.obligations(I, fr, None if c is None else c + 1, 'preserved')
            raise Pruned()
        try:
            I.enum(thunk)
        except Pruned:
            pass
        finally:
            del I.pc[npc:]
            I.rollback(mark)

    def run_for(self, I, n, f, fr):
        n = lift(n)
        if I.solver.implied(I.pc, T.cmp_le(n, 0)):
            return
        if not I.solver.implied(I.pc, T.cmp_lt(0, n)):
            raise Unsupported('a loop with an invariant that may have no iteration')
        self.enter(I, fr)
        self.obligations(I, fr, lift(0), 'on entry')
        c = T.fresh('it')
        rng = [T.cmp_le(0, c), T.cmp_lt(c, n)]
        self.preserve(I, fr, c, rng, lambda: f(c), lambda: I.decide(T.cmp_lt(c + 1, n)))
        # the loop is left after its last iteration, or from inside an earlier one
        I.rerun += 1            # an iteration that 'preserve' has covered: joins in it are not checked again
        try:
            if I.decide(T.cmp_le(T.fresh('way'), 0)):
                c = n - 1
                self.arrive(I, fr, c)
                f(c)
            else:
                self.arrive(I, fr, c, rng + [T.cmp_lt(c + 1, n)])
                f(c)
                raise Pruned()
        finally:
            I.rerun -= 1

    def run_while(self, I, s, fr):
        test = lambda: I.decide(tob(I.truth(I.ev(s.test, fr))))
        if not test():
            return I.block(s.orelse, fr)
        self.enter(I, fr)
        self.obligations(I, fr, None, 'on entry')
        self.preserve(I, fr, None, [], lambda: I.block(s.body, fr), test)
        self.arrive(I, fr, None)
        try:
            I.block(s.body, fr)
        except Cont:
            pass
        except Brk:
            return
        if test():
            raise Pruned()
        I.block(s.orelse, fr)


class Join(Invariant):
    """An assertion at the end of one compound statement: every path through the statement has to establish facts(I, fr);
    what follows is executed once, from arbitrary values of the names it assigns that satisfy the facts."""

    def __init__(self, g, name, wants, facts):
        super().__init__(g, name, None, lambda I, fr, c: facts(I, fr))
        self._wants, self.facts, self.busy = wants, facts, False

    def wants(self, s, fr):
        return not self.busy and self._wants(s, fr)

    def run(self, I, s, fr, ex):
        names = sorted({x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        if not I.rerun and not self.again(I, 'join'):
            mark, npc = len(I.log), len(I.pc)

            def thunk():
                m = len(I.log)
                ex(s, fr)
                for k, v in I.delta(m).items():
                    if not (v[0] == 'd' and v[1] is fr.vars and v[2] in names):
                        raise Unsupported('an effect on something else at a join')
                self.obligations(I, fr, None, 'at the join')
                raise Pruned()
            self.busy = True
            try:
                I.enum(thunk)
            except Pruned:
                pass
            else:
                raise Unsupported('a statement with a join is left')
            finally:
                self.busy = False
                del I.pc[npc:]
                I.rollback(mark)
        for x in names:
            I.set(fr.vars, x, T.fresh(x, 'R'))
        for what, x in self.facts(I, fr):
            I.assume(x)
