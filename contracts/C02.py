from pyvc.vc import *
from pyvc.loops import Houdini

L = 'edpyt.lookup'


def bit(x, i):
    return T.app('bit', x, i, sort='I')


@vc('count_bits', L)
def _(g):
    n = T.var('n')
    g.pre(T.cmp_le(0, n))
    s = T.var('s')
    g.eq('count_bits(s, n) = number of occupied orbitals', g.call(g.fnc(L, 'count_bits'), Word.of(s), n), ssum(n, lambda i: bit(s, i)))


@vc('get_spin_indices, get_state_index', L)
def _(g):
    dup, dwn, i = T.var('dup'), T.var('dwn'), T.var('i')
    f, h = g.fnc(L, 'get_spin_indices'), g.fnc(L, 'get_state_index')
    g.pre(T.cmp_le(1, dup), T.cmp_le(1, dwn), T.cmp_le(0, i), T.cmp_lt(i, dup * dwn))
    a, b = g.call(f, i, dup, dwn)
    g.true('the up index is in range', band(T.cmp_le(0, a), T.cmp_lt(a, dup)))
    g.eq('recombining gives the index back', g.call(h, a, b, dup), i)
    g.true('the down index is not negative', T.cmp_le(0, b))
    iu, idw = T.var('iu'), T.var('idw')
    g.pre(T.cmp_le(1, dup), T.cmp_le(1, dwn), in_range((iu, idw), (dup, dwn)))
    k = g.call(h, iu, idw, dup)
    a, b = g.call(f, k, dup, dwn)
    g.eq('splitting the recombined index gives the up index', a, iu)
    g.eq('splitting the recombined index gives the down index', b, idw)
    g.eq('i = iup + dup*idw', k, iu + idw * dup)


@vc('get_num_spins, get_sector_index', L)
def _(g):
    n, i, p, q = T.var('n'), T.var('i'), T.var('nup'), T.var('ndw')
    f, h = g.fnc(L, 'get_num_spins'), g.fnc(L, 'get_sector_index')
    g.I.trap = []
    g.pre(T.cmp_le(1, n), in_range((p, q), (n + 1, n + 1)))
    k = g.call(h, n, p, q)
    g.eq('sector number is nup*(n+1) + ndw', k, p * (n + 1) + q)
    a, b = g.call(f, k, n)
    g.eq('decoding gives nup', a, p)
    g.eq('decoding gives ndw', b, q)
    for pc, c, what in g.I.trap:
        g.true(what, c, *pc)
    g.I.trap = []
    g.pre(T.cmp_le(1, n), T.cmp_le(0, i), T.cmp_lt(i, (n + 1) * (n + 1)))
    a, b = g.call(f, i, n)
    g.true('ndw in range', band(T.cmp_le(0, b), T.cmp_le(b, n)))
    g.true('nup is not negative', T.cmp_le(0, a))
    g.eq('encoding gives the sector number back', g.call(h, n, a, b), i)


@vc('binsearch', L)
def _(g):
    n, s, k = T.var('n'), T.var('s'), T.var('k')
    a = sym('a', (n,), 'U')
    g.pre(T.cmp_le(0, n), T.cmp_lt(n, 2 ** 62), T.cmp_le(0, s))
    A = lambda x: T.app('a', x, sort='I')

    def cands(I, names, vals, fr):
        out = []
        for x, v in zip(names, vals):
            out.append(('-1 <= %s' % x, T.cmp_le(-1, v)))
            out.append(('0 <= %s' % x, T.cmp_le(0, v)))
            out.append(('%s <= n' % x, T.cmp_le(v, n)))
            out.append(('%s < n' % x, T.cmp_lt(v, n)))
            out.append(('%s = -1 or a[%s] <= s' % (x, x), bor(T.cmp_eq(v, -1), T.cmp_le(A(v), s))))
            out.append(('%s = n or a[%s] > s' % (x, x), bor(T.cmp_eq(v, n), T.cmp_lt(s, A(v)))))
            out.append(('%s = 0 or a[%s-1] <= s' % (x, x), bor(T.cmp_eq(v, 0), T.cmp_le(A(v - 1), s))))
            out.append(('%s = 0 or a[%s-1] < s' % (x, x), bor(T.cmp_eq(v, 0), T.cmp_lt(A(v - 1), s))))
            out.append(('%s = n or a[%s] >= s' % (x, x), bor(T.cmp_eq(v, n), T.cmp_le(s, A(v)))))
            out.append(('%s = n-1 or a[%s+1] > s' % (x, x), bor(T.cmp_eq(v, n - 1), T.cmp_lt(s, A(v + 1)))))
            for y, w in zip(names, vals):
                if x != y:
                    out.append(('%s < %s' % (x, y), T.cmp_lt(v, w)))
                    out.append(('%s <= %s' % (x, y), T.cmp_le(v, w)))
                    out.append(('%s <= %s + 1' % (x, y), T.cmp_le(v, w + 1)))
        return out

    h = Houdini(cands, lambda names, v: [x - y + 1 for x in v for y in v if x is not y])
    g.I.invariants[('binsearch', 0)] = h
    g.assume('binsearch: array elements and the searched word are compared as non-negative integers; array size below 2**62')
    f = g.fnc(L, 'binsearch')
    found = T.var('pos')
    ok = 0
    for pc, kind, r in g.run(lambda: g.I.call(f, [a, s])):
        if not g.same('returns', kind in ('ok', 'ret'), str(r)):
            continue
        r = g.I.num(r)
        # sortedness instantiated at the index terms of the state
        terms = [k]
        for b in g.S.gfacts:
            for at in b.atoms():
                for x in at.args[1].atoms() if at.kind == 'Iv' else ():
                    if x.kind == 'App' and x.args[0] == 'a':
                        terms.append(x.args[1])
        for at in r.atoms():
            if at.kind == 'Iv':
                for x in at.args[1].atoms():
                    if x.kind == 'App' and x.args[0] == 'a':
                        terms.append(x.args[1])
        terms = list({t.key(): t for t in terms}.values())
        srt = []
        for x in terms:
            for y in terms:
                if x is not y:
                    srt.append(bor(bnot(band(T.cmp_le(0, x), T.cmp_lt(x, y), T.cmp_lt(y, n))), T.cmp_lt(A(x), A(y))))
                    srt.append(bor(bnot(T.cmp_eq(x, y)), T.cmp_eq(A(x), A(y))))
        g.true('the result is -1 or a valid position', bor(T.cmp_eq(r, -1), in_range((r,), (n,))), *pc)
        g.true('an element that is present is found at its position', bor(bnot(in_range((k,), (n,))), bnot(T.cmp_eq(A(k), s)), T.cmp_eq(r, k)), *(pc + srt))
        # r >= 0 implies a[r] = s: case distinction over the values r can take
        q = T.var('q')
        srt2 = []
        for x in terms:
            srt2.append(bor(bnot(T.cmp_eq(x, q)), T.cmp_eq(A(x), A(q))))
        g.true('a position that is returned holds the element', bor(bnot(T.cmp_eq(r, q)), T.cmp_eq(q, -1), T.cmp_eq(A(q), s)), *(pc + srt2))
        ok += 1
    g.same('the search terminates (a decreasing measure)', bool(h.terminates), 'kept invariants: %s' % h.kept)


for _n in range(1, 33):
    @vc('binrep, intrep, n = %d' % _n, L)
    def _(g, n=_n):
        s = T.var('s')
        g.pre(T.cmp_le(0, s), T.cmp_lt(s, 2 ** n))
        r = g.call(g.fnc(L, 'binrep'), Word.of(s), n)
        if not g.shape('binrep has n entries', r, (n,)):
            return
        for k in range(n):
            if r.get(k) != bit(s, k):
                g.eq('binrep[%d] is bit %d' % (k, k), r.get(k), bit(s, k))
                return
        g.add('binrep(i, n)[k] is bit k', 'discharged', 'canonical form', 0., '%d entries' % n)
        T.BITLIKE.add('b')
        b = sym('b', (n,), 'B')
        r = g.call(g.fnc(L, 'intrep'), b)
        B_ = lambda k: T.app('b', k, sort='I')
        if isinstance(r, Word) and r.poly is None:
            bad = [k for k in range(40) if r.fn(lift(k)) != (B_(k) if k < n else lift(0))]
            g.eq('intrep(b) has bit k = b[k] and no other bit', r.fn(lift(bad[0])) - (B_(bad[0]) if bad[0] < n else 0) if bad else lift(0), 0)
        else:
            g.eq('intrep(b) is the number with the binary digits b', g.I.num(r), sum([2 ** k * B_(k) for k in range(n)], lift(0)))
