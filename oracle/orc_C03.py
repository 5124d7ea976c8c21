import numpy as np
from common import *
O = 'edpyt.operators'


def act(name, s, i, n):
    """(sign, word) or None when refused"""
    f = get(O, name)
    try:
        sg, w = f(np.uint32(s), i, n)
    except AssertionError:
        return None
    return int(sg), int(w)


def ref(name, s, i, n):
    occ = (s >> i) & 1
    if (name == 'c') != bool(occ):
        return None
    return (-1) ** popcount(s >> (i + 1) & ((1 << (n - i - 1)) - 1)), s ^ (1 << i)


def single(T, s, i, n):
    for nm in ('c', 'cdg'):
        a, b = act(nm, s, i, n), ref(nm, s, i, n)
        ok((a is None) == (b is None), '%s_%d on %s: %s' % (nm, i, bin(s), 'refused' if a is None else 'accepted'))
        if a is not None:
            same(a[1], b[1], '%s_%d on %s moves' % (nm, i, bin(s)))
            ok(a[0] in (1, -1), 'sign %r' % a[0])
    same(int(bool(get(O, 'check_full')(np.uint32(s), i))), (s >> i) & 1, 'check_full')
    same(int(bool(get(O, 'check_empty')(np.uint32(s), i))), 1 - ((s >> i) & 1), 'check_empty')
    same(int(get(O, 'n_op')(np.uint32(s), i)), (s >> i) & 1, 'n_op')
    same(int(get(O, 'ndg_op')(np.uint32(s), i)), 1 - ((s >> i) & 1), 'ndg_op')
    same(int(get(O, 'flip')(np.uint32(s), i)), s ^ (1 << i), 'flip')
    same(int(get(O, 'fsgn')(np.uint32(s), i, n)), (-1) ** popcount((s & ((1 << n) - 1)) >> (i + 1)), 'fsgn')


def compose(s, ops, n):
    sg = 1
    for nm, i in ops:
        r = act(nm, s, i, n)
        if r is None:
            return 0, None
        sg *= r[0]
        s = r[1]
    return sg, s


def algebra(T, s, i, j, n):
    """anticommutators on |s>: c_i c+_j + c+_j c_i = delta, etc.; adjointness"""
    for A, B in (('c', 'cdg'), ('c', 'c'), ('cdg', 'cdg')):
        v = {}
        for ops in (((B, j), (A, i)), ((A, i), (B, j))):
            sg, w = compose(s, ops, n)
            if sg:
                v[w] = v.get(w, 0) + sg
        v = {k: x for k, x in v.items() if x}
        want = {s: 1} if (A != B and i == j) else {}
        same(v, want, '{%s_%d,%s_%d} on %s (n=%d)' % (A, i, B, j, bin(s), n))
    r = act('cdg', s, i, n)
    if r is not None:
        same(act('c', r[1], i, n), (r[0], s), 'adjoint of cdg_%d' % i)


def hop(T, s, i, j, n):
    f = get(O, 'cdgc')
    sg, w = compose(s, (('c', j), ('cdg', i)), n)
    if sg:
        a, b = f(np.uint32(s), i, j)
        same((int(a), int(b)), (sg, w), 'c+_%d c_%d on %s (n=%d)' % (i, j, bin(s), n))


def parity(T, s, i, j):
    f = get(O, 'get_parity')
    lo, hi = min(i, j), max(i, j)
    same(int(f(np.uint32(s), i, j)), (-1) ** popcount((s >> (lo + 1)) & ((1 << (hi - lo - 1)) - 1)), 'parity between %d and %d of %s' % (i, j, bin(s)))


def main(T):
    rs = np.random.RandomState(T.seed)
    for n in range(1, 6 if T.thorough else 5):
        for s in range(1 << n):
            for i in range(n):
                T.run(single, s=s, i=i, n=n)
                for j in range(n):
                    T.run(algebra, s=s, i=i, j=j, n=n)
                    if i != j:
                        T.run(hop, s=s, i=i, j=j, n=n)
                        T.run(parity, s=s, i=i, j=j)
    for k in range(4000 if T.thorough else 600):
        n = int(rs.randint(5, 33))
        s = int(rs.randint(0, 2 ** 32)) & ((1 << n) - 1)
        i, j = [int(x) for x in rs.randint(0, n, 2)]
        T.run(single, s=s, i=i, n=n)
        T.run(algebra, s=s, i=i, j=j, n=n)
        if i != j:
            T.run(hop, s=s, i=i, j=j, n=n)
            T.run(parity, s=s, i=i, j=j)
    for s in (2 ** 32 - 1, 2 ** 31, 0, 1, 0xAAAAAAAA):
        for i, j in ((31, 0), (0, 31), (31, 30), (15, 31), (31, 31)):
            T.run(single, s=s, i=i, n=32)
            T.run(algebra, s=s, i=i, j=j, n=32)
            if i != j:
                T.run(hop, s=s, i=i, j=j, n=32)
