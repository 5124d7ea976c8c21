import numpy as np
from common import *
L = 'edpyt.lookup'


def rep_bits(T, word, n):
    f = get(L, 'binrep')
    a = f(word, n)
    same([int(x) for x in a], [(word >> k) & 1 for k in range(n)], 'bit array of %d' % word)
    s = f(word, n, 'string')
    same(str(s), ''.join(str((word >> k) & 1) for k in range(n)), 'bit string of %d' % word)


def rep_inverse(T, word, n):
    f, g = get(L, 'binrep'), get(L, 'intrep')
    same(int(g(f(word, n))), word, 'decode(encode(%d)) over %d orbitals, array' % (word, n))
    same(int(g(str(f(word, n, 'str')))), word, 'decode(encode(%d)) over %d orbitals, string' % (word, n))


def rep_badformat(T, fmt):
    f = get(L, 'binrep')
    try:
        f(3, 4, fmt)
    except ValueError:
        return
    raise Violation('format %r accepted' % fmt)


def bits(T, word, n):
    f = get(L, 'count_bits')
    same(int(f(np.uint32(word), n)), popcount(word & ((1 << n) - 1)), 'bit count of %d over %d' % (word, n))


def pair_index(T, dup, dwn):
    f, g = get(L, 'get_spin_indices'), get(L, 'get_state_index')
    seen = set()
    for i in range(dup * dwn):
        u, d = f(i, dup, dwn)
        ok(0 <= u < dup and 0 <= d < dwn, 'index %d splits out of range: %r' % (i, (u, d)))
        same((int(u), int(d)), (i % dup, i // dup), 'split of %d' % i)
        same(int(g(u, d, dup)), i, 'recombined index')
        seen.add((int(u), int(d)))
    ok(len(seen) == dup * dwn, 'not injective')


def pair_big(T, iup, idw, dup, dwn):
    f, g = get(L, 'get_spin_indices'), get(L, 'get_state_index')
    i = g(iup, idw, dup)
    same(int(i), iup + idw * dup, 'combined index')
    u, d = f(i, dup, dwn)
    same((int(u), int(d)), (iup, idw), 'split')


def sect_index(T, n):
    f, g = get(L, 'get_num_spins'), get(L, 'get_sector_index')
    for i in range((n + 1) ** 2):
        u, d = f(i, n)
        same((int(u), int(d)), (i // (n + 1), i % (n + 1)), 'sector %d' % i)
        same(int(g(n, u, d)), i, 'sector index')
    for u in range(n + 1):
        for d in range(n + 1):
            same(tuple(int(x) for x in f(g(n, u, d), n)), (u, d), 'pair')


def search(T, arr):
    f = get(L, 'binsearch')
    a = np.array(arr, np.uint32)
    pos = {int(x): i for i, x in enumerate(arr)}
    probes = set(arr) | {x + 1 for x in arr} | {max(x - 1, 0) for x in arr} | {0, 1, 2 ** 31, 2 ** 32 - 1}
    for s in sorted(probes):
        if s >= 2 ** 32:
            continue
        same(int(f(a, np.uint32(s))), pos.get(s, -1), 'position of %d in %r' % (s, arr[:20]))


def search_big(T, size, seed):
    rs = np.random.RandomState(seed)
    a = np.cumsum(rs.randint(1, 2 ** 32 // size - 1, size)).astype(np.uint32)
    f = get(L, 'binsearch')
    for i in sorted(set([0, 1, size // 2, size - 2, size - 1] + [int(x) for x in rs.randint(0, size, 60)])):
        same(int(f(a, a[i])), i, 'position of element %d of %d' % (i, size))
        s = int(a[i]) + 1
        if s < 2 ** 32 and (i + 1 == size or int(a[i + 1]) != s):
            same(int(f(a, np.uint32(s))), -1, 'a missing word after element %d of %d' % (i, size))


def search_basis(T, n, p):
    f = get(L, 'binsearch')
    a = np.array(words(n, p), np.uint32)
    for s in range(1 << n):
        w = -1 if popcount(s) != p else int(np.where(a == s)[0][0])
        same(int(f(a, np.uint32(s))), w, 'position of %d' % s)


def main(T):
    rs = np.random.RandomState(T.seed)
    for n in range(1, 7):
        for w in range(1 << n):
            T.run(rep_bits, word=w, n=n)
            T.run(rep_inverse, word=w, n=n)
            T.run(bits, word=w, n=n)
    for i in range(200):
        n = int(rs.randint(7, 33))
        w = int(rs.randint(0, 2 ** 32)) & ((1 << n) - 1)
        T.run(rep_bits, word=w, n=n)
        T.run(rep_inverse, word=w, n=n)
        T.run(bits, word=int(rs.randint(0, 2 ** 32)), n=n)
    for w in (2 ** 32 - 1, 2 ** 31, 1, 0, 0xAAAAAAAA, 0x55555555):
        T.run(rep_inverse, word=w, n=32)
        T.run(bits, word=w, n=32)
    for f in ('bits', '', 'int'):
        T.run(rep_badformat, fmt=f)
    for a in (1, 2, 3, 5, 8):
        for b in (1, 2, 4, 7):
            T.run(pair_index, dup=a, dwn=b)
    for i in range(100):
        a, b = [int(x) for x in rs.randint(1, 30000, 2)]
        T.run(pair_big, iup=int(rs.randint(0, a)), idw=int(rs.randint(0, b)), dup=a, dwn=b)
    for n in range(1, 12):
        T.run(sect_index, n=n)
    T.run(search, arr=[])
    T.run(search, arr=[0]); T.run(search, arr=[7]); T.run(search, arr=[2 ** 32 - 1])
    for i in range(150):
        k = int(rs.randint(1, 40))
        top = int(rs.choice([50, 1000, 2 ** 32 - 1]))
        T.run(search, arr=sorted(set(int(x) for x in rs.randint(0, top, k))))
    for size in (300, 5000, 70001, 300000):
        T.run(search_big, size=size, seed=size)
    for n in range(1, 9):
        for p in range(n + 1):
            T.run(search_basis, n=n, p=p)
