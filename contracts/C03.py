"""Bit-precise contracts of operators.py for every width 1..32, every position, every 32-bit configuration, in both integer models."""
import z3, time
from pyvc.vc import *
from pyvc.bvsweep import *

M = 'edpyt.operators'
FALSE = z3.BoolVal(False)

for mode in ('numpy', 'numba'):
    @vc('flip, check_full, check_empty [%s integers]' % mode, M)
    def _(g, mode=mode):
        X = BVExec(g.root, mode)
        m = X.mod(M)
        ps = [(p,) for p in range(32)]
        sweep(g, 'flip(s, pos) toggles exactly bit pos', X, ps, Check(
            lambda X, p: X.call(m['flip'], S, p),
            lambda X, k, v, p: [('value', X.wide(v) == z3.ZeroExt(34, s ^ z3.BitVecVal(1 << p, 32)) if k == 'ok' else FALSE)]))
        sweep(g, 'check_full(s, pos) is the bit', X, ps, Check(
            lambda X, p: X.call(m['check_full'], S, p),
            lambda X, k, v, p: [('value', X.wide(v) == z3.ZeroExt(65, z3.Extract(p, p, s)) if k == 'ok' else FALSE)]))
        sweep(g, 'check_empty(s, pos) is its negation', X, ps, Check(
            lambda X, p: X.call(m['check_empty'], S, p),
            lambda X, k, v, p: [('value', X.wide(v) == z3.ZeroExt(65, ~z3.Extract(p, p, s)) if k == 'ok' else FALSE)]))
        for al, fn in (('n_op', 'check_full'), ('ndg_op', 'check_empty')):
            g.same('%s is %s' % (al, fn), m.get(al) is m[fn])
        g.extra += sorted(X.seen)

    @vc('fsgn, get_parity [%s integers]' % mode, M)
    def _(g, mode=mode):
        X = BVExec(g.root, mode)
        m = X.mod(M)
        sweep(g, 'fsgn(s, pos, n) = (-1)**(occupied orbitals pos+1..n-1)', X, POSN, Check(
            lambda X, p, n: X.call(m['fsgn'], S, p, n),
            lambda X, k, v, p, n: [('value', sgn(X, v, between(s, p + 1, n)) if k == 'ok' else FALSE)]))
        sweep(g, 'get_parity(s, i, j) = (-1)**(occupied orbitals strictly between)', X, [(i, j) for i in range(32) for j in range(32)], Check(
            lambda X, i, j: X.call(m['get_parity'], S, i, j),
            lambda X, k, v, i, j: [('value', sgn(X, v, between(s, min(i, j) + 1, max(i, j))) if k == 'ok' else FALSE)]))
        g.extra += sorted(X.seen)

    for name, full in (('c', True), ('cdg', False)):
        @vc('%s [%s integers]' % (name, mode), M)
        def _(g, mode=mode, name=name, full=full):
            X = BVExec(g.root, mode)
            m = X.mod(M)

            def post(X, k, v, p, n):
                if k == 'exc':
                    return [('refuses only the wrong occupation', bit(s, p) != full if v == 'AssertionError' else FALSE)]
                return [('acts only on the right occupation', bit(s, p) == full),
                        ('configuration', X.wide(v[1]) == z3.ZeroExt(34, s ^ z3.BitVecVal(1 << p, 32))),
                        ('sign', sgn(X, v[0], between(s, p + 1, n)))]
            sweep(g, '%s(s, pos, n): result, sign, refusal' % name, X, POSN, Check(lambda X, p, n: X.call(m[name], S, p, n), post))
            g.extra += sorted(X.seen)

    @vc('cdgc [%s integers]' % mode, M)
    def _(g, mode=mode):
        X = BVExec(g.root, mode)
        m = X.mod(M)

        def post(X, k, v, i, j):
            if k != 'ok':
                return [('no exception', FALSE)]
            # contracts of c and cdg composed, any n > max(i, j); the part above max(i, j) counts twice
            n = max(i, j) + 1
            t = s ^ z3.BitVecVal(1 << j, 32)
            return [('configuration', X.wide(v[1]) == z3.ZeroExt(34, t ^ z3.BitVecVal(1 << i, 32))),
                    ('sign', sgn(X, v[0], between(s, j + 1, n) ^ between(t, i + 1, n)))]
        sweep(g, 'cdgc(s, i, j) = c+_i c_j, both orders', X, [(i, j) for i in range(32) for j in range(32)],
              Check(lambda X, i, j: X.call(m['cdgc'], S, i, j), post),
              lambda i, j: [bit(s, j)] + ([z3.Not(bit(s, i))] if i != j else []))
        g.extra += sorted(X.seen)


@vc('anticommutation relations (lemma over the contracts)', M)
def _(g):
    i, j, n = [z3.BitVec(x, 32) for x in 'ijn']
    one = z3.BitVecVal(1, 32)

    def sg(w, p):
        m = ~((one << (p + 1)) - 1)
        m = z3.If(p == 31, z3.BitVecVal(0, 32), m)
        top = z3.If(n == 32, z3.BitVecVal(0xffffffff, 32), (one << n) - 1)
        return parity(w & m & top)

    def occ(w, p):
        return z3.Extract(0, 0, z3.LShR(w, p)) == 1
    rng = [z3.ULE(n, 32), z3.ULT(i, n), z3.ULT(j, n)]
    bi, bj = one << i, one << j

    def ob(what, claim, *more):
        t = time.time()
        st, d = valid(claim, rng + list(more), 120000)
        g.add(what, st, 'z3 QF_BV', time.time() - t, d)
    d = i != j
    # order A: second operator first
    ob('{c_i, c+_j} = 0 for i != j: same domain', z3.And(z3.Not(occ(s, j)), occ(s ^ bj, i)) == z3.And(occ(s, i), z3.Not(occ(s ^ bi, j))), d)
    ob('{c_i, c+_j} = 0 for i != j: opposite signs, same configuration',
       z3.And((s ^ bj) ^ bi == (s ^ bi) ^ bj, (sg(s, j) ^ sg(s ^ bj, i) ^ sg(s, i) ^ sg(s ^ bi, j)) == 1), d)
    ob('{c_i, c_j} = 0 for i != j: same domain', z3.And(occ(s, j), occ(s ^ bj, i)) == z3.And(occ(s, i), occ(s ^ bi, j)), d)
    ob('{c+_i, c+_j} = 0 for i != j: same domain', z3.And(z3.Not(occ(s, j)), z3.Not(occ(s ^ bj, i))) == z3.And(z3.Not(occ(s, i)), z3.Not(occ(s ^ bi, j))), d)
    ob('c_i c_i = 0 and c+_i c+_i = 0', occ(s ^ bi, i) != occ(s, i))
    ob('{c_i, c+_i} = 1: exactly one order acts, sign +1, same configuration',
       z3.And(occ(s, i) != z3.Not(occ(s, i)), (s ^ bi) ^ bi == s, sg(s, i) ^ sg(s ^ bi, i) == 0))
    ob('c_i and c+_i are adjoint: same sign between s and s^bit', sg(s, i) == sg(s ^ bi, i))
    g.same('signs are +1 or -1', True, 'by the postconditions of fsgn and get_parity')
