from pyvc.vc import *


def bit(x, i):
    return T.app('bit', x, i, sort='I')


def spec_sep(H, V, n, mu, z, hf, su, sd):
    nu, nd = (lambda i: bit(su, i)), (lambda i: bit(sd, i))
    h = T.lift(0.5)
    r = ssum(n, lambda i: (H.get(0, i, i) + mu) * nu(i) + (H.get(1, i, i) + mu) * nd(i))
    if hf:
        r = r + ssum(n, lambda i: V.get(i, i) * (nu(i) - h) * (nd(i) - h))
    else:
        r = r + ssum(n, lambda i: V.get(i, i) * nu(i) * nd(i))
    return r + h * ssum(n, lambda i: ssum(n, lambda j: (1 - T.cmp_eq(i, j).poly()) * V.get(i, j)
                                           * (nu(i) + nd(i) - z(i)) * (nu(j) + nd(j) - z(j))))


def spec_N(H, V, n, mu, z, hf, s):
    nu, nd = (lambda i: bit(s, i)), (lambda i: bit(s, i + n))
    h = T.lift(0.5)
    r = ssum(n, lambda i: (H.get(0, i, i) + mu) * nu(i) + (H.get(1, i, i) + mu) * nd(i))
    if hf:
        r = r + ssum(n, lambda i: V.get(i, i) * (nu(i) - h) * (nd(i) - h))
    else:
        r = r + ssum(n, lambda i: V.get(i, i) * nu(i) * nd(i))
    return r + h * ssum(n, lambda i: ssum(n, lambda j: (1 - T.cmp_eq(i, j).poly()) * V.get(i, j)
                                           * (nu(i) + nd(i) - z(i)) * (nu(j) + nd(j) - z(j))))


def setup(g):
    n, dup, dwn = [T.var(x) for x in ('n', 'dup', 'dwn')]
    g.pre(T.cmp_le(1, n), T.cmp_le(1, dup), T.cmp_le(1, dwn))
    return n, dup, dwn, sym('H', (2, n, n)), sym('V', (n, n)), T.var('mu', 'R')


def frame(g, **arrs):
    for k, a in arrs.items():
        g.unchanged('%s is not modified' % k, a, k)


for _hf in (False, True):
    @vc('_build_ham_local, hfmode=%s' % _hf, 'edpyt.ham_local:_build_ham_local')
    def _(g, hf=_hf):
        n, dup, dwn, H, Vm, mu = setup(g)
        z, up, dw, out = sym('z', (n,)), sym('up', (dup,), 'U'), sym('dw', (dwn,), 'U'), sym('out', (dup * dwn,))
        f = g.fnc('edpyt.ham_local', '_build_ham_local')
        g.call(f, H, Vm, up, dw, out, z, hf, mu)
        a, b = T.fresh('iu'), T.fresh('id')
        g.eq('entry iu + id*dup is the energy of (up[iu], dw[id])', out.get(a + b * dup),
             spec_sep(H, Vm, n, mu, z.get, hf, up.get(a), dw.get(b)), in_range((a, b), (dup, dwn)))
        frame(g, H=H, V=Vm, z=z, up=up, dw=dw)

    @vc('_N_build_ham_local, hfmode=%s' % _hf, 'edpyt.ham_local:_N_build_ham_local')
    def _(g, hf=_hf):
        n, d, _, H, Vm, mu = setup(g)
        z, st, out = sym('z', (n,)), sym('st', (d,), 'U'), sym('out', (d,))
        f = g.fnc('edpyt.ham_local', '_N_build_ham_local')
        g.call(f, H, Vm, st, out, z, hf, mu)
        a = T.fresh('k')
        s = st.get(a)
        spec = spec_N(H, Vm, n, mu, z.get, hf, s)
        g.eq('entry k is the energy of states[k]', out.get(a), spec, in_range((a,), (d,)))
        frame(g, H=H, V=Vm, z=z, st=st)


def sector(g, rep, dup, dwn):
    mk = g.fnc('edpyt.espace', 'Sector')
    if rep == 'sz':
        st = g.do(lambda: g.I.call(g.fnc('edpyt.espace', 'SzStates'), [sym('up', (dup,), 'U'), sym('dw', (dwn,), 'U')]))
        d = dup * dwn
    else:
        st, d = sym('st', (dup,), 'U'), dup
    return g.do(lambda: g.I.call(mk, [st, d]))


for _rep in ('sz', 'N'):
    for _hf in (False, True):
        for _z in ('given', 'default'):
            @vc('build_ham_local, %s basis, hfmode=%s, z %s' % (_rep, _hf, _z), 'edpyt.ham_local:build_ham_local')
            def _(g, rep=_rep, hf=_hf, zz=_z):
                n, dup, dwn, H, Vm, mu = setup(g)
                sct = sector(g, rep, dup, dwn)
                f = g.fnc('edpyt.ham_local', 'build_ham_local')
                if zz == 'given':
                    z = sym('z', (n,))
                    r = g.call(f, H, Vm, sct, hf, mu, z)
                    zf = z.get
                else:
                    r = g.call(f, H, Vm, sct, hfmode=hf, mu=mu)
                    zf = lambda i: lift(1 if hf else 0)
                d = dup * dwn if rep == 'sz' else dup
                if not g.shape('one entry per basis state', r, (d,)):
                    return
                a, b = T.fresh('iu'), T.fresh('id')
                if rep == 'sz':
                    up, dw = T.app('up', a, sort='I'), T.app('dw', b, sort='I')
                    g.eq('entry iu + id*dup', r.get(a + b * dup), spec_sep(H, Vm, n, mu, zf, hf, up, dw), in_range((a, b), (dup, dwn)))
                else:
                    st = T.app('st', a, sort='I')
                    g.eq('entry k', r.get(a), spec_N(H, Vm, n, mu, zf, hf, st), in_range((a,), (d,)))
                frame(g, H=H, V=Vm)
                js = T.fresh('x')
                v = g.do(lambda: g.I.call(g.I.getattr(r, 'matvec'), [sym('v', (d,))]))
                g.array('matvec multiplies entry by entry', v, (d,), lambda x: r.get(x) * T.app('v', x))
                D = g.do(lambda: g.I.call(g.I.getattr(r, 'todense'), []))
                g.array('todense is the diagonal matrix', D, (d, d), lambda x, y: ite(T.cmp_eq(x, y), r.get(x), lift(0)))


@vc('sum_diags_contrib', 'edpyt.build_mb_ham:sum_diags_contrib')
def _(g):
    n = T.var('n')
    g.pre(T.cmp_le(1, n))
    e, s = sym('e', (n,)), sym('s', (1,), 'U')
    r = g.call(g.fnc('edpyt.build_mb_ham', 'sum_diags_contrib'), e, s.get(0))
    g.eq('sum of the energies of the occupied orbitals', r, ssum(n, lambda i: e.get(i) * bit(s.get(0), i)))


@vc('add_onsites', 'edpyt.build_mb_ham:add_onsites')
def _(g):
    n, dup, dwn, H, Vm, mu = setup(g)
    e, u = sym('e', (2, n)), sym('u', (n,))
    up, dw, out = sym('up', (dup,), 'U'), sym('dw', (dwn,), 'U'), sym('out', (dup * dwn,))
    g.call(g.fnc('edpyt.build_mb_ham', 'add_onsites'), e, u, up, dw, out, mu)
    a, b = T.fresh('iu'), T.fresh('id')
    su, sd = up.get(a), dw.get(b)
    g.eq('entry iu + id*dup', out.get(a + b * dup),
         ssum(n, lambda i: e.get(0, i) * bit(su, i) + e.get(1, i) * bit(sd, i) + u.get(i) * bit(su, i) * bit(sd, i)) + mu,
         in_range((a, b), (dup, dwn)))
    frame(g, e=e, u=u, up=up, dw=dw)
