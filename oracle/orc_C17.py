import ctypes as ct
import numpy as np
from common import *
import backend


def check(e, v, nb, W, what):
    close(v, np.full(nb, max(0.1, 1 / np.sqrt(nb))), what + ': hoppings', 1e-12, 1e-12)
    ok(np.isfinite(e).all(), what + ': energy not filled')
    if nb >= 2:
        close(np.sort(e), np.sort(-e), what + ': particle-hole symmetry', 1e-12, 1e-12)
        close([e.min(), e.max()], [-W, W], what + ': span', 1e-12, 1e-12)
        if nb % 2 and nb >= 3:
            ok(np.abs(e).min() < 1e-12, what + ': no level at zero')


def python(T, nb, W, mode):
    f = get('edpyt.fit_cg', 'get_initial_bath')
    kw = {} if W == 2. and mode != 'w' else dict(bandwidth=W)
    if mode == 'p':
        p = np.full(2 * nb, np.nan)
        r = f(p=p, **kw)
        ok(r is p or np.shares_memory(r, p), 'a supplied array is not filled in place')
    else:
        p = f(nbath=nb, **kw)
    same(p.size, 2 * nb, 'size')
    check(p[:nb], p[nb:], nb, W, 'get_initial_bath(%d)' % nb)


def cinit(T, nb):
    L = backend.lib(T.root)
    x = np.full(2 * nb + 2, np.nan)
    x[2 * nb:] = 5.
    ct.c_int.in_dll(L, 'nbath').value = nb
    L.init_bath(backend.dp(x))
    check(x[:nb], x[nb:2 * nb], nb, 2., 'init_bath(%d)' % nb)
    close(x[2 * nb:], [5., 5.], 'memory behind the parameters', 0, 0)
    p = get('edpyt.fit_cg', 'get_initial_bath')(nbath=nb)
    if nb > 1:
        close(x[:2 * nb], p, 'C and Python initial bath', 1e-12, 1e-12)


def main(T):
    for nb in list(range(1, 45)) + [63, 64, 65, 77, 90, 99, 100, 101, 128, 255]:
        T.run(cinit, nb=nb)
        for W, mode in ((2., 'n'), (2., 'p'), (0.7, 'w'), (5., 'p')):
            T.run(python, nb=nb, W=W, mode=mode)
    if T.thorough:
        for nb in range(22, 400):
            T.run(cinit, nb=nb)
            T.run(python, nb=nb, W=1.3, mode='p')
