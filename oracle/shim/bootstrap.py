"""sys.modules set-up for running the real edpyt code: call `install(root)` first.

scipy.optimize aborts the interpreter of this sandbox, so a small stand-in is
installed before anything imports it."""
import sys
import types
import numpy as np


def _newton_like(f, x0, args=(), **k):
    """scalar root next to x0 (stand-in for fsolve): walks to the first sign change, then bisects."""
    x0 = float(np.ravel(x0)[0])
    g = lambda x: float(np.real(np.ravel(f(np.array([x]), *args))[0]))
    f0 = g(x0)
    if f0 == 0:
        return np.array([x0])
    h = 1e-7
    s = 1. if (g(x0 + h) - g(x0 - h)) * f0 < 0 else -1.
    a, d = x0, 1e-9
    for _ in range(4000):
        b = x0 + s * d
        if g(b) * f0 <= 0:
            break
        a, d = b, d * 1.02
    lo, hi, fl = a, b, f0
    for _ in range(80):
        m = 0.5 * (lo + hi)
        if g(m) * f0 > 0:
            lo = m
        else:
            hi = m
    return np.array([0.5 * (lo + hi)])


def _brentq(f, a, b, tol=1e-13):
    fa, fb = f(a), f(b)
    if fa == 0:
        return a
    if fb == 0:
        return b
    if fa * fb > 0:
        raise ValueError('f(a) and f(b) must have different signs')
    for _ in range(400):
        m = 0.5 * (a + b)
        fm = f(m)
        if fm == 0 or abs(b - a) < tol:
            return m
        if fa * fm < 0:
            b, fb = m, fm
        else:
            a, fa = m, fm
    return 0.5 * (a + b)


class _Root:
    def __init__(self, r):
        self.root = r
        self.converged = True


def root_scalar(f, bracket=None, method=None, **k):
    return _Root(_brentq(f, *bracket))


def fmin_cg(f, x0, fprime=None, disp=True, gtol=1e-5, maxiter=None, **k):
    x = np.array(x0, float)
    g = np.array(fprime(x), float)
    d = -g
    fx = f(x)
    for it in range(maxiter or 200 * x.size):
        if np.abs(g).max() <= gtol:
            break
        if d.dot(g) >= 0:
            d = -g
        t = 1.0
        sl = d.dot(g)
        while t > 1e-18:
            xn = x + t * d
            fn = f(xn)
            if fn <= fx + 1e-4 * t * sl:
                break
            t *= 0.5
        else:
            break
        gn = np.array(fprime(xn), float)
        beta = max(0., gn.dot(gn - g) / g.dot(g))
        d = -gn + beta * d
        x, g, fx = xn, gn, fn
    return x


def broyden1(F, xin, alpha=None, callback=None, **k):
    x = xin
    for _ in range(10000):
        r = F(x)
        x = x + (alpha or 0.5) * r
        if callback:
            callback(x, r)
    return x


def linearmixing(F, xin, iter=60, alpha=0.2, callback=None, **k):
    x = xin
    for _ in range(iter):
        r = F(x)
        x = x + alpha * r
        if callback:
            callback(x, r)
    return x


def install(root):
    so = types.ModuleType('scipy.optimize')
    so.fmin_cg = fmin_cg
    so.fsolve = _newton_like
    so.broyden1 = broyden1
    so.linearmixing = linearmixing
    so.root_scalar = root_scalar
    import scipy
    sys.modules['scipy.optimize'] = so
    scipy.optimize = so
    si = types.ModuleType('scipy.interpolate')

    class interp1d:
        def __init__(self, x, y, bounds_error=None, fill_value=np.nan, **k):
            self.x, self.y = np.asarray(x), np.asarray(y)

        def __call__(self, t):
            t = np.asarray(t)
            if np.iscomplexobj(self.y):
                return np.interp(t, self.x, self.y.real) + 1j * np.interp(t, self.x, self.y.imag)
            return np.interp(t, self.x, self.y)
    si.interp1d = interp1d
    sys.modules['scipy.interpolate'] = si
    scipy.interpolate = si
    ff = types.ModuleType('scipy.fftpack')
    ff.fft, ff.ifft, ff.fftfreq = np.fft.fft, np.fft.ifft, np.fft.fftfreq
    sys.modules['scipy.fftpack'] = ff
    scipy.fftpack = ff
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    for p in (here, root):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True
