"""ctypes view of the C fit back end (rebuilt libfit.so of the scratch copy)."""
import ctypes as ct
import os
import numpy as np

D = ct.c_double
P = ct.POINTER(ct.c_double)
F1 = ct.CFUNCTYPE(D, D)
FN = ct.CFUNCTYPE(D, P)
GN = ct.CFUNCTYPE(None, P, P)
_lib = {}


def lib(root):
    if root not in _lib:
        L = ct.CDLL(os.path.join(root, 'edpyt_backend', 'libfit.so'))
        L.init_bath.argtypes = [P]; L.init_bath.restype = None
        L.eval_delta.argtypes = [P]; L.eval_delta.restype = None
        L.eval_ddelta.argtypes = [P]; L.eval_ddelta.restype = None
        L.eval_chi2.argtypes = [P]; L.eval_chi2.restype = D
        L.eval_dchi2.argtypes = [P, P]; L.eval_dchi2.restype = None
        L.mnbrak.argtypes = [P] * 6 + [F1]; L.mnbrak.restype = None
        L.dbrent.argtypes = [D, D, D, F1, F1, D, P]; L.dbrent.restype = D
        L.dlinmin.argtypes = [P, P, ct.c_int, P, FN, GN]; L.dlinmin.restype = None
        L.frprmn.argtypes = [P, ct.c_int, D, ct.POINTER(ct.c_int), P, FN, GN]; L.frprmn.restype = None
        L.fit.argtypes = [P, ct.POINTER(ct.c_int), P, ct.c_int, ct.c_int, P, D]; L.fit.restype = None
        _lib[root] = L
    return _lib[root]


def dp(a):
    return a.ctypes.data_as(P)


class Globals:
    """sets the back end's globals (nbath, nmats, z, vals_true, delta, ddelta) to own buffers"""

    def __init__(self, L, nbath, z, target):
        self.L = L
        self.n = 2 * nbath
        m = z.size
        self.z = np.array(z, complex)
        self.t = np.array(target, complex)
        self.d = np.full(m + 2, 7 + 7j)
        self.dd = np.full((m, self.n + 2), 7 + 7j)
        self.rows = (ct.c_void_p * m)(*[self.dd[i].ctypes.data for i in range(m)])
        ct.c_int.in_dll(L, 'nbath').value = nbath
        ct.c_int.in_dll(L, 'nmats').value = m
        for nm, v in (('z', self.z.ctypes.data), ('vals_true', self.t.ctypes.data), ('delta', self.d.ctypes.data),
                      ('ddelta', ct.addressof(self.rows))):
            ct.c_void_p.in_dll(L, nm).value = v
        self.m = m

    def guard(self):
        return (self.d[self.m:] == 7 + 7j).all() and (self.dd[:, self.n:] == 7 + 7j).all()
