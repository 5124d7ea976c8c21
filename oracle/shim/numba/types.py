import numpy as np


class Type:
    def __init__(self, name, dtype=None):
        self.name, self.dtype = name, dtype

    def __call__(self, *args):
        return Sig(self, args)

    def __getitem__(self, item):
        return Type(self.name + '[]')


class Sig:
    def __init__(self, ret, args):
        self.ret, self.args = ret, args


class _Array(Type):
    pass


def Array(dtype, ndim, layout, readonly=False, **k):
    return _Array('array')


float64 = Type('float64', np.float64)
float32 = Type('float32', np.float32)
uint32 = Type('uint32', np.uint32)
uint64 = Type('uint64', np.uint64)
int64 = Type('int64', np.int64)
int32 = Type('int32', np.int32)
boolean = Type('boolean', np.bool_)
complex128 = Type('complex128', np.complex128)
complex64 = Type('complex64', np.complex64)
void = Type('void')


def UniTuple(t, n):
    return Type('unituple')


def Tuple(ts):
    return Type('tuple')
