from numba import njit, jit  # noqa
