"""Assumed contract of cvxopt.solvers.lp: x minimises c'x subject to G x <= h."""
import numpy as np
from engine import symtensor as S, terms as T, symexec as SE
from engine.symexec import Unsupported
from engine.symtensor import El
from engine.symval import mkreal


class matrix:
    def __init__(self, x, *a, **k):
        if a or k:
            raise Unsupported('matrix with a size')
        a = S.from_py(np.ndarray, x)
        if a.dtype.kind != 'f':
            raise TypeError('buffer format not supported')
        while len(a._shape) < 2:
            a = S.unsqueeze(a, len(a._shape))
        self.a = a

    def _values_array(self):
        return self.a

    @property
    def size(self):
        return tuple(self.a.shape)


class Program:
    def __init__(self, c, G, h):
        self.c, self.G, self.h = c, G, h


class _Solvers:
    def __init__(self):
        self.options = {}

    def lp(self, c, G, h, A=None, b=None, **k):
        if A is not None:
            raise Unsupported('equality constraints')
        r = SE.run()
        n = c.a._shape[0]
        if not S.same_dim(n, G.a._shape[1]) or not S.same_dim(G.a._shape[0], h.a._shape[0]):
            raise TypeError('incompatible dimensions')
        nm = r.name('cvxopt variable')
        p = Program(c.a, G.a, h.a)
        p.x = np.ndarray._make((n, T.ONE), lambda idx: El(T.elt(nm, (idx[0],))), S.float64)
        r.ghost.setdefault('programs', []).append(p)
        m = object.__new__(matrix)
        m.a = p.x
        v = np.sum(p.c * p.x)
        return {'x': m, 'primal objective': v, 'status': 'optimal'}

    def __getattr__(self, k):
        raise Unsupported(f'cvxopt.solvers.{k}')


solvers = _Solvers()
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('cvxopt')
