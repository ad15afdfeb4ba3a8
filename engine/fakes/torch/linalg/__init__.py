from engine import symtensor as S, terms as T
from engine.symexec import Unsupported
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('torch.linalg')


def norm(a, ord=None, dim=None, keepdim=False, dtype=None, keepdims=False, axis=None):
    keepdim = keepdim or keepdims
    dim = axis if dim is None else dim
    if ord is not None and ord != 'fro' and dim is None and len(a._shape) == 2:
        raise Unsupported('matrix norm')
    if ord is not None and ord != 'fro' and isinstance(dim, (tuple, list)) and len(dim) == 2:
        raise Unsupported('matrix norm')
    return S.norm(a, 2 if ord is None else ord, dim, keepdim)


def vector_norm(a, ord=2, dim=None, keepdim=False, dtype=None, keepdims=False, axis=None):
    keepdim = keepdim or keepdims
    dim = axis if dim is None else dim
    return S.norm(a, ord, dim, keepdim)


def vecdot(a, b, dim=-1):
    return S.reduce_sum(a * b, dim)
