"""Assumed contracts of the numpy functions the repository uses (exact real
arithmetic)."""
import math as _math
from engine import symtensor as S, terms as T, symexec as SE
from engine.symexec import Unsupported
from engine.symval import Sym, SymBool, SymInt, SymNum, SymReal, mkbool, mkint, mkreal, poly
from engine.symtensor import (Arr, El, Size, dtype, float16, float32, float64, int8, int16, int32, int64, uint8, bool_,
                              NOLEAVES)
inf, nan, pi, e = _math.inf, _math.nan, _math.pi, _math.e
newaxis = None
__version__ = '1.26.4'


class generic:
    pass


class _Kind:
    def __init__(self, k):
        self.k = k


number, floating, integer, inexact = _Kind('if'), _Kind('f'), _Kind('i'), _Kind('f')
double = float_ = float64
int_ = intp = int64
object_ = 'object'


def issubdtype(a, b):
    a = S.as_dtype(a)
    if isinstance(b, _Kind):
        return a.kind in b.k
    return a == S.as_dtype(b)


def _sizes(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        return tuple(s[0])
    return tuple(s)


class ndarray(Arr):
    _rank = 1
    _default_float = float64
    _shape_error = ValueError
    _empty_error = ValueError

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    @classmethod
    def _cls(cls):
        return ndarray

    def __array__(self, *a):
        raise Unsupported('conversion to a real numpy array')

    @property
    def size(self):
        return self.numel()

    @property
    def nbytes(self):
        raise Unsupported('nbytes')

    def __getitem__(self, k):
        r = super().__getitem__(k)
        if hasattr(self, '_classes') and k == (slice(None), None):
            r._classes = self._classes
        return r

    def dot(self, o):
        return dot(self, o)

    def copy(self, *a):
        return self._copy()

    def __deepcopy__(self, memo):
        return self._copy()

    def __copy__(self):
        return self._copy()

    def reshape(self, *s, order='C'):
        return S.reshape(self, _sizes(s))

    def ravel(self, *a):
        return S.flatten(self)

    def flatten(self, *a):
        return S.flatten(self)._copy()

    def squeeze(self, axis=None):
        return S.squeeze(self, axis)

    def transpose(self, *p):
        p = _sizes(p)
        return S.permute(self, p if p else tuple(reversed(range(len(self._shape)))))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return sum(self, axis, dtype, out, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return mean(self, axis, dtype, out, keepdims)

    def max(self, axis=None, out=None, keepdims=False):
        return max(self, axis, out, keepdims)

    def min(self, axis=None, out=None, keepdims=False):
        return min(self, axis, out, keepdims)

    def any(self, axis=None):
        return any(self, axis)

    def all(self, axis=None):
        return all(self, axis)

    def argmax(self, axis=None):
        return argmax(self, axis)

    def argmin(self, axis=None):
        return argmin(self, axis)

    def astype(self, dt, copy=True):
        return S.cast(self, S.as_dtype(dt)) if S.as_dtype(dt) != self.dtype else self._copy()

    def fill(self, v):
        self._set_from(S.full(ndarray, (), v, self.dtype))

    def std(self, *a, **k):
        raise Unsupported('std')

    def tobytes(self):
        raise Unsupported('tobytes')

    def __contains__(self, x):
        return bool((self == x).any())


def _sc(r):
    """numpy returns scalars, not 0-d arrays"""
    if isinstance(r, ndarray) and not r._shape:
        return r.item()
    return r


def _a(x, dt=None):
    if isinstance(x, ndarray) and dt is None:
        return x
    return asarray(x, dt)


def array(x, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(x, Arr):
        r = x._copy(ndarray)
        r._leaves, r._rg = NOLEAVES, False
        if getattr(x, 'requires_grad', False):
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        if dtype is not None:
            r = S.cast(r, S.as_dtype(dtype))
        if hasattr(x, '_classes'):
            r._classes = x._classes
    else:
        if x is None:
            from engine.stubs import Stub
            return Stub('np.array(None)')
        if hasattr(x, '_values_array'):
            x = x._values_array()
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], str):
            return StrArray(x)
        r = S.from_py(ndarray, x, dtype)
    while len(r._shape) < ndmin:
        r = S.unsqueeze(r, 0)
    return r


class StrArray(list):
    @property
    def shape(self):
        return (len(self),)

    def __eq__(self, o):
        if isinstance(o, str):
            return S.from_py(ndarray, [x == o for x in self])
        return list.__eq__(self, o)


def asarray(x, dtype=None, order=None):
    if isinstance(x, ndarray) and (dtype is None or S.as_dtype(dtype) == x.dtype):
        return x
    return array(x, dtype)


ascontiguousarray = asanyarray = asarray


def zeros(shape, dtype=None, order=None):
    return S.full(ndarray, _sizes((shape,)), 0.0, S.as_dtype(dtype) or float64)


def ones(shape, dtype=None, order=None):
    return S.full(ndarray, _sizes((shape,)), 1.0, S.as_dtype(dtype) or float64)


def full(shape, v, dtype=None):
    return S.full(ndarray, _sizes((shape,)), v, S.as_dtype(dtype))


def empty(shape, dtype=None):
    sh = tuple(S.dimp(d) for d in _sizes((shape,)))
    nm = SE.run().name('empty')
    return ndarray._make(sh, lambda i: El(T.elt(nm, i)), S.as_dtype(dtype) or float64)


def zeros_like(x, dtype=None):
    return S.full(ndarray, tuple(mkint(d) for d in _a(x)._shape), 0.0, S.as_dtype(dtype) or _a(x).dtype)


def ones_like(x, dtype=None):
    return S.full(ndarray, tuple(mkint(d) for d in _a(x)._shape), 1.0, S.as_dtype(dtype) or _a(x).dtype)


def full_like(x, v, dtype=None):
    return S.full(ndarray, tuple(mkint(d) for d in _a(x)._shape), v, S.as_dtype(dtype) or _a(x).dtype)


def eye(n, m=None, dtype=None):
    return S.eye(ndarray, n, m, S.as_dtype(dtype) or float64)


identity = eye


def arange(*a, dtype=None):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a + (1,))[:3]
    return S.arange(ndarray, lo, hi, st, S.as_dtype(dtype))


def shape(x):
    return tuple(_a(x).shape)


def ndim(x):
    return len(_a(x)._shape)


def size(x, axis=None):
    x = _a(x)
    return x.numel() if axis is None else mkint(x._shape[axis])


def copy(x):
    return array(x)


def _axis(a, axis):
    return axis


def sum(x, axis=None, dtype=None, out=None, keepdims=False):
    return _sc(S.reduce_sum(_a(x), axis, keepdims))


def mean(x, axis=None, dtype=None, out=None, keepdims=False):
    x = _a(x)
    return _sc(S.reduce_mean(x if x.dtype.kind == 'f' else S.cast(x, float64), axis, keepdims))


average = mean


def max(x, axis=None, out=None, keepdims=False):
    return _sc(S.reduce_max(_a(x), axis, keepdims))


def min(x, axis=None, out=None, keepdims=False):
    return _sc(S.reduce_max(_a(x), axis, keepdims, sign=-1))


amax, amin = max, min


def all(x, axis=None, keepdims=False):
    return _sc(S.reduce_all(_a(x), axis, keepdims))


def any(x, axis=None, keepdims=False):
    return _sc(S.reduce_all(_a(x), axis, keepdims, neg=True))


def argmax(x, axis=None):
    return _sc(S.argext(_a(x), axis, False, 1))


def argmin(x, axis=None):
    return _sc(S.argext(_a(x), axis, False, -1))


def dot(a, b):
    if not isinstance(a, Arr) and not isinstance(b, Arr) and not isinstance(a, (list, tuple)):
        return a * b
    a, b = _a(a), _a(b)
    if not a._shape or not b._shape:
        return _sc(a * b)
    if len(b._shape) > 2:
        raise Unsupported('dot of high-rank arrays')
    return _sc(S.matmul(a, b))


def matmul(a, b):
    return _sc(S.matmul(_a(a), _a(b)))


def inner(a, b):
    a, b = _a(a), _a(b)
    return _sc(S.matmul(a, b.T))


def outer(a, b):
    return S.unsqueeze(S.flatten(_a(a)), 1) * S.unsqueeze(S.flatten(_a(b)), 0)


def einsum(eq, *ops):
    return _sc(S.einsum(eq, [_a(o) for o in ops]))


def _un(f):
    def g(x, *a, **k):
        return _sc(S.unary_f(f, _a(x)))
    return g


exp, log, sqrt = _un(S.e_exp), _un(S.e_log), _un(S.e_sqrt)
tanh = _un(S.e_fun(lambda p: T.fn('tanh', p)))
log1p = _un(lambda x: S.e_log(S.e_add(El(T.ONE), x)))
expm1 = _un(lambda x: S.e_sub(S.e_exp(x), El(T.ONE)))


def abs(x):
    return _sc(S.unary(S.e_abs, _a(x)))


absolute = fabs = abs


def sign(x):
    return _sc(S.unary(S.e_sign, _a(x)))


def square(x):
    return _sc(_a(x) * _a(x))


def power(a, b):
    return _sc(_a(a) ** b)


def negative(a):
    return _sc(-_a(a))


def maximum(a, b):
    return _sc(S.binary(S.e_max, _a(a), b if isinstance(b, Arr) else _a(b)))


def minimum(a, b):
    return _sc(S.binary(S.e_min, _a(a), b if isinstance(b, Arr) else _a(b)))


def add(a, b):
    return _sc(_a(a) + b)


def subtract(a, b):
    return _sc(_a(a) - b)


def multiply(a, b):
    return _sc(_a(a) * b)


def divide(a, b):
    return _sc(_a(a) / b)


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported('np.where with one argument')
    return S.where(_a(c), a, b)


def clip(x, lo=None, hi=None):
    return _sc(S.clamp(_a(x), lo, hi))


def isnan(x):
    if isinstance(x, float):
        return x != x
    return _sc(S.pred(S.e_isnan, _a(x)))


def isfinite(x):
    if isinstance(x, (int, float)):
        return _math.isfinite(x)
    return _sc(S.pred(S.e_isfinite, _a(x)))


def isinf(x):
    if isinstance(x, (int, float)):
        return _math.isinf(x)
    return _sc(S.pred(S.e_isinf, _a(x)))


def isscalar(x):
    return isinstance(x, (int, float, str, Sym))


def isclose(a, b, rtol=1e-5, atol=1e-8):
    return _sc(S.isclose(_a(a), b, rtol, atol))


def allclose(a, b, rtol=1e-5, atol=1e-8):
    return all(isclose(a, b, rtol, atol))


def array_equal(a, b):
    return all(_a(a) == _a(b))


def _two(t):
    t = _a(t)
    while len(t._shape) < 2:
        t = S.unsqueeze(t, 0)
    return t


def vstack(ts):
    return S.cat([_two(t) for t in ts], 0)


def _one(t):
    t = _a(t)
    return S.unsqueeze(t, 0) if not t._shape else t


def hstack(ts):
    ts = [_one(t) for t in ts]
    return S.cat(ts, 0 if len(ts[0]._shape) == 1 else 1)


def concatenate(ts, axis=0):
    return S.cat([_a(t) for t in ts], axis)


def column_stack(ts):
    ts = [_a(t) for t in ts]
    return S.cat([S.unsqueeze(t, 1) if len(t._shape) == 1 else t for t in ts], 1)


def stack(ts, axis=0):
    return S.stack([_a(t) for t in ts], axis)


def append(a, b, axis=None):
    if axis is None:
        return S.cat([S.flatten(_one(a)), S.flatten(_one(b))], 0)
    return S.cat([_a(a), _a(b)], axis)


def expand_dims(x, axis):
    return S.unsqueeze(_a(x), axis)


def squeeze(x, axis=None):
    return S.squeeze(_a(x), axis)


def reshape(x, s):
    return S.reshape(_a(x), _sizes((s,)))


def ravel(x):
    return S.flatten(_a(x))


def transpose(x, p=None):
    return _a(x).transpose(*(p or ()))


def repeat(x, n, axis=None):
    raise Unsupported('np.repeat')


def tile(x, reps):
    raise Unsupported('np.tile')


def broadcast_to(x, s):
    return S.expand(_a(x), _sizes((s,)))


def cumsum(x, axis=None):
    x = _a(x)
    return S.cumsum(S.flatten(x), 0) if axis is None else S.cumsum(x, axis)


def searchsorted(a, v, side='left'):
    """the row is taken to be sorted; a single number is placed"""
    from engine.symval import mkint
    v = _a(v)
    if v._shape:
        raise Unsupported('searchsorted of an array')
    return mkint(S.searchsorted(_a(a), v._numsnap()(()).v, side == 'right'))


def sort(x, axis=-1):
    return S.sort_values(_a(x), axis)


def quantile(x, q, axis=None, **k):
    return _sc(S.quantile(_a(x), q, axis))


def cov(x, **k):
    raise Unsupported('np.cov')


def unique(x, **k):
    raise Unsupported('np.unique')


def diag(x, k=0):
    x = _a(x)
    if len(x._shape) == 1:
        return S.eye(ndarray, mkint(x._shape[0])) * x
    return S.diag_part(x)


def atleast_1d(x):
    return _one(x)


def atleast_2d(x):
    return _two(x)


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class finfo:
    def __init__(self, d=None):
        self.eps, self.tiny, self.max = 2.0 ** -52, 2.2250738585072014e-308, 1.7976931348623157e308


from . import random, linalg
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('numpy')
