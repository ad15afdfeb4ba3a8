"""the math module, extended to symbolic reals (which are finite)"""
import math as _m
from . import terms as T
from .symexec import Unsupported
from .symval import SymNum, mkint, mkreal, poly, sym_int


def _num(x):
    return x.item() if getattr(x, '_is_sym_array', False) else x


def _one(f, g):
    def h(x):
        x = _num(x)
        return g(x) if isinstance(x, SymNum) else f(x)
    return h


isnan = _one(_m.isnan, lambda x: False)
isinf = _one(_m.isinf, lambda x: False)
isfinite = _one(_m.isfinite, lambda x: True)
exp = _one(_m.exp, lambda x: mkreal(T.exp(x.p)))
sqrt = _one(_m.sqrt, lambda x: _checked(x >= 0, lambda: mkreal(T.sqrt(x.p))))
fabs = _one(_m.fabs, lambda x: mkreal(T.absv(x.p)))
floor = _one(_m.floor, lambda x: x.__floor__())
ceil = _one(_m.ceil, lambda x: x.__ceil__())
trunc = _one(_m.trunc, lambda x: sym_int(x))


def _checked(ok, f):
    if not ok:
        raise ValueError('math domain error')
    return f()


def log(x, *base):
    x = _num(x)
    if not isinstance(x, SymNum) and not any(isinstance(b, SymNum) for b in base):
        return _m.log(x, *base)
    r = _checked(x > 0, lambda: mkreal(T.log(poly(x))))
    return r / log(base[0]) if base else r


def pow(x, y):
    x, y = _num(x), _num(y)
    return x ** y if isinstance(x, SymNum) or isinstance(y, SymNum) else _m.pow(x, y)


def __getattr__(k):
    f = getattr(_m, k)
    if not callable(f):
        return f

    def g(*a, **kw):
        if any(isinstance(_num(x), SymNum) for x in a):
            raise Unsupported(f'math.{k}')
        return f(*a, **kw)
    return g
