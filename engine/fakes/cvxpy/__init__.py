"""Assumed contract of cvxpy: expressions are real functions of the variables, a solved problem leaves in its variables a
minimiser of exactly the objective and constraints it was built from.  The minimiser's entries are the symbols the variables
stand for, so what a caller reads back from a solved variable is tied to the program it posed."""
import numpy as np
from engine import symtensor as S, terms as T, symexec as SE
from engine.loops import ForEach
from engine.symexec import Unsupported
from engine.symtensor import El
from engine.symval import Sym, mkreal, poly

ECOS, SCS, CLARABEL, OSQP, CVXOPT = 'ECOS', 'SCS', 'CLARABEL', 'OSQP', 'CVXOPT'
OPTIMAL, OPTIMAL_INACCURATE = 'optimal', 'optimal_inaccurate'


def _single(x):
    return not isinstance(x, S.Arr) or all(d is T.ONE for d in x._shape)


class Expression(np.ndarray):
    _rank = 9

    @classmethod
    def _cls(cls):
        return Expression

    def _x(self, o):
        return isinstance(o, (S.Arr, Sym, int, float, list, tuple))

    def __mul__(self, o):
        if not self._x(o):
            return NotImplemented
        return super().__mul__(o) if _single(self) or _single(o) else S.matmul(self, o)

    def __rmul__(self, o):
        if not self._x(o):
            return NotImplemented
        return super().__rmul__(o) if _single(self) or _single(o) else S.matmul(o, self)

    def __le__(self, o):
        return Constraint('<=', self, o)

    def __ge__(self, o):
        return Constraint('<=', o, self)

    def __eq__(self, o):
        return Constraint('==', self, o)

    def __lt__(self, o):
        raise NotImplementedError('Strict inequalities are not allowed.')

    __gt__ = __lt__

    def __ne__(self, o):
        raise Unsupported('!= of an expression')

    __hash__ = S.Arr.__hash__

    def __bool__(self):
        raise Unsupported('truth of an expression')

    def _inplace(self, *a):
        raise Unsupported('in-place change of an expression')

    __setitem__ = _inplace

    def __iadd__(self, o):
        return self + o

    def __isub__(self, o):
        return self - o

    def __imul__(self, o):
        return self * o

    def __itruediv__(self, o):
        return self / o

    def item(self):
        raise Unsupported('item of an expression')

    @property
    def value(self):
        if not SE.run().ghost.get('programs'):
            return None
        r = np.ndarray._make(self._shape, self._numsnap(), S.float64)
        return r if self._shape else r.item()


def _expr(x):
    if isinstance(x, Expression):
        return x
    a = S.from_py(np.ndarray, x)
    return Expression._make(a._shape, a._numsnap(), S.float64)


Constant = _expr


class Variable(Expression):
    def __new__(cls, shape=(), name=None, nonneg=False, nonpos=False, pos=False, neg=False, **k):
        if any(v for v in k.values()):
            raise Unsupported('variable with special structure')
        r = SE.run()
        nm = r.name('cvxpy variable')
        fam = tuple(r.ghost.get('families', ()))
        sh = tuple(S.dimp(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        v = Expression._make(sh, lambda idx: El(T.elt(nm, fam + idx)), S.float64)
        v._varname = nm
        for on, c in ((nonneg or pos, lambda: v >= 0), (nonpos or neg, lambda: v <= 0)):
            if on:
                if fam:
                    raise Unsupported('family of variables with a sign')
                r.ghost.setdefault('signs', []).append(c())
        return v


class Constraint:
    def __init__(self, op, a, b):
        self.op, self.e = op, _expr(_expr(a) - b)

    def condition(self):
        f = T.le if self.op == '<=' else T.eq
        g = self.e._numsnap()

        def go(idx, rest):
            if rest:
                return T.forall(rest[0], lambda k: go(idx + (k,), rest[1:]))
            e = g(idx)
            if e.sp or e.fin is not T.TRUE:
                raise Unsupported('constraint that may not be finite')
            return f(e.v, T.ZERO)
        return go((), self.e._shape)

    def __bool__(self):
        raise Unsupported('truth of a constraint')


def _condition(c):
    if isinstance(c, ForEach):
        b = _condition(c.x)
        return T.forall(c.n, lambda i: T.subst(b, {c.k.m[0][0][0][0]: i}))
    if isinstance(c, Constraint):
        return c.condition()
    if isinstance(c, (list, tuple)):
        return T.b_and(*[_condition(x) for x in c])
    raise Unsupported(f'constraint of type {type(c).__name__}')


class _Objective:
    def __init__(self, e):
        self.e = _expr(e)
        if not _single(self.e):
            for d in self.e._shape:
                if not S.decide(T.eq(d, T.ONE)):
                    raise ValueError('The objective must resolve to a scalar.')

    @property
    def value(self):
        e = self.e._numsnap()(tuple(T.ZERO for _ in self.e._shape))
        if e.sp or e.fin is not T.TRUE:
            raise Unsupported('objective that may not be finite')
        return e.v


class Minimize(_Objective):
    sense = 'min'


class Maximize(_Objective):
    sense = 'max'


class Program:
    """what was handed over: sense, objective (as a minimisation) and the conjunction of the constraints"""
    def __init__(self, value, conditions):
        self.objective, self.feasible = value, T.b_and(*conditions)


class Problem:
    def __init__(self, objective, constraints=None):
        self.objective, self.constraints = objective, constraints if constraints is not None else []
        self.value, self.status = None, None

    def solve(self, *a, **k):
        v = self.objective.value
        s = T.scale(v, -1) if self.objective.sense == 'max' else v
        r = SE.run()
        cs = [_condition(c) for c in self.constraints] + [_condition(c) for c in r.ghost.get('signs', [])]
        r.ghost.setdefault('programs', []).append(Program(s, cs))
        self.value, self.status = mkreal(v), 'optimal'
        return self.value


# ------------------------------------------------------------------ functions

def sum(x, axis=None, keepdims=False):
    return S.reduce_sum(_expr(x), axis, keepdims)


def mean(x, axis=None, keepdims=False):
    return S.reduce_mean(_expr(x), axis, keepdims)


def norm(x, p=2, axis=None):
    x = _expr(x)
    if isinstance(p, str):
        p = {'inf': np.inf, 'fro': 2}.get(p, p)
    if len(x._shape) == 2 and axis is None and p not in (2, 'fro') or len(x._shape) > 2:
        raise Unsupported('matrix norm')
    return S.norm(x, p, axis)


pnorm = norm


def norm1(x):
    return norm(x, 1)


def norm2(x):
    return norm(x, 2)


def norm_inf(x):
    return norm(x, np.inf)


def _un(f):
    return lambda x: S.unary_f(f, _expr(x))


exp, log, sqrt, abs = _un(S.e_exp), _un(S.e_log), _un(S.e_sqrt), _un(S.e_abs)
logistic = _un(S.e_softplus)
square = lambda x: _expr(x) ** 2
neg = lambda x: maximum(-_expr(x), 0)
pos = lambda x: maximum(x, 0)
sum_squares = lambda x: sum(square(x))


def power(x, p):
    return _expr(x) ** p


def maximum(*xs):
    r = _expr(xs[0])
    for x in xs[1:]:
        r = S.binary(S.e_max, r, _expr(x))
    return r


def minimum(*xs):
    r = _expr(xs[0])
    for x in xs[1:]:
        r = S.binary(S.e_min, r, _expr(x))
    return r


def max(x, axis=None, keepdims=False):
    return S.reduce_max(_expr(x), axis, keepdims)


def min(x, axis=None, keepdims=False):
    return S.reduce_max(_expr(x), axis, keepdims, sign=-1)


def multiply(a, b):
    return S.binary(S.e_mul, _expr(a), _expr(b))


def matmul(a, b):
    return S.matmul(_expr(a), _expr(b))


def hstack(xs):
    xs = [_expr(x) for x in xs]
    xs = [S.unsqueeze(x, 0) if not x._shape else x for x in xs]
    return S.cat(xs, 0 if len(xs[0]._shape) == 1 else 1)


def reshape(x, shape, order='F'):
    if order != 'C' and len(shape) > 1:
        raise Unsupported('column-major reshape')
    return S.reshape(_expr(x), shape)


from engine.stubs import module_getattr as _mg
__getattr__ = _mg('cvxpy')
