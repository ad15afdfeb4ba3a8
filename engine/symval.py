"""Symbolic scalars seen by the executed code."""
import math
from fractions import Fraction as Q
from . import terms as T
from . import symexec as SE
from .symexec import Unsupported

INF = math.inf


def isnum(x):
    return isinstance(x, (int, float, Q)) and not isinstance(x, bool) or isinstance(x, bool)


class Sym:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return SE.run().decide(self.b)

    def __invert__(self):
        return SymBool(T.b_not(self.b))

    def __and__(self, o):
        return mkbool(T.b_and(self.b, tobt(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(T.b_or(self.b, tobt(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(T.b_not(T.b_iff(self.b, tobt(o))))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(T.b_iff(self.b, tobt(o)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return self.b.id

    def item(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def __repr__(self):
        return f'SymBool({self.b!r})'

    def __add__(self, o):
        return SymInt(T.ite(self.b, T.ONE, T.ZERO)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(T.ite(self.b, T.ONE, T.ZERO)) * o
    __rmul__ = __mul__


def tobt(x):
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, bool):
        return T.to_bool(x)
    if isinstance(x, T.BT):
        return x
    r = getattr(x, '_as_bt', None)
    if r is not None:
        return r()
    raise Unsupported(f'not a boolean: {type(x)}')


def mkbool(b):
    if b is T.TRUE:
        return True
    if b is T.FALSE:
        return False
    return SymBool(b)


def special(x):
    return isinstance(x, float) and (x != x or x in (INF, -INF))


class SymNum(Sym):
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    # -- helpers
    def _o(self, o):
        """operand as Poly, or None if not a scalar number"""
        if isinstance(o, SymNum):
            return o.p
        if isinstance(o, bool):
            return T.ONE if o else T.ZERO
        if isinstance(o, (int, Q)):
            return T.P(o)
        if isinstance(o, float):
            return None if special(o) else T.P(o)
        if isinstance(o, SymBool):
            return T.ite(o.b, T.ONE, T.ZERO)
        h = getattr(o, '_npscalar', None)
        if h is not None:
            return T.P(h())
        return None

    def _res(self, o, p):
        isint = isinstance(self, SymInt) and (isinstance(o, (SymInt, bool)) or (isinstance(o, int)))
        return mkint(p) if isint else mkreal(p)

    def __add__(self, o):
        q = self._o(o)
        if q is None:
            return o if special(o) else NotImplemented
        return self._res(o, T.add(self.p, q))
    __radd__ = __add__

    def __sub__(self, o):
        q = self._o(o)
        if q is None:
            return -o if special(o) else NotImplemented
        return self._res(o, T.sub(self.p, q))

    def __rsub__(self, o):
        q = self._o(o)
        if q is None:
            return o if special(o) else NotImplemented
        return self._res(o, T.sub(q, self.p))

    def __mul__(self, o):
        q = self._o(o)
        if q is None:
            if special(o):
                return self._mulspecial(o)
            if isinstance(o, (list, tuple)) and isinstance(self, SymInt):
                raise Unsupported('list repetition')
            return NotImplemented
        return self._res(o, T.mul(self.p, q))
    __rmul__ = __mul__

    def _mulspecial(self, o):
        if o != o:
            return o
        if SymBool(T.lt(T.ZERO, self.p)):
            return o
        if SymBool(T.lt(self.p, T.ZERO)):
            return -o
        return math.nan

    def __truediv__(self, o):
        q = self._o(o)
        if q is None:
            if special(o):
                return math.nan if o != o else 0.0
            return NotImplemented
        if SymBoolTrue(T.eq0(q)):
            raise ZeroDivisionError('division by zero')
        return mkreal(T.div(self.p, q))

    def __rtruediv__(self, o):
        q = self._o(o)
        if q is None:
            if special(o):
                return self._mulspecial(o)
            return NotImplemented
        if SymBoolTrue(T.eq0(self.p)):
            raise ZeroDivisionError('division by zero')
        return mkreal(T.div(q, self.p))

    def __floordiv__(self, o):
        q = self._o(o)
        if q is None:
            return NotImplemented
        if self.p.sort == 'I' and q.sort == 'I':
            return mkint(T.idiv(self.p, q))
        return mkreal(T.floor(T.div(self.p, q)))

    def __rfloordiv__(self, o):
        q = self._o(o)
        if q is None:
            return NotImplemented
        return mkint(T.idiv(q, self.p)) if q.sort == 'I' and self.p.sort == 'I' else mkreal(T.floor(T.div(q, self.p)))

    def __mod__(self, o):
        q = self._o(o)
        if q is None:
            return NotImplemented
        if self.p.sort == 'I' and q.sort == 'I':
            return mkint(T.imod(self.p, q))
        raise Unsupported('real modulo')

    def __pow__(self, o):
        q = self._o(o)
        if q is None:
            if special(o):
                raise Unsupported('power inf')
            return NotImplemented
        c = q.const()
        if c is not None and c < 0 and SymBoolTrue(T.eq0(self.p)):
            raise ZeroDivisionError('0.0 cannot be raised to a negative power')
        return self._res(o, T.powr(self.p, q)) if (c is not None and c >= 0 and c.denominator == 1) else mkreal(T.powr(self.p, q))

    def __rpow__(self, o):
        q = self._o(o)
        if q is None:
            return NotImplemented
        return mkreal(T.powr(q, self.p))

    def __neg__(self):
        return self._res(1, T.scale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self._res(1, T.absv(self.p))

    # -- comparisons
    def _cmp(self, o, f, spec):
        q = self._o(o)
        if q is None:
            if special(o):
                return spec(o)
            return NotImplemented
        return mkbool(f(self.p, q))

    def __lt__(self, o):
        return self._cmp(o, T.lt, lambda s: s == INF)

    def __le__(self, o):
        return self._cmp(o, T.le, lambda s: s == INF)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: T.lt(b, a), lambda s: s == -INF)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: T.le(b, a), lambda s: s == -INF)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, T.eq, lambda s: False)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: T.b_not(T.eq(a, b)), lambda s: True)

    def __hash__(self):
        return self.p.id

    def __bool__(self):
        return SE.run().decide(T.b_not(T.eq0(self.p)))

    def __repr__(self):
        return f'{type(self).__name__}({self.p!r})'

    def __str__(self):
        return f'<{self.p!r}>'

    def __format__(self, spec):
        return f'<{self.p!r}>'

    def __index__(self):
        c = self.p.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported('symbolic integer used where a concrete one is needed')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = self.p.const()
        if c is not None:
            return float(c)
        raise Unsupported('symbolic real used where a concrete one is needed')

    def item(self):
        return self

    def is_integer(self):
        if self.p.sort == 'I':
            return True
        return mkbool(T.eq(T.floor(self.p), self.p))

    def __round__(self, n=None):
        raise Unsupported('round')

    def __floor__(self):
        return mkint(T.floor(self.p))

    def __ceil__(self):
        return mkint(T.scale(T.floor(T.scale(self.p, -1)), -1))

    def __trunc__(self):
        return sym_int(self)

    def copy(self):
        return self


def SymBoolTrue(b):
    """decide b on the current path (forks if needed)"""
    if b is T.TRUE:
        return True
    if b is T.FALSE:
        return False
    return SE.run().decide(b)


class SymInt(SymNum):
    __slots__ = ()


class SymReal(SymNum):
    __slots__ = ()

    def item(self):
        return self


def mkint(p):
    c = p.const()
    if c is not None and c.denominator == 1:
        return int(c)
    return SymInt(p)


def mkreal(p):
    c = p.const()
    if c is not None:
        f = float(c)
        if Q(repr(f)) == c:
            return f
    return SymReal(p)


def poly(x):
    """scalar -> Poly"""
    if isinstance(x, SymNum):
        return x.p
    if isinstance(x, SymBool):
        return T.ite(x.b, T.ONE, T.ZERO)
    if isinstance(x, T.Poly):
        return x
    if isinstance(x, (bool, int, Q)):
        return T.P(x)
    if isinstance(x, float):
        if special(x):
            raise Unsupported('special float as term')
        return T.P(x)
    h = getattr(x, '_scalar_poly', None)
    if h is not None:
        return h()
    raise Unsupported(f'not a scalar: {type(x).__name__}')


def sym_int(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        p = x.p
        if T.is_nn(p):
            return mkint(T.floor(p))
        if SymBoolTrue(T.le(T.ZERO, p)):
            return mkint(T.floor(p))
        return mkint(T.scale(T.floor(T.scale(p, -1)), -1))
    if isinstance(x, SymBool):
        return mkint(T.ite(x.b, T.ONE, T.ZERO))
    h = getattr(x, 'item', None)
    if h is not None and not isinstance(x, (int, float, str, bytes)):
        return sym_int(h())
    return int(x)


def sym_float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(x.p)
    if isinstance(x, SymBool):
        return mkreal(T.ite(x.b, T.ONE, T.ZERO))
    if isinstance(x, str):
        t = SE.run().ghost.get('numerals', {}).get(x.strip())
        return float(x) if t is None else t
    h = getattr(x, '_is_sym_array', None)
    if h is not None:
        return sym_float(x.item())
    return float(x)


class SymStr(str):
    """a string token whose text is the decimal writing of an arbitrary real"""
    def __new__(cls, text, value):
        s = str.__new__(cls, text)
        s.value = value
        return s

    def to_float(self):
        return self.value
