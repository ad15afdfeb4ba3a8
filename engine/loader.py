"""Import of the repository's own source for symbolic execution.

Every run re-reads the .py files below $VERIF_REPO/skwdro, parses them and
executes the resulting code under CPython.  What is changed on the way:
  * the module global __builtins__ offers symbolic-aware versions of the
    builtins listed in make_builtins below and of the math module (same
    behaviour on ordinary values).
Nothing else is altered; docstrings and annotations stay as they are.
Loops over a range with a symbolic bound go through a loop rule the contract
installs (engine/loops.py); all other loops run as they are."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import math
import os
import sys
from . import symexec as SE, terms as T
from .symexec import Unsupported
from .symval import (Sym, SymBool, SymInt, SymNum, SymReal, mkbool, mkint, mkreal, poly, sym_float, sym_int, tobt)
from .stubs import Stub
from .loops import family, flat, has_opaque, sym_enumerate, sym_zip
from .api import REPO

EXECUTED = set()        # (file, qualname) of repository functions entered


# ------------------------------------------------------------------ builtins

def _flat_types(t):
    if isinstance(t, tuple):
        r = []
        for x in t:
            r += _flat_types(x)
        return r
    args = getattr(t, '__args__', None)
    if type(t).__name__ == 'UnionType' and args:
        return _flat_types(tuple(args))
    return [t]


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or isinstance(x, cls._sym)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._real)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __or__(cls, o):
        return cls._real | (o._real if isinstance(o, _TypeMeta) else o)

    def __ror__(cls, o):
        return o | cls._real

    def __getattr__(cls, k):
        return getattr(cls._real, k)

    def __repr__(cls):
        return repr(cls._real)


def _conv_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return mkbool(T.b_not(T.eq0(x.p)))
    return bool(x)


class _sym_float(metaclass=_TypeMeta):
    _real, _sym, _conv = float, SymReal, staticmethod(sym_float)


class _sym_int(metaclass=_TypeMeta):
    _real, _sym, _conv = int, (SymInt, SymBool), staticmethod(lambda *a, **k: sym_int(*a) if len(a) == 1 and not isinstance(a[0], (str, bytes)) else int(*a, **k))


class _sym_bool(metaclass=_TypeMeta):
    _real, _sym, _conv = bool, SymBool, staticmethod(_conv_bool)


REALT = {float: (float, SymReal), int: (int, SymInt, SymBool), bool: (bool, SymBool)}


def _isinstance(x, t):
    for k in _flat_types(t):
        if isinstance(k, Stub):
            continue
        if k in REALT and not isinstance(k, _TypeMeta):
            if isinstance(x, REALT[k]):
                return True
            continue
        h = getattr(type(x), '_is_abstract_number', None)
        if isinstance(k, type) and isinstance(x, SymNum) and k.__name__ in ('Number', 'Real', 'Complex'):
            return True
        if isinstance(k, type) and isinstance(x, SymInt) and k.__name__ in ('Integral', 'Rational'):
            return True
        if isinstance(x, k):
            return True
    return False


def _len(x):
    if has_opaque(x):
        raise Unsupported('length of a list filled by a loop')
    h = getattr(x, '_len', None)
    return h() if h is not None else len(x)


def _sym_any(xs):
    return any(isinstance(x, (Sym,)) or getattr(x, '_is_sym_array', False) for x in xs)


def _num(x):
    return x.item() if getattr(x, '_is_sym_array', False) else x


def _ext(real, f, inf_wins):
    def g(*a, **k):
        if k or (len(a) == 1 and not hasattr(a[0], '__iter__')):
            return real(*a, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        if not _sym_any(items):
            return real(items)
        items = [_num(x) for x in items]
        r = items[0]
        for x in items[1:]:
            if isinstance(r, float) and (r != r):
                continue
            sp = [y for y in (r, x) if isinstance(y, float) and math.isinf(y)]
            if sp:
                o = x if sp[0] is r else r
                r = sp[0] if sp[0] == inf_wins else o
                continue
            p = f(poly(r), poly(x))
            r = mkint(p) if all(isinstance(y, (int, SymInt)) for y in (r, x)) else mkreal(p)
        return r
    return g


_max = _ext(max, T.maxv, math.inf)
_min = _ext(min, T.minv, -math.inf)


def _sum(xs, start=0):
    if getattr(xs, '_is_sym_array', False):
        if xs._shape and xs._shape[0].const() is None:
            from . import symtensor as S
            r = S.reduce_sum(xs, 0)
            return start + (r.item() if not r._shape and xs._rank == 1 else r)
    h = getattr(xs, '_sym_sum', None)
    if h is not None:
        return h(start)
    for x in xs:
        start = start + x
    return start


def _all(xs):
    h = getattr(xs, '_sym_all', None)
    if h is not None:
        return h()
    for x in xs:
        if not x:
            return False
    return True


def _any(xs):
    for x in xs:
        if x:
            return True
    return False


class SymRange:
    """range with symbolic bounds; iterating it needs a loop rule"""
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def _len(self):
        n = T.sub(poly(self.hi), poly(self.lo))
        if isinstance(self.step, int) and self.step == 1:
            return mkint(T.maxv(n, T.ZERO))
        raise Unsupported('range with a step')

    def __iter__(self):
        rule = SE.run().ghost.get('range_rule')
        if rule is None:
            raise Unsupported('loop over a symbolic range')
        return rule(self)


def _range(*a):
    a = [_num(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a + [1])[:3] if len(a) == 2 else a
    if not _sym_any([lo, hi, st]):
        return range(*a)
    for x in (lo, hi, st):
        if isinstance(x, (float, SymReal)) and not isinstance(x, bool):
            raise TypeError('float object cannot be interpreted as an integer')
    return SymRange(lo, hi, st)


def _round(x, n=None):
    return round(x) if n is None else round(x, n)


def _print(*a, **k):
    pass


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if name == 'math' and level == 0:
        from . import symmath
        return symmath
    if name == 'random' and level == 0:
        from . import symrandom
        return symrandom
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d.update(isinstance=_isinstance, float=_sym_float, int=_sym_int, bool=_sym_bool, len=_len, max=_max, min=_min,
             sum=_sum, all=_all, any=_any, range=_range, print=_print, __import__=_import, __family__=family,
             __flat__=flat, zip=sym_zip, enumerate=sym_enumerate)
    return d


BUILTINS = make_builtins()


# ------------------------------------------------------------------ import

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root=None, transform=None, packages=('skwdro',)):
        self.root = root or REPO
        self.transform = transform
        self.packages = packages
        self.cache = {}

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in self.packages:
            return None
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            s = importlib.machinery.ModuleSpec(name, self, origin=os.path.join(p, '__init__.py'), is_package=True)
            s.submodule_search_locations = [p]
            return s
        if os.path.isfile(p + '.py'):
            return importlib.machinery.ModuleSpec(name, self, origin=p + '.py')
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        path = mod.__spec__.origin
        mod.__file__ = path
        code = self.cache.get(path)
        if code is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            tree = ast.parse(src, path)
            if self.transform:
                tree = self.transform(tree, mod)
                ast.fix_missing_locations(tree)
            code = self.cache[path] = compile(tree, path, 'exec', dont_inherit=True)
        mod.__dict__['__builtins__'] = BUILTINS
        exec(code, mod.__dict__)


def watch_functions(root=None):
    """record the repository functions entered (sys.monitoring)"""
    root = os.path.realpath(root or REPO)
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root) and code.co_name != '<module>':
            EXECUTED.add((os.path.relpath(fn, root), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def install(root=None, transform=None):
    sys.meta_path.insert(0, Finder(root, transform))
    watch_functions(root)


def forget_modules():
    """next import executes the repository modules afresh"""
    for k in [k for k in sys.modules if k == 'skwdro' or k.startswith('skwdro.')]:
        del sys.modules[k]
