"""Harness interface, symbolic side: the contract's inputs are arbitrary
values of arbitrary size, its obligations go to the prover."""
import functools
import importlib
import math
from fractions import Fraction as Q
from . import terms as T, symexec as SE, symtensor as S, loader
from .symexec import PathEnd, Unsupported
from .symtensor import El
from .symval import Sym, SymBool, SymInt, SymNum, SymReal, mkbool, mkint, mkreal, poly, special, tobt


unprime = T.unprime


class RowFn:
    """arbitrary function of whole rows (a user's loss or model): out[.., c] = f(c, row of each input at .., parameters)"""

    def __init__(self, B, name, nn=False):
        self.B, self.name, self.nn = B, name, nn

    def value(self, c, *rows):
        return mkreal(T.row(self.name, (poly(c),), [(poly(n), lambda k, f=f: poly(f(mkint(k)))) for n, f in rows], nn=self.nn))

    def tensor(self, out, *ts, params=None):
        ts = [t for t in ts if t is not None]
        lead = ts[0]._shape[:-1]
        for t in ts:
            if not isinstance(t, self.B.pt.Tensor) or len(t._shape) == 0:
                raise RuntimeError('user function: tensor rows expected')
            if len(t._shape) != len(lead) + 1 or not all(S.same_dim(a, b) for a, b in zip(t._shape[:-1], lead)):
                raise RuntimeError('user function: inputs disagree on their leading dimensions')
        sn = [t._numsnap() for t in ts]
        ps = params._numsnap() if params is not None else None
        nl = len(lead)

        def fn(i):
            rows = [(t._shape[-1], lambda k, g=g: g(i[:nl] + (k,)).v) for t, g in zip(ts, sn)]
            fins = [T.forall(t._shape[-1], lambda k, g=g: g(i[:nl] + (k,)).fin) for t, g in zip(ts, sn)]
            if ps is not None:
                rows.append((params._shape[0], lambda k: ps((k,)).v))
                fins.append(T.forall(params._shape[0], lambda k: ps((k,)).fin))
            c = i[nl] if out is not None else T.ZERO
            return El(T.row(self.name, (c,), rows, nn=self.nn), T.b_and(*fins))
        leaves = S.leaves_of(*ts, *([params] if params is not None else []))
        return self.B.pt.Tensor._make(lead + (() if out is None else (S.dimp(out),)), fn, ts[0].dtype, leaves)


class SymB:
    symbolic = True
    inf, nan = math.inf, math.nan

    def __init__(self, run, opts=None):
        self.run = run
        self.opts = opts or {}
        loader.forget_modules()
        import torch
        import numpy
        self.pt, self.np = torch, numpy
        run.ghost['live'] = set()

    # ---- inputs
    def dim(self, name, lo=1):
        v = T.var(name, 'I', nn=lo >= 0, pos=lo >= 1)
        self.run.assume(T.le(T.P(lo), v))
        return mkint(v)

    def int(self, name, lo=None, hi=None):
        v = T.var(name, 'I')
        if lo is not None:
            self.run.assume(T.le(poly(lo), v))
        if hi is not None:
            self.run.assume(T.le(v, poly(hi)))
        return mkint(v)

    def real(self, name, lo=None, hi=None, gt=None, lt=None, live=False, wide=False):
        nn = lo is not None and not isinstance(lo, Sym) and lo >= 0 or gt is not None and not isinstance(gt, Sym) and gt >= 0
        pos = gt is not None and not isinstance(gt, Sym) and gt >= 0
        v = T.var(name, nn=bool(nn), pos=bool(pos))
        if lo is not None:
            self.run.assume(T.le(poly(lo), v))
        if hi is not None:
            self.run.assume(T.le(v, poly(hi)))
        if gt is not None:
            self.run.assume(T.lt(poly(gt), v))
        if lt is not None:
            self.run.assume(T.lt(v, poly(lt)))
        return mkreal(v)

    def numeral(self, name, usual=(), **bounds):
        """(value, text): a usual numeral, or one whose value is arbitrary"""
        u = self.choice('numeral ' + name, list(usual) + [None])
        if u is not None:
            return float(u), u
        v = self.real(name, **bounds)
        tok = f'<{name}>'
        self.run.ghost.setdefault('numerals', {})[tok] = v
        return v, tok

    def bool(self, name):
        return mkbool(T.bvar(name))

    def choice(self, name, values):
        values = list(values)
        k = self.run.choose(len(values), name)
        self.run.ghost.setdefault('choices', {})[name] = k
        return values[k]

    def tensor(self, name, shape, nn=False, pos=False, lo=None, hi=None, requires_grad=False, live=False, dtype=None):
        t = self.pt._core.symbolic_tensor(name, tuple(S.dimp(d) for d in shape), dtype or S.float64, nn=nn or pos, pos=pos)
        self._bounds(name, t, lo, hi)
        if requires_grad:
            t.requires_grad_()
        if live:
            self.run.ghost['live'].add(name)
        return t

    def _bounds(self, name, t, lo, hi):
        if lo is None and hi is None:
            return
        shape = t._shape

        def go(idx, rest):
            if rest:
                return T.forall(rest[0], lambda k: go(idx + (k,), rest[1:]))
            v = t._snap()(idx).v
            c = []
            if lo is not None:
                c.append(T.le(poly(lo), v))
            if hi is not None:
                c.append(T.le(v, poly(hi)))
            return T.b_and(*c)
        self.run.assume(go((), shape))

    def int_tensor(self, name, shape, lo=None, hi=None):
        nm = name
        t = self.pt.Tensor._make(tuple(S.dimp(d) for d in shape), lambda i: El(T.elt(nm, i, sort='I')), S.int64)
        self._bounds(name, t, lo, hi)
        return t

    def array(self, name, shape, nn=False, pos=False, lo=None, hi=None):
        t = self.np.ndarray._make(tuple(S.dimp(d) for d in shape), lambda i: El(T.elt(name, i, nn=nn or pos, pos=pos)), S.float64)
        self._bounds(name, t, lo, hi)
        return t

    def class_labels(self, name, n, classes):
        """n class labels, one of some integers each, every one of them present: (array, code of row i)"""
        cs = [self.int(f'{name} {k}') for k in range(classes)]
        for a, b in zip(cs, cs[1:]):
            self.assume(self.lt(a, b))
        code = lambda i: T.elt(name, (i,), sort='I')
        lab = lambda i: functools.reduce(lambda r, k: T.ite(T.le(T.P(k), code(i)), self._p(cs[k]), r), range(1, classes), self._p(cs[0]))
        self.run.assume(T.forall(S.dimp(n), lambda i: T.b_and(T.le(T.ZERO, code(i)), T.le(code(i), T.P(classes - 1)))))
        y = self.np.ndarray._make((S.dimp(n),), lambda i: El(lab(i[0])), S.float64)
        y._classes = (self.np.array(cs), self.np.ndarray._make((S.dimp(n),), lambda i: El(code(i[0])), S.int64))
        return y, (lambda i: mkint(code(self._p(i)))), cs

    def sign_tensor(self, name, shape):
        """entries -1 or 1"""
        return self.pt.Tensor._make(tuple(S.dimp(d) for d in shape),
                                    lambda i: El(T.ite(T.bvar(name, *i), T.ONE, T.P(-1))), S.float64)

    def param(self, name, shape, live=True, **kw):
        p = self.pt.nn.Parameter(self.tensor(name, shape, **kw))
        p._name = name
        if live:
            self.run.ghost['live'].add(name)
        return p

    def deterministic_updates(self):
        """adaptive optimisers: the same values and gradients in the same order give the same update"""
        def hook(opt, g, p):
            h = opt.state.setdefault(p, {}).setdefault('history', [])
            n = p._shape[0] if len(p._shape) == 1 else None
            if n is None:
                raise Unsupported('update of a parameter that is no vector')
            h.append((p._numsnap(), p.grad._numsnap()))
            rows = [(n, lambda k, f=f: f((k,)).v) for pair in h for f in pair]
            base = next(c.__name__ for c in type(opt).__mro__ if c.__module__.startswith(('torch', 'prodigyopt', 'mechanic')))
            new = self.pt.Tensor._make(p._shape, lambda i: El(T.row('update of ' + base, (poly(g['lr']), i[0]), rows)), p.dtype)
            p._write_from(new)
            return True
        self.run.ghost['update_hook'] = hook

    def loop_rule(self, havoc, done):
        from .loops import Rule
        self.run.ghost['range_rule'] = Rule(havoc, done)

    def each_rule(self):
        """loops over the data only collect one thing per index"""
        from .loops import EachRule
        self.run.ghost['range_rule'] = EachRule()
        self.run.ghost['foreach'] = True

    def sorted_column(self, name, n, pos=False):
        """n sorted entries, n a concrete number: the first one and the gaps are arbitrary"""
        at = lambda k: T.psum([T.elt(name, (T.ZERO,), nn=pos, pos=pos)] + [T.elt(name + ' gap', (T.P(j),), nn=True) for j in range(int(k.const()))])
        t = self.np.ndarray._make((T.P(n), T.ONE), lambda i: El(at(i[0])), S.float64)
        t._sorted = 0
        return t

    def summand(self, x, n):
        """i -> s(i) when the number x is something plus a multiple of the sum of s(i) over i < n"""
        found = {a for m, _ in poly(x).m for a, e in m if a.kind == 'red' and a.args[0] == 'sum' and a.args[2][0][0] is poly(n)}
        if len(found) != 1:
            raise Unsupported('no sum over the data in the objective')
        a, = found
        return lambda i: mkreal(T.red_inst(a, 0, poly(i)))

    def other_variable(self, prog, *known):
        """the one variable of the program that occurs in none of the given values, as a function of its indices"""
        names = lambda x: {a.args[0] for a in T.atoms_of(x) if a.kind == 'elt' and a.args[0].startswith('cvxpy variable')}
        seen = set()
        for x in known:
            if isinstance(x, S.Arr):
                x = x._numsnap()(tuple(T.fresh_ix(d) for d in x._shape)).v
            seen |= names(poly(x))
        rest = names(prog.feasible) - seen
        if len(rest) != 1:
            raise Unsupported('auxiliary variables not found')
        nm, = rest
        return lambda *idx: mkreal(T.elt(nm, tuple(poly(i) for i in idx)))

    def programs(self):
        """convex programs handed to the optimiser"""
        return self.run.ghost.get('programs', [])

    def overwrite(self, p, name):
        """arbitrary new contents"""
        new = self.pt._core.symbolic_tensor(self.run.name(name), p._shape, p.dtype)
        p._write_from(new)

    def gradient(self, label, f, module):
        """run-time counterpart of the gradient obligations: nothing to do"""

    def frozen(self, x):
        """the value, as a constant for differentiation"""
        return mkreal(S.freeze_el(El(poly(x))).v)

    def derivative(self, f, pos, *rows):
        """partial derivatives of f(row, ...) with respect to the entries of row `pos`, at the given rows (n, g);
        returns (value of entry k, entry k exists and is finite)"""
        hold = [lambda k, j=j: mkreal(T.elt(f'diff1.{j}', (poly(k),))) for j in range(len(rows))]
        body = poly(f(*hold))
        rs = [(poly(n), lambda k, g=g: poly(g(mkint(k)))) for n, g in rows]

        def val(k):
            return self.frozen(mkreal(T.row('grad', (T.P(pos), body, poly(k)), rs)))

        def fin(k):
            return mkbool(T.lt(T.ZERO, poly(self.frozen(mkreal(T.row('grad is finite', (T.P(pos), body, poly(k)), rs))))))
        return val, fin

    def index(self, name, n):
        i = T.P(T.atom('ix', (name,), 'I', nn=True, hi=S.dimp(n)))
        return mkint(i)

    def same_state(self, label, a, b):
        """the two objects hold the same values throughout (soft)"""
        seen = set()
        out = []

        def go(x, y, path, depth):
            if x is y:
                return
            key = (id(x), id(y))
            if key in seen or depth > 12:
                return
            seen.add(key)
            if isinstance(x, S.Arr) and isinstance(y, S.Arr):
                g = self.is_shape(x, [mkint(d) for d in y._shape])
                if g is not T.FALSE:
                    idx = tuple(T.fresh_ix(d) for d in y._shape)
                    ex, ey = x._snap()(idx), y._snap()(idx)
                    if isinstance(ex, El):
                        g = T.b_and(g, T.eq(ex.v, ey.v), T.b_iff(ex.fin, ey.fin), T.to_bool(ex.sp == ey.sp))
                    else:
                        g = T.b_and(g, T.b_iff(ex, ey))
                out.append((path, g))
            elif isinstance(x, SymBool) or isinstance(y, SymBool):
                out.append((path, T.b_iff(tobt(x), tobt(y))))
            elif isinstance(x, (Sym, int, float)) and isinstance(y, (Sym, int, float)):
                out.append((path, tobt(self.eq(x, y))))
            elif type(x) is not type(y):
                out.append((path, T.FALSE))
            elif isinstance(x, dict):
                out.append((path, T.to_bool(set(x) == set(y))))
                for k in x:
                    if k in y:
                        go(x[k], y[k], f'{path}[{k!r}]', depth + 1)
            elif isinstance(x, (list, tuple)):
                out.append((path, T.to_bool(len(x) == len(y))))
                for k, (u, v) in enumerate(zip(x, y)):
                    go(u, v, f'{path}[{k}]', depth + 1)
            elif hasattr(x, '__dict__'):
                go(vars(x), vars(y), path, depth + 1)
            else:
                out.append((path, T.to_bool(x == y)))
        go(a, b, type(a).__name__, 0)
        for path, g in out:
            self.run.check(label, unprime(g), soft=True)

    def spd(self, name, d):
        return self.tensor(name, (d, d))

    def tril(self, name, d):
        t = self.tensor(name, (d, d))
        self.run.assume(T.forall(S.dimp(d), lambda k: T.lt(T.ZERO, T.elt(name, (k, k)))))
        return t

    def rowfn(self, name, nn=False):
        return RowFn(self, name, nn)

    def repo(self, mod):
        return importlib.import_module(mod)

    # ---- assumptions, obligations
    def assume(self, c):
        self.run.assume(tobt(c) if not isinstance(c, bool) else T.to_bool(c))
        if not self.run.feasible(T.TRUE) or (self.run.hyps and not self.feasible_now()):
            raise PathEnd('infeasible')

    def feasible_now(self):
        import z3
        return self.run.solver.check() != z3.unsat

    def branch(self, c):
        """case split in the specification"""
        return bool(c) if not isinstance(c, SymBool) else self.run.decide(c.b)

    def ensure(self, label, c, grad=False, soft=False):
        b = T.to_bool(c) if isinstance(c, bool) else tobt(c)
        self.run.check(label, b if grad else unprime(b), soft=soft)

    def many(self, name, lo=1):
        """number of draws (large when run for real, to test laws)"""
        return self.dim(name, lo)

    def ensure_law(self, label, t, shape, law, loc, scale=None, mix=None, p=None):
        """entries of t are loc + scale * (own independent standard noise), or
        loc + sum_c mix(.., c) * noise(.., c) along the last dimension, or
        plus/minus loc with probability p (law 'flip'); returns the draws used"""
        laws = (law,) if isinstance(law, str) else tuple(law)
        sh = self.is_shape(t, shape)
        self.run.check(label + ' (shape)', sh)
        if sh is T.FALSE or not self.run.feasible(sh):
            return frozenset()
        self.run.assume(sh)
        idx = [T.ZERO if S.dimp(d) is T.ONE else T.fresh_ix(S.dimp(d)) for d in shape]
        sidx = [mkint(i) for i in idx]
        e = t._numsnap()(tuple(idx))
        v, fin = unprime(e.v), unprime(e.fin)
        noise = self.run.ghost.get('noise', {})
        draws = [a for a in T.atoms_of(v) if a.kind == 'elt' and a.args[0].rstrip("'") in noise]
        names = {a.args[0] for a in draws}
        base = poly(loc(*sidx))
        if not draws or e.sp is not None:
            self.run.check(label, T.FALSE)
            return frozenset()
        kind = {n.split('<')[0] for n in names}
        want = {'uniform' if l == 'flip' else l for l in laws}
        one = len(names) == 1 and len({a.args[1:] for a in draws}) == 1
        args = draws[0].args[1:]
        lead = idx[:-1] if mix else idx
        ok = one and len(args) == len(idx) and all(i in args for i in lead)
        self.run.check(label + ': every entry has its own draw', T.to_bool(bool(ok)), soft=True)
        if not ok:
            return frozenset(names)
        self.run.check(label + ': family', T.to_bool(kind <= want))
        N = T.P(draws[0])
        if mix is not None:
            name, = names
            n = S.dimp(shape[-1])
            spec = T.add(base, T.sum_(n, lambda c: T.mul(poly(mix(*sidx, mkint(c))), T.elt(name, tuple(lead) + (c,)))))
            g = T.eq(v, unprime(spec))
        elif 'flip' in laws:
            b = unprime(base)
            g = T.eq(v, T.ite(T.lt(N, poly(p)), b, T.scale(b, -1)))
        else:
            sc = T.mul(poly(scale(*sidx)), N)
            g = T.eq(T.sub(v, unprime(base)), unprime(sc))
            if T.eq(T.add(T.sub(v, unprime(base)), unprime(sc)), T.ZERO) is T.TRUE:
                g = T.TRUE
        self.run.check(label, T.b_and(fin, g))
        return frozenset(names)

    def ensure_apart(self, label, a, b):
        """two laws checked with ensure_law use no common draw"""
        self.ensure(label, not (a & b))

    def ensure_eq(self, label, a, b, grad=False, **tol):
        """scalars, or special values"""
        e, g = self.el(a), self.el(b)
        self._eq(label, e, g, grad)

    def el(self, a):
        if isinstance(a, El):
            return a
        if isinstance(a, S.Arr):
            for d in a._shape:
                if not S.decide(T.eq(d, T.ONE)):
                    raise Unsupported('scalar expected')
            e = a._numsnap()(tuple(T.ZERO for _ in a._shape))
            return e
        if special(a):
            return El(T.ZERO, T.FALSE, 'nan' if a != a else 'inf' if a > 0 else '-inf')
        return El(poly(a))

    def _eq(self, label, e, spec, grad):
        if spec.sp is not None:
            self.run.check(label, T.TRUE if e.sp == spec.sp else T.FALSE)
            return
        if e.sp is not None:
            self.run.check(label, T.FALSE)
            return
        g = T.b_and(e.fin, T.eq(e.v, spec.v))
        self.run.check(label, g if grad else unprime(g))

    def is_shape(self, t, shape):
        if not isinstance(t, S.Arr) or len(t._shape) != len(shape):
            return T.FALSE
        return T.b_and(*[T.eq(a, S.dimp(b)) for a, b in zip(t._shape, shape)])

    def ensure_shape(self, label, t, shape):
        self.run.check(label, self.is_shape(t, shape))

    def ensure_tensor(self, label, t, shape, fn, grad=False, **tol):
        """t has this shape and entry fn(*index) everywhere"""
        sh = self.is_shape(t, shape)
        self.run.check(label + ' (shape)', sh)
        if sh is T.FALSE or not self.run.feasible(sh):
            return
        self.run.assume(sh)
        idx = []
        for d in shape:
            p = S.dimp(d)
            idx.append(T.ZERO if p is T.ONE else T.fresh_ix(p))
        e = t._numsnap()(tuple(idx))
        self._eq(label, e, self.el(fn(*[mkint(i) for i in idx])), grad)

    def ensure_all(self, label, shape, fn):
        idx = [T.fresh_ix(S.dimp(d)) for d in shape]
        c = fn(*[mkint(i) for i in idx])
        self.ensure(label, c)

    def raises(self, fn, *excs):
        """the exception fn raises (None when it returns)"""
        try:
            fn()
        except excs or (Exception,) as e:
            return e
        return None

    def unreachable(self, label, detail=''):
        self.run.check(label, T.FALSE)

    # ---- reading
    def at(self, t, *idx):
        if not isinstance(t, S.Arr):
            raise Unsupported('at: not an array')
        e = t._numsnap()(tuple(poly(i) for i in idx))
        if e.sp:
            return {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}[e.sp]
        return mkreal(e.v)

    def val(self, x):
        """scalar value of a 0-d tensor or number"""
        e = self.el(x)
        if e.sp:
            return {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}[e.sp]
        return mkreal(e.v)

    def finite(self, x):
        e = self.el(x)
        return mkbool(e.fin if e.sp is None else T.FALSE)

    def snapshot(self, t):
        """frozen copy of the present values"""
        g = t._numsnap()
        return type(t)._cls()._make(t._shape, g, t.dtype)

    # ---- specification arithmetic (total: no exceptions, no forks)
    def _p(self, x):
        return poly(x)

    def sum(self, n, f):
        return mkreal(T.sum_(poly(n), lambda k: poly(f(mkint(k)))))

    def mean(self, n, f):
        return mkreal(T.div(T.sum_(poly(n), lambda k: poly(f(mkint(k)))), poly(n)))

    def maxof(self, n, f):
        return mkreal(T.max_(poly(n), lambda k: poly(f(mkint(k)))))

    def norm(self, p, n, f):
        return mkreal(T.norm_('inf' if special(p) else poly(p), poly(n), lambda k: poly(f(mkint(k)))))

    def lse(self, n, f):
        return mkreal(T.logsumexp_(poly(n), lambda k: poly(f(mkint(k)))))

    def pow(self, a, b):
        return mkreal(T.powr(poly(a), poly(b)))

    def exp(self, a):
        return mkreal(T.exp(poly(a)))

    def log(self, a):
        return mkreal(T.log(poly(a)))

    def sqrt(self, a):
        return mkreal(T.sqrt(poly(a)))

    def floor(self, a):
        return mkint(T.floor(poly(a)))

    def abs(self, a):
        return mkreal(T.absv(poly(a)))

    def max2(self, a, b):
        return mkreal(T.maxv(poly(a), poly(b)))

    def min2(self, a, b):
        return mkreal(T.minv(poly(a), poly(b)))

    def div(self, a, b):
        return mkreal(T.div(poly(a), poly(b)))

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        return mkreal(T.ite(tobt(c), poly(a), poly(b)))

    def eq(self, a, b):
        if special(a) or special(b):
            return isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b))
        return mkbool(T.eq(poly(a), poly(b)))

    def le(self, a, b):
        return mkbool(T.le(poly(a), poly(b)))

    def lt(self, a, b):
        return mkbool(T.lt(poly(a), poly(b)))

    def both(self, *cs):
        return mkbool(T.b_and(*[tobt(c) for c in cs]))

    def either(self, *cs):
        return mkbool(T.b_or(*[tobt(c) for c in cs]))

    def implies(self, a, b):
        return mkbool(T.b_implies(tobt(a), tobt(b)))

    def iff(self, a, b):
        return mkbool(T.b_iff(tobt(a), tobt(b)))

    def neg(self, a):
        return mkbool(T.b_not(tobt(a)))

    def forall(self, n, f):
        return mkbool(T.forall(poly(n), lambda k: tobt(f(mkint(k)))))

    def logsigmoid(self, a):
        return mkreal(S.e_logsigmoid(El(poly(a))).v)

    def sigmoid(self, a):
        return mkreal(S._sigmoid(poly(a)))
