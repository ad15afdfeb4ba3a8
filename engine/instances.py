"""Small instances of a failed obligation: every dimension gets a small value, reductions are written out, and z3 looks
for the remaining numbers.  What it finds counts only if the obligation, evaluated on it as written, is false."""
import random
import time
import z3
from . import terms as T
from .prover import TR, collect
from .evalnum import Env, Skip, fbool, fnum, rows_key

LIMIT = 40      # terms a reduction may be written out to


class TooBig(Exception):
    pass


def dims_of(forms):
    """integer symbols, and the index symbols ranging over them"""
    ints, ixs = {}, {}
    for f in forms:
        for a in T.atoms_of(f):
            if a.kind == 'var' and a.sort == 'I':
                ints[a] = None
            elif a.kind == 'ix':
                ixs[a] = None
                if a.hi is not None:
                    for b in T.atoms_of(a.hi):
                        if b.kind == 'var' and b.sort == 'I':
                            ints[b] = None
    return list(ints), list(ixs)


class Expand:
    """writes out the reductions whose range is a number"""

    def __init__(self):
        self.memo = {}

    def __call__(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self.poly(x) if isinstance(x, T.Poly) else self.form(x)
        return r

    def poly(self, p):
        mp = {}
        for m, c in p.m:
            for a, e in m:
                q = self.atom(a)
                if q is not None:
                    mp[a] = q
        if not mp:
            return p
        out = T.ZERO
        for m, c in p.m:
            t = T.P(c)
            for a, e in m:
                t = T.mul(t, T.pow_q(mp.get(a, T.P(a)), e))
            out = T.add(out, t)
        return out

    def atom(self, a):
        """the same value without reductions, or None"""
        if a.kind == 'red' and a.args[0] in ('sum', 'max', 'norm'):
            n = a.args[2][0][0].const()
            if n is None or n > LIMIT:
                raise TooBig
            xs = [self(T.red_inst(a, 0, T.P(i))) for i in range(int(n))]
            if a.args[0] == 'sum':
                return T.psum(xs)
            if a.args[0] == 'max':
                if not xs:
                    raise TooBig
                m = xs[0]
                for x in xs[1:]:
                    m = T.ite(T.le(x, m), m, x)
                return m
            p = self(a.args[1][0])
            if p.const() is None:
                return T.powr(T.psum([T.powr(T.absv(x), p) for x in xs]), T.div(T.ONE, p))
            return T.pow_q(T.psum([T.pow_q(T.absv(x), p.const()) for x in xs]), 1 / p.const())
        if a.kind in ('var', 'ix', 'bv', 'elt', 'red', 'prime', 'undef'):
            return None
        new, changed = [], False
        for x in a.args:
            y = self(x) if isinstance(x, (T.Poly, T.BT)) else x
            changed |= y is not x
            new.append(y)
        return T.rebuild(a, tuple(new)) if changed else None

    def form(self, b):
        k = b.kind
        if k == 'not':
            return T.b_not(self(b.args[0]))
        if k == 'and':
            return T.b_and(*[self(x) for x in b.args])
        if k in ('eq', 'le', 'lt'):
            return {'eq': T.eq0, 'le': T.le0, 'lt': T.lt0}[k](self(b.args[0]))
        if k == 'all':
            n = b.args[0].const()
            if n is None or n > LIMIT:
                raise TooBig
            return T.b_and(*[self(T.all_inst(b, T.P(i))) for i in range(int(n))])
        return b


def value(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    raise Skip('value')


def attempt(hyps, goal, sizes, rnd, timeout):
    """one choice of sizes: an Env falsifying the obligation, or None"""
    forms = list(hyps) + [goal]
    ints, ixs = dims_of(forms)
    mp = {a: T.P(sizes(a)) for a in ints}
    at = {}
    for a in ixs:
        hi = T.subst(a.hi, mp).const() if a.hi is not None else 3
        if hi is None:
            return None
        if hi < 1:
            return None
        at[a] = rnd.randrange(int(hi))
    mp.update({a: T.P(v) for a, v in at.items()})
    ex = Expand()
    small = []
    for f in forms:
        s = ex(T.subst(f, mp))
        small.append(s)
    hs, g = small[:-1], small[-1]
    if g is T.TRUE or any(h is T.FALSE for h in hs):
        return None
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for h in hs:
        s.add(TR.boolean(h))
    s.add(z3.Not(TR.boolean(g)))
    atoms, _ = collect(small)
    for a in atoms:
        TR.at(a)
    for a in atoms:
        s.add(*TR.facts.get(a.id, ()))
    if s.check() != z3.sat:
        return None
    m = s.model()
    env = Env(('instance', rnd.random()), exact=True)
    for a in ints:
        env.fixed[a.args[0]] = int(mp[a].const())
    for a, v in at.items():
        env.fixed[a.args[0]] = v
    for a in atoms:
        if a.kind == 'var' and a.sort == 'R':
            env.fixed[a.args[0]] = value(m, TR.at(a))
        elif a.kind == 'elt':
            idx = [x.const() for x in a.args[1:]]
            if any(x is None for x in idx):
                return None
            env.fixed[(a.args[0],) + tuple(int(x) for x in idx)] = value(m, TR.at(a))
    for f in small:
        for b in bvars(f):
            env.fixed[(b.args[0],) + tuple(round(float(fnum(env, x, {})), 9) for x in b.args[1:])] = value(m, TR.boolean(b))
    # arbitrary functions take the values of the model at the points they are looked at
    for a in sorted((a for a in atoms if a.kind in ('red', 'fn')), key=lambda a: a.id):
        k = rows_key(env, a, {})
        if k is None:
            continue
        v = value(m, TR.at(a))
        if env.table.setdefault(k, v) != v:
            return None
    env.cache.clear()
    if not all(fbool(env, h, {}) for h in hyps) or fbool(env, goal, {}):
        return None
    return env


def bvars(f):
    if f.kind == 'var':
        return [f]
    return [v for x in f.args if isinstance(x, T.BT) for v in bvars(x)]


def search(hyps, goal, seconds=6., seed=0):
    """an Env falsifying the obligation, or None"""
    t0 = time.time()
    rnd = random.Random(f'{seed}')
    plans = [lambda a: 2, lambda a: 1, lambda a: 3] + [lambda a: rnd.choice([1, 2, 3])] * 3 + [lambda a: rnd.choice([0, 1, 2, 4])]
    for plan in plans:
        left = seconds - (time.time() - t0)
        if left < .2:
            break
        try:
            env = attempt(hyps, goal, plan, rnd, min(2., left))
        except (TooBig, Skip, T.TermError, OverflowError, ZeroDivisionError, ValueError, z3.Z3Exception, RecursionError):
            continue
        if env is not None:
            return env
    return None
