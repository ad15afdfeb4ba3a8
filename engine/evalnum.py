"""Numeric evaluation of terms, used to look for an assignment falsifying an
obligation (and to turn it into a concrete scenario for the real code)."""
import math
import random
import zlib
from fractions import Fraction as Q
from . import terms as T


class Skip(Exception):
    pass


def h01(*key):
    return zlib.crc32(repr(key).encode()) / 2 ** 32


class Env:
    """a random assignment; values fixed lazily and deterministically"""

    def __init__(self, seed, fixed=None, style=0, exact=False):
        self.seed = seed
        self.exact = exact      # rational arithmetic as long as it lasts
        self.table = {}         # values of arbitrary functions at the points they are looked at
        self.fixed = dict(fixed or {})
        self.style = style
        self.used = {}
        self.entries = {}
        self.cache = {}

    def scalar(self, a):
        name = a.args[0]
        if name in self.used:
            return self.used[name]
        if name in self.fixed:
            v = self.fixed[name]
        else:
            u = h01(self.seed, name)
            u2 = h01(self.seed, name, 'b')
            if a.sort == 'I':
                v = 1 + int(u * 3)
                if not a.pos and not a.nn and u2 < .3:
                    v = -v
                if not a.pos and u2 > .8:
                    v = 0
            else:
                v = [0.5, 1.0, 2.0, 0.1, 3.0][int(u2 * 5)] if u2 < .4 and self.style != 1 else 0.05 + 2.5 * u
                if not a.nn and h01(self.seed, name, 's') < .5:
                    v = -v
                if not a.pos and h01(self.seed, name, 'z') < .1:
                    v = 0.0
        self.used[name] = v
        return v

    def entry(self, a, idx):
        key = (a.args[0],) + tuple(idx)
        if key in self.entries:
            return self.entries[key]
        if key in self.fixed:
            v = self.fixed[key]
        else:
            u = h01(self.seed, key)
            if a.sort == 'I':
                v = int(u * 4)
            elif self.style == 2:
                v = float(int(u * 3) - 1)
                if a.nn:
                    v = abs(v)
                if a.pos:
                    v += 1.
            else:
                v = 4 * u - 2
                if h01(self.seed, key, 'i') < .2:
                    v = float(round(v))
                if a.nn:
                    v = abs(v)
                if a.pos:
                    v += 0.05
        self.entries[key] = v
        return v


def fnum(env, p, bnd):
    if not p.fv:
        c = env.cache.get(p.id)
        if c is not None:
            return c
    tot = Q(0) if env.exact else 0.0
    exact = p.sort == 'I'
    if exact:
        tot = 0
    for m, c in p.m:
        v = int(c) if exact else c if env.exact else float(c)
        for a, e in m:
            b = fatom(env, a, bnd)
            if e == 1:
                v *= b
            elif e.denominator == 1:
                if b == 0 and e < 0:
                    raise Skip('div0')
                v *= (Q(b) if env.exact and isinstance(b, int) else b) ** int(e)
            else:
                if b < 0 and b > -1e-9:
                    b = 0.0
                if b < 0 or (b == 0 and e < 0):
                    raise Skip('root')
                v *= float(b) ** float(e)
        tot += v
    if not p.fv:
        env.cache[p.id] = tot
    return tot


def fatom(env, a, bnd):
    k = a.kind
    if k == 'var':
        return env.scalar(a)
    if k in ('ix', 'bv'):
        if a in bnd:
            return bnd[a]
        if k == 'ix':
            name = a.args[0]
            hi = int(fnum(env, a.hi, bnd)) if a.hi is not None else 3
            if hi <= 0:
                raise Skip('empty')
            v = env.used.get(name)
            if v is None:
                v = env.fixed.get(name)
                if v is None or not 0 <= v < hi:
                    v = int(h01(env.seed, name) * hi)
                env.used[name] = v
            return v
        raise Skip('unbound')
    if k == 'elt':
        return env.entry(a, tuple(int(fnum(env, x, bnd)) for x in a.args[1:]))
    if k == 'fn':
        args = [fnum(env, x, bnd) if isinstance(x, T.Poly) else x for x in a.args[1:]]
        f = FN_EVAL.get(a.args[0])
        if f is not None:
            return f(*args)
        key = ('fn', a.args[0]) + tuple(round(float(x), 9) for x in args)
        if key in env.table:
            return env.table[key]
        u = 4 * h01(env.seed, key) - 2
        return abs(u) + (0.05 if a.pos else 0) if a.nn else u
    if k == 'abs':
        return abs(fnum(env, a.args[0], bnd))
    if k == 'sgn':
        x = fnum(env, a.args[0], bnd)
        return (x > 0) - (x < 0)
    if k == 'exp':
        x = fnum(env, a.args[0], bnd)
        if x > 200:
            raise Skip('overflow')
        return math.exp(x)
    if k == 'log':
        x = fnum(env, a.args[0], bnd)
        if x <= 0:
            raise Skip('log')
        return math.log(x)
    if k == 'pa':
        return fnum(env, a.args[0], bnd)
    if k == 'prime':
        return float(a.args[0])
    if k == 'powr':
        b, e = fnum(env, a.args[0], bnd), fnum(env, a.args[1], bnd)
        if b < 0 or (b == 0 and e <= 0):
            raise Skip('powr')
        return float(b) ** e
    if k == 'ite':
        return fnum(env, a.args[1] if fbool(env, a.args[0], bnd) else a.args[2], bnd)
    if k == 'idiv':
        x, y = int(fnum(env, a.args[0], bnd)), int(fnum(env, a.args[1], bnd))
        if y == 0:
            raise Skip('div0')
        return x // y
    if k == 'imod':
        x, y = int(fnum(env, a.args[0], bnd)), int(fnum(env, a.args[1], bnd))
        if y == 0:
            raise Skip('div0')
        return x % y
    if k == 'floor':
        v = fnum(env, a.args[0], bnd)
        return math.floor(v + 1e-12 if isinstance(v, float) else v)
    if k == 'red':
        op, params, bodies = a.args
        vecs = []
        for i, (n, body) in enumerate(bodies):
            nv = int(fnum(env, n, bnd))
            if nv > 60:
                raise Skip('big')
            b = T.atom('bv', (a.height, i), 'I', nn=True)
            row = []
            for t in range(nv):
                b2 = dict(bnd)
                b2[b] = t
                row.append(fbool(env, body, b2) if isinstance(body, T.BT) else fnum(env, body, b2))
            vecs.append(row)
        if op == 'sum':
            return math.fsum(vecs[0]) if a.sort == 'R' and not env.exact else sum(vecs[0])
        if op == 'max':
            if not vecs[0]:
                raise Skip('empty max')
            return max(vecs[0])
        if op == 'norm':
            p = fnum(env, params[0], bnd)
            if p <= 0:
                raise Skip('norm order')
            return math.fsum(abs(x) ** p for x in vecs[0]) ** (1 / p)
        pv = tuple(round(float(fnum(env, x, bnd)), 9) if isinstance(x, T.Poly) else (x.id if isinstance(x, (T.BT, T.Atom)) else repr(x))
                   for x in params)
        f = ROW_EVAL.get(op)
        if f is not None:
            return f(env, pv, vecs)
        if env.table:
            k = table_key(op, pv, vecs)
            if k in env.table:
                return env.table[k]
        # arbitrary but smooth-ish function of the rows, deterministic
        tot = 3 * h01(env.seed, op, pv) - 1
        for r, row in enumerate(vecs):
            for t, x in enumerate(row):
                w = 2 * h01(env.seed, op, r, t) - 1
                tot += w * float(x) + 0.3 * math.sin(1.7 * float(x) + r + t + len(pv) + sum(p for p in pv if isinstance(p, float)))
        return abs(tot) + .01 if a.nn else tot
    raise Skip(k)


def table_key(op, pv, vecs):
    return (op, pv) + tuple(tuple(round(float(x), 9) for x in r) for r in vecs)


def rows_key(env, a, bnd):
    """the point at which an arbitrary function is looked at (None: its values are known)"""
    if a.kind == 'fn':
        if a.args[0] in FN_EVAL:
            return None
        return ('fn', a.args[0]) + tuple(round(float(fnum(env, x, bnd) if isinstance(x, T.Poly) else x), 9) for x in a.args[1:])
    op, params, bodies = a.args
    if op in ('sum', 'max', 'norm') or op in ROW_EVAL:
        return None
    vecs = []
    for i, (n, body) in enumerate(bodies):
        nv = int(fnum(env, n, bnd))
        b = T.atom('bv', (a.height, i), 'I', nn=True)
        vecs.append([fbool(env, body, {**bnd, b: t}) if isinstance(body, T.BT) else fnum(env, body, {**bnd, b: t}) for t in range(nv)])
    pv = tuple(round(float(fnum(env, x, bnd)), 9) if isinstance(x, T.Poly) else (x.id if isinstance(x, (T.BT, T.Atom)) else repr(x))
               for x in params)
    return table_key(op, pv, vecs)


ROW_EVAL = {}
FN_EVAL = {
    'tanh': math.tanh,
    'sigmoid': lambda x: 1 / (1 + math.exp(-x)) if x > -500 else 0.0,
}


def fbool(env, b, bnd, tol=1e-9):
    k = b.kind
    if k == 'true':
        return True
    if k == 'false':
        return False
    if k == 'not':
        return not fbool(env, b.args[0], bnd, tol)
    if k == 'and':
        return all(fbool(env, x, bnd, tol) for x in b.args)
    if k == 'eq':
        p = b.args[0]
        v = fnum(env, p, bnd)
        if not isinstance(v, float):
            return v == 0
        sc = 1.0 + max((abs(float(c)) for _, c in p.m), default=0)
        big = 0.0
        for m, c in p.m:
            try:
                big = max(big, abs(fnum(env, T._mkpoly({m: c}), bnd)))
            except Skip:
                pass
        return abs(v) <= 1e-7 * max(sc, big)
    if k == 'le':
        v = fnum(env, b.args[0], bnd)
        return v <= (1e-9 if isinstance(v, float) else 0)
    if k == 'lt':
        v = fnum(env, b.args[0], bnd)
        return v < (-1e-12 if isinstance(v, float) else 0)
    if k == 'var':
        key = (b.args[0],) + tuple(round(float(fnum(env, x, bnd)), 9) for x in b.args[1:])
        if key in env.fixed:
            return env.fixed[key]
        return h01(env.seed, key) < .5
    if k == 'all':
        n, body, h = b.args
        nv = int(fnum(env, n, bnd))
        if nv > 60:
            raise Skip('big')
        bva = T.atom('bv', (h, 0), 'I', nn=True)
        for t in range(nv):
            b2 = dict(bnd)
            b2[bva] = t
            if not fbool(env, body, b2, tol):
                return False
        return True
    raise Skip(k)


def falsify(hyps, goal, mp=None, tries=400, seed=0, fixed=None):
    """look for an assignment with all hyps true and goal false.
    Returns (env, tried) ; env None if nothing found; tried = valid samples"""
    from .prover import solve_equalities, with_indices
    sub = with_indices(solve_equalities(hyps), list(hyps) + [goal])
    h2 = [T.subst(h, sub) for h in hyps] if sub else list(hyps)
    g2 = T.subst(goal, sub) if sub else goal
    valid = 0
    for t in range(tries):
        env = Env((seed, t), fixed if t % 2 == 0 else None, style=2 if t % 5 == 4 else t % 2)
        try:
            if not all(fbool(env, h, {}) for h in h2):
                continue
            ok = fbool(env, g2, {})
        except (Skip, OverflowError, ZeroDivisionError, ValueError):
            continue
        valid += 1
        if not ok:
            for a, v in sub.items():
                try:
                    env.used[a.args[0]] = fnum(env, v, {})
                except Exception:
                    pass
            return env, valid
        if valid >= tries // 2:
            break
    return None, valid
