"""Discharging obligations: normal forms first, then z3 (cvc5 as a fallback),
then a numeric search for a falsifying assignment of the obligation itself."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction as Q
import z3
from . import terms as T

z3.set_param('verbose', 0)


class Translator:
    def __init__(self):
        self.cache = {}
        self.facts = {}      # atom id -> list of z3 facts
        self.abstract = {}   # ids of atoms translated with loss of meaning
        self.fnd = {}

    def func(self, name, nargs, argsort, ressort):
        key = (name, nargs, argsort, ressort)
        f = self.fnd.get(key)
        if f is None:
            s = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}
            f = z3.Function(name, *([s[argsort]] * nargs + [s[ressort]])) if nargs else None
            self.fnd[key] = f
        return f

    def real(self, p):
        e = self.num(p)
        return z3.ToReal(e) if z3.is_int(e) else e

    def num(self, p):
        e = self.cache.get(p.id)
        if e is not None:
            return e
        if p.sort == 'I':
            ts = []
            for m, c in p.m:
                t = z3.IntVal(c.numerator)
                for a, ex in m:
                    b = self.at(a)
                    for _ in range(int(ex)):
                        t = t * b
                ts.append(t)
            e = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.IntVal(0))
        else:
            ts = []
            for m, c in p.m:
                t = z3.RealVal(str(c))
                first = c == 1
                for a, ex in m:
                    f = self.apow(a, ex)
                    t = f if first else t * f
                    first = False
                ts.append(t)
            e = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        self.cache[p.id] = e
        return e

    def apow(self, a, ex):
        b = self.at(a)
        if z3.is_int(b):
            b = z3.ToReal(b)
        if ex == 1:
            return b
        num, den = abs(ex.numerator), ex.denominator
        if num > 12 or den > 12:
            e = self.func('powr', 2, 'R', 'R')(b, z3.RealVal(str(ex)))
            self.facts.setdefault(a.id, []).append(z3.Implies(b > 0, e > 0))
            return e
        if den != 1:
            key = ('root', a.id, den)
            r = self.cache.get(key)
            if r is None:
                r = z3.Real(f'root{den}!{a.id}')
                self.cache[key] = r
                pw = r
                for _ in range(den - 1):
                    pw = pw * r
                fs = [r >= 0, z3.Implies(b >= 0, pw == b), z3.Implies(b > 0, r > 0)]
                self.facts.setdefault(a.id, []).extend(fs)
            b = r
        t = b
        for _ in range(num - 1):
            t = t * b
        if ex < 0:
            t = 1 / t
        return t

    def at(self, a):
        key = ('at', a.id)
        e = self.cache.get(key)
        if e is None:
            e = self._at(a)
            self.cache[key] = e
        return e

    def const(self, a, name):
        return z3.Int(name) if a.sort == 'I' else z3.Real(name)

    def _at(self, a):
        k = a.kind
        fs = self.facts.setdefault(a.id, [])
        if k == 'var':
            e = self.const(a, a.args[0])
            if a.pos:
                fs.append(e > 0 if a.sort == 'R' else e >= 1)
            elif a.nn:
                fs.append(e >= 0)
            return e
        if k in ('ix', 'bv'):
            e = z3.Int(a.args[0] if k == 'ix' else f'bv!{a.args[0]}!{a.args[1]}')
            fs.append(e >= 0)
            if k == 'ix' and a.hi is not None:
                fs.append(e < self.num(a.hi))
            return e
        if k == 'elt':
            name = a.args[0]
            idx = a.args[1:]
            if not idx:
                e = self.const(a, name)
            else:
                e = self.func(name, len(idx), 'I', a.sort)(*[self.num(x) for x in idx])
            if a.pos:
                fs.append(e > 0)
            elif a.nn:
                fs.append(e >= 0)
            return e
        if k == 'fn':
            args = [self.real(x) for x in a.args[1:]]
            e = self.func('fn_' + a.args[0], len(args), 'R', 'R')(*args)
            self.abstract[a.id] = a
            if a.pos:
                fs.append(e > 0)
            elif a.nn:
                fs.append(e >= 0)
            h = FN_FACTS.get(a.args[0])
            if h:
                fs.extend(h(e, args))
            return e
        if k == 'abs':
            x = self.num(a.args[0])
            return z3.If(x >= 0, x, -x)
        if k == 'sgn':
            x = self.num(a.args[0])
            return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))
        if k == 'exp':
            x = self.real(a.args[0])
            e = self.func('exp', 1, 'R', 'R')(x)
            fs += [e > 0, e >= 1 + x, z3.Implies(x < 0, e < 1), z3.Implies(x == 0, e == 1)]
            self.abstract[a.id] = a
            return e
        if k == 'log':
            x = self.real(a.args[0])
            e = self.func('log', 1, 'R', 'R')(x)
            fs += [z3.Implies(x > 0, e <= x - 1), z3.Implies(x > 1, e > 0),
                   z3.Implies(z3.And(x > 0, x < 1), e < 0), z3.Implies(x == 1, e == 0)]
            self.abstract[a.id] = a
            return e
        if k == 'pa':
            return self.real(a.args[0])
        if k == 'prime':
            return z3.RealVal(a.args[0])
        if k == 'powr':
            b, x = self.real(a.args[0]), self.real(a.args[1])
            e = self.func('powr', 2, 'R', 'R')(b, x)
            fs += [z3.Implies(b > 0, e > 0), z3.Implies(b >= 0, e >= 0),
                   z3.Implies(z3.And(b == 0, x > 0), e == 0), z3.Implies(x == 0, e == 1),
                   z3.Implies(x == 1, e == b), z3.Implies(x == 2, e == b * b),
                   z3.Implies(b == 1, e == 1)]
            self.abstract[a.id] = a
            return e
        if k == 'ite':
            return z3.If(self.boolean(a.args[0]), *(
                (self.num(a.args[1]), self.num(a.args[2])) if a.sort == 'I'
                else (self.real(a.args[1]), self.real(a.args[2]))))
        if k == 'idiv':
            return self.num(a.args[0]) / self.num(a.args[1])
        if k == 'imod':
            x, y = self.num(a.args[0]), self.num(a.args[1])
            e = x % y
            fs += [z3.Implies(y > 0, z3.And(e >= 0, e < y)), e == x - y * (x / y)]
            return e
        if k == 'floor':
            x = self.real(a.args[0])
            e = z3.ToInt(x)
            fs += [z3.ToReal(e) <= x, x < z3.ToReal(e) + 1]
            return e
        if k == 'red':
            e = self.const(a, f'red!{a.id}')
            self.abstract[a.id] = a
            if a.pos:
                fs.append(e > 0)
            elif a.nn:
                fs.append(e >= 0)
            return e
        if k == 'undef':
            self.abstract[a.id] = a
            return z3.Real(f'undef!{a.id}')
        raise T.TermError('translate ' + k)

    def boolean(self, b):
        key = ('b', b.id)
        e = self.cache.get(key)
        if e is None:
            e = self._bool(b)
            self.cache[key] = e
        return e

    def _bool(self, b):
        k = b.kind
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'false':
            return z3.BoolVal(False)
        if k == 'not':
            return z3.Not(self.boolean(b.args[0]))
        if k == 'and':
            return z3.And(*[self.boolean(x) for x in b.args])
        if k == 'le':
            return self.num(b.args[0]) <= 0
        if k == 'lt':
            return self.num(b.args[0]) < 0
        if k == 'eq':
            return self.num(b.args[0]) == 0
        if k == 'var':
            if len(b.args) == 1:
                return z3.Bool(b.args[0])
            return self.func('B_' + b.args[0], len(b.args) - 1, 'R', 'B')(*[self.real(x) for x in b.args[1:]])
        if k == 'all':
            return z3.Bool(f'all!{b.id}')
        raise T.TermError('translate bool ' + k)


def _fn_bounds(lo, hi):
    def f(e, args):
        out = []
        if lo is not None:
            out.append(e > lo)
        if hi is not None:
            out.append(e < hi)
        return out
    return f


FN_FACTS = {
    'sigmoid': lambda e, a: [e > 0, e < 1, z3.Implies(a[0] >= 0, e >= z3.RealVal('1/2')),
                             z3.Implies(a[0] < 0, e < z3.RealVal('1/2'))],
    'tanh': lambda e, a: [e > -1, e < 1],
}

TR = Translator()


def collect(bs):
    """atoms and quantified subformulas occurring (outside binders) in bs"""
    atoms, alls = {}, {}
    seen = set()

    def go(y):
        if isinstance(y, T.Poly):
            if y.id in seen:
                return
            seen.add(y.id)
            for m, c in y.m:
                for a, e in m:
                    go(a)
        elif isinstance(y, T.Atom):
            if y in atoms:
                return
            atoms[y] = None
            if y.hi is not None:
                go(y.hi)
            if y.kind == 'red':
                for n, b in y.args[2]:
                    go(n)
                go(y.args[1])
                return
            for z in y.args:
                go(z)
        elif isinstance(y, T.BT):
            if y.id in seen:
                return
            seen.add(y.id)
            if y.kind == 'all':
                alls[y] = None
                go(y.args[0])
                return
            for z in y.args:
                go(z)
        elif isinstance(y, tuple):
            for z in y:
                go(z)
    for b in bs:
        go(b)
    return list(atoms), list(alls)


def polarity(b, sign, out):
    """record with which signs quantified formulas occur in b, asserted or denied"""
    if b.kind == 'and':
        for x in b.args:
            polarity(x, sign, out)
    elif b.kind == 'not':
        polarity(b.args[0], -sign, out)
    elif b.kind == 'all':
        out.setdefault(b, set()).add(sign)
    else:
        for x in collect([b])[1]:
            out.setdefault(x, set()).update((1, -1))


_positions = {}


def bound_positions(a):
    """(tensor, position) pairs indexed by the bound variable of a reduction"""
    r = _positions.get(a.id)
    if r is None:
        w = T.fresh_ix(a.args[2][0][0], 'm')
        r = _positions[a.id] = {(e.args[0], j) for e in T.atoms_of(T.red_inst(a, 0, w)) if e.kind == 'elt'
                                for j, x in enumerate(e.args[1:]) if x is w}
    return r


def all_positions(b):
    """(tensor, position) pairs indexed by the bound variable of a universal formula"""
    r = _positions.get((b.id, 'all'))
    if r is None:
        w = T.fresh_ix(b.args[0], 'm')
        r = _positions[b.id, 'all'] = {(e.args[0], j) for e in T.atoms_of(T.all_inst(b, w)) if e.kind == 'elt'
                                       for j, x in enumerate(e.args[1:]) if x is w}
    return r


def solve_equalities(hyps):
    """equalities var == expr (var scalar, not in expr) as a substitution"""
    mp = {}
    for h in hyps:
        for e in (h.args if h.kind == 'and' else (h,)):
            if e.kind != 'eq':
                continue
            p = T.subst(e.args[0], mp) if mp else e.args[0]
            best = None
            for m, c in p.m:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var':
                    a = m[0][0]
                    if sum(1 for m2, _ in p.m for b, _e in m2 if b is a) > 1:
                        continue
                    rest = T.scale(T.sub(p, T._mkpoly({m: c})), -1 / c)
                    if a in T.atoms_of(rest):
                        continue
                    if a.sort == 'I' and rest.sort != 'I':
                        continue
                    best = (a, rest)
                    if rest.const() is not None:
                        break
            if best:
                a, rest = best
                mp = {k: T.subst(v, {a: rest}) for k, v in mp.items()}
                mp[a] = rest
    return mp


def with_indices(mp, forms):
    """extend a substitution of scalars to the indices whose range mentions them"""
    if not mp:
        return mp
    out = dict(mp)
    seen = set()
    for f in forms:
        for a in T.atoms_of(f):
            if a.kind == 'ix' and a.hi is not None and a not in seen:
                seen.add(a)
                hi = T.subst(a.hi, mp)
                if hi is not a.hi:
                    out[a] = T.ZERO if hi is T.ONE else T.fresh_ix(hi, 'r')
    return out


class Prover:
    def __init__(self, timeout_ms=20000, use_cvc5=True):
        self.timeout = timeout_ms
        self.use_cvc5 = use_cvc5
        self.stats = {'normaliser': 0, 'z3': 0, 'cvc5': 0}
        self.time = 0.0
        self.calls = 0
        self.z3_time = 0.0
        self.memo = {}
        self.slowest = 0.
        self.first = None       # a cheap search for a counterexample
        self.stop_at = 0.

    # -- public ------------------------------------------------------
    def prove(self, hyps, goal, depth=0, timeout=None):
        """returns (status, info); status in proved / refuted / unknown"""
        if goal is T.TRUE:
            return 'proved', 'normaliser'
        key = (frozenset(h.id for h in hyps), goal.id)
        r = self.memo.get(key)
        if r is None:
            t0 = time.time()
            if depth == 0:
                self.stop_at = t0 + 1.5 * self.timeout / 1000
            r = self._prove(hyps, goal, depth, timeout or self.timeout)
            if depth == 0:
                self.time += time.time() - t0
                if r[0] == 'proved':
                    self.slowest = max(self.slowest, time.time() - t0)
            self.memo[key] = r
        return r

    def _prove(self, hyps, goal, depth, timeout):
        mp = with_indices(solve_equalities(hyps), list(hyps) + [goal])
        if mp:
            hyps = [h2 for h in hyps for h2 in [T.subst(h, mp)] if h2 is not T.TRUE]
            goal = T.subst(goal, mp)
            if goal is T.TRUE:
                return 'proved', 'normaliser'
            if any(h is T.FALSE for h in hyps):
                return 'proved', 'normaliser'
        if goal in hyps:
            return 'proved', 'normaliser'
        if goal.kind == 'and':
            used = 'normaliser'
            for g in goal.args:
                s, i = self.prove(hyps, g, depth, timeout)
                if s != 'proved':
                    return s, i
                if i != 'normaliser':
                    used = i
            return 'proved', used
        if goal.kind == 'all':
            n = goal.args[0]
            ix = T.fresh_ix(n, 'w')
            return self.prove(hyps, T.all_inst(goal, ix), depth, timeout)
        if self._instance(hyps, goal):
            return 'proved', 'normaliser'
        return self._z3(hyps, goal, depth, timeout)

    def _instance(self, hyps, goal):
        """goal is an instance of a universal hypothesis at one of its own indices"""
        alls = [h for h in hyps if h.kind == 'all']
        if not alls:
            return False
        ixs = [T.P(a) for a in T.atoms_of(goal) if a.kind == 'ix']

        def match(h, depth):
            if h is goal:
                return True
            if h.kind == 'and':
                return any(match(x, depth) for x in h.args)
            if h.kind == 'all' and depth:
                n = h.args[0]
                return any(match(T.all_inst(h, i), depth - 1) for i in ixs if i.m[0][0][0][0].hi is n)
            return False
        return any(match(h, 3) for h in alls)

    # -- context of facts ---------------------------------------------
    def context(self, formulas, depth, hyps, goal=None):
        """z3 facts about the atoms of the formulas, quantifier instances and
        congruence of reductions"""
        facts = []
        work = list(formulas)
        done_all, done_red = set(), set()
        rounds = 0
        signs = {}
        for f in formulas:
            polarity(f, -1 if f is goal else 1, signs)
        while rounds < 6:
            rounds += 1
            atoms, alls = collect(work)
            ixs = [a for a in atoms if a.kind == 'ix']
            at = {}
            if depth == 0:
                # index terms at which entries of symbolic tensors are looked at
                for a in atoms:
                    if a.kind == 'elt':
                        for j, x in enumerate(a.args[1:]):
                            at.setdefault(x, set()).add((a.args[0], j))
            if rounds == 1:
                given = dict(at)
            new = []
            for b in alls:
                n, body, h = b.args
                zb = TR.boolean(b)
                sign = signs.setdefault(b, {1, -1})
                if -1 in sign and (b.id, 'neg') not in done_all:
                    done_all.add((b.id, 'neg'))
                    w = T.fresh_ix(n, 's')
                    inst = T.all_inst(b, w)
                    facts.append(z3.Or(zb, z3.And(z3.Not(TR.boolean(inst)), TR.num(n) >= 1)))
                    polarity(inst, -1, signs)
                    new.append(inst)
                if 1 not in sign:
                    continue
                for a in ixs:
                    if a.hi is n and (b.id, a.id) not in done_all:
                        done_all.add((b.id, a.id))
                        inst = T.all_inst(b, T.P(a))
                        facts.append(z3.Implies(zb, TR.boolean(inst)))
                        polarity(inst, 1, signs)
                        new.append(inst)
                for x, arrs in given.items():
                    if (b.id, 'at', x.id) in done_all or x is T.ZERO or not (arrs & all_positions(b)):
                        continue
                    done_all.add((b.id, 'at', x.id))
                    if any(T.P(a) is x and a.hi is n for a in ixs):
                        continue
                    inst = T.all_inst(b, x)
                    facts.append(z3.Implies(z3.And(zb, TR.num(x) >= 0, TR.num(x) < TR.num(n)), TR.boolean(inst)))
                    polarity(inst, 1, signs)
                    new.append(inst)
                if (b.id, '0') not in done_all:
                    done_all.add((b.id, '0'))
                    inst = T.all_inst(b, T.ZERO)
                    facts.append(z3.Implies(z3.And(zb, TR.num(n) >= 1), TR.boolean(inst)))
                    polarity(inst, 1, signs)
                    new.append(inst)
            if depth == 0:
                for a in atoms:
                    if a.kind == 'red' and a.args[0] == 'sum' and a.nn:
                        n = a.args[2][0][0]
                        names = None
                        for x, arrs in at.items():
                            if (a.id, x.id) in done_red:
                                continue
                            if names is None:
                                names = bound_positions(a)
                            if not (arrs & names):
                                continue
                            done_red.add((a.id, x.id))
                            inst = T.red_inst(a, 0, x)
                            if not T.is_nn(inst):
                                continue
                            f = T.le(inst, T.P(a))
                            facts.append(z3.Implies(z3.And(TR.num(x) >= 0, TR.num(x) < TR.num(n)), TR.boolean(f)))
                            new.append(f)
            if depth < 2:
                for a in atoms:
                    if a.kind == 'red' and a.args[0] == 'max':
                        n = a.args[2][0][0]
                        for x in ixs:
                            if x.hi is n and (a.id, x.id) not in done_red:
                                done_red.add((a.id, x.id))
                                inst = T.red_inst(a, 0, T.P(x))
                                f = T.le(inst, T.P(a))
                                facts.append(TR.boolean(f))
                                new.append(f)
                        if (a.id, 'w') not in done_red:
                            done_red.add((a.id, 'w'))
                            w = T.fresh_ix(n, 's')
                            inst = T.red_inst(a, 0, w)
                            f = T.eq(inst, T.P(a))
                            facts.append(z3.Implies(TR.num(n) >= 1, TR.boolean(f)))
                            new.append(f)
            if not new:
                break
            work = work + new
        atoms, _ = collect(work)
        # congruence between reductions
        if depth < 4:
            reds = [a for a in atoms if a.kind == 'red']
            groups = {}
            for a in reds:
                op, params, bodies = a.args
                groups.setdefault((op, len(params), len(bodies)), []).append(a)
            for g in groups.values():
                rep = []
                for a in g:
                    for b in rep:
                        if self.red_equal(hyps, a, b, depth):
                            facts.append(TR.at(a) == TR.at(b))
                            break
                    else:
                        rep.append(a)
            # sums of provably non negative / positive bodies
            for a in reds:
                if a.args[0] in ('sum', 'max') and not a.pos and depth < 2 and time.time() < self.stop_at:
                    n = a.args[2][0][0]
                    ix = T.fresh_ix(n)
                    body = T.red_inst(a, 0, ix)
                    hh = hyps + [T.le(T.ONE, n)]
                    s, _ = self.prove(hh, T.lt(T.ZERO, body), depth + 2, 1000)
                    if s == 'proved':
                        facts.append(z3.Implies(TR.num(n) >= 1, TR.at(a) > 0))
                        facts.append(TR.at(a) >= 0)
                    elif not a.nn:
                        s, _ = self.prove(hh, T.le(T.ZERO, body), depth + 2, 1000)
                        if s == 'proved':
                            facts.append(TR.at(a) >= 0)
        # monotonicity of exp / log / powr between occurrences
        for kind in ('exp', 'log'):
            es = [a for a in atoms if a.kind == kind][:8]
            for i in range(len(es)):
                for j in range(i):
                    xi, xj = TR.real(es[i].args[0]), TR.real(es[j].args[0])
                    ei, ej = TR.at(es[i]), TR.at(es[j])
                    if kind == 'exp':
                        facts.append(z3.And(z3.Implies(xi < xj, ei < ej), z3.Implies(xi > xj, ei > ej),
                                            z3.Implies(xi == xj, ei == ej)))
                    else:
                        facts.append(z3.Implies(z3.And(xi > 0, xj > 0),
                                                z3.And(z3.Implies(xi < xj, ei < ej), z3.Implies(xi > xj, ei > ej),
                                                       z3.Implies(xi == xj, ei == ej))))
        for a in atoms:
            TR.at(a)
        # roots may be created while translating: translate first
        for b in work:
            if isinstance(b, T.BT):
                TR.boolean(b)
        for a in atoms:
            facts.extend(TR.facts.get(a.id, ()))
        return facts

    def red_equal(self, hyps, a, b, depth):
        if time.time() > self.stop_at:
            return False
        op, pa, ba = a.args
        _, pb, bb = b.args
        for x, y in zip(pa, pb):
            if x is y or x == y:
                continue
            if not (isinstance(x, T.Poly) and isinstance(y, T.Poly)):
                return False
            if self.prove(hyps, T.eq(x, y), depth + 1, 3000)[0] != 'proved':
                return False
        for i, ((na, _), (nb, _)) in enumerate(zip(ba, bb)):
            if na is not nb and self.prove(hyps, T.eq(na, nb), depth + 1, 3000)[0] != 'proved':
                return False
            ix = T.fresh_ix(na)
            xa, xb = T.red_inst(a, i, ix), T.red_inst(b, i, ix)
            if xa is xb:
                continue
            if isinstance(xa, T.BT):
                g = T.b_iff(xa, xb)
            else:
                g = T.eq(xa, xb)
            if self.prove(hyps, g, depth + 1, 3000)[0] != 'proved':
                return False
        return True

    def _combine_sums(self, hyps, goal, depth):
        """a comparison whose sums over the same range compare pointwise"""
        if goal.kind not in ('eq', 'le', 'lt') or depth > 3:
            return False
        p = goal.args[0]
        groups = {}
        rest = T.ZERO
        for m, c in p.m:
            s = [(a, e) for a, e in m if a.kind == 'red' and a.args[0] == 'sum' and e == 1]
            if len(s) == 1:
                a = s[0][0]
                n = a.args[2][0][0]
                coef = T._mkpoly({tuple(x for x in m if x[0] is not a): c})
                groups.setdefault(n, []).append((coef, a))
            else:
                rest = T.add(rest, T._mkpoly({m: c}))
        if goal.kind == 'le' and len(groups) > 1:
            for n, lst in groups.items():
                ix = T.fresh_ix(n)
                body = T.psum([T.mul(c, T.red_inst(a, 0, ix)) for c, a in lst])
                if self.prove(hyps + [T.le(T.ONE, n)], T.le0(body), depth + 1, 5000)[0] != 'proved':
                    return False
            return self.prove(hyps, T.le0(rest), depth + 1, 5000)[0] == 'proved'
        if len(groups) != 1:
            return False
        (n, lst), = groups.items()
        if len(lst) < 2 and not rest.m and goal.kind == 'eq':
            return False
        if (rest.m or goal.kind == 'lt') and self.prove(hyps, T.le(T.ONE, n), depth + 1, 2000)[0] != 'proved':
            return False
        ix = T.fresh_ix(n)
        body = T.psum([T.mul(c, T.red_inst(a, 0, ix)) for c, a in lst])
        # rest must be n * r
        if rest.m:
            body = T.add(body, T.div(rest, n))
        g = {'eq': T.eq0, 'le': T.le0, 'lt': T.lt0}[goal.kind](body)
        return self.prove(hyps + [T.le(T.ONE, n)], g, depth + 1, 5000)[0] == 'proved'

    def _z3(self, hyps, goal, depth, timeout):
        if depth == 0 and self.first is not None:
            env = self.first(hyps, goal)
            if env is not None:
                return 'falsified', env
        forms = list(hyps) + [goal]
        zg = TR.boolean(goal)
        zh = [TR.boolean(h) for h in hyps]
        facts = self.context(forms, depth, hyps, goal)
        s = z3.Solver()
        s.set('timeout', int(timeout))
        s.add(*zh)
        s.add(*facts)
        s.add(z3.Not(zg))
        t0 = time.time()
        r = s.check()
        self.calls += 1
        self.z3_time += time.time() - t0
        if r == z3.unsat:
            return 'proved', 'z3'
        if self._combine_sums(hyps, goal, depth):
            return 'proved', 'z3'
        if r == z3.unknown and self.use_cvc5 and depth == 0:
            if run_cvc5(s, max(timeout, 60000)):
                return 'proved', 'cvc5'
        if r == z3.sat:
            return 'sat', s.model()
        return 'unknown', s.reason_unknown()


def run_cvc5(solver, timeout):
    exe = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=True) as f:
            f.write(txt)
            f.flush()
            out = subprocess.run([exe, f'--tlimit={int(timeout)}', f.name], capture_output=True, text=True,
                                 timeout=timeout / 1000 + 5)
        return out.stdout.strip().startswith('unsat')
    except Exception:
        return False
