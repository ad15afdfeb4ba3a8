"""Symbolic terms of the verifier.

Numbers are polynomials with rational coefficients over atoms with rational
exponents, hash-consed and kept in a normal form.  Atoms are variables, entries
of symbolic tensors, reductions with a bound index (sum, max, row functions),
exponentials, logarithms, absolute values and powers.  Booleans are built over
comparisons of numbers with zero.  All arithmetic is over the reals/integers.
"""
from fractions import Fraction as Q
import itertools
import math

_tbl = {}
_ctr = itertools.count(1)
Q0, Q1, QH = Q(0), Q(1), Q(1, 2)


class TermError(Exception):
    pass


class Atom:
    __slots__ = ('kind', 'args', 'sort', 'id', 'height', 'fv', 'nn', 'pos', 'hi')

    def __repr__(self):
        return show_atom(self)


class Poly:
    __slots__ = ('m', 'id', 'height', 'fv', 'sort', '_nn', '_pos')

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    # convenience operators (used by engine code only)
    def __add__(self, o):
        return add(self, P(o))
    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, P(o))

    def __rsub__(self, o):
        return sub(P(o), self)

    def __mul__(self, o):
        return mul(self, P(o))
    __rmul__ = __mul__

    def __neg__(self):
        return scale(self, -1)

    def __truediv__(self, o):
        return div(self, P(o))

    def __rtruediv__(self, o):
        return div(P(o), self)

    def const(self):
        """the rational value if constant, else None"""
        if not self.m:
            return Q0
        if len(self.m) == 1 and self.m[0][0] == ():
            return self.m[0][1]
        return None


class BT:
    __slots__ = ('kind', 'args', 'id', 'height', 'fv')

    def __repr__(self):
        return showb(self)

    def __deepcopy__(self, memo):
        return self


EMPTY = frozenset()


def _fv_of(x):
    if isinstance(x, (Atom, Poly, BT)):
        return x.fv
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            f = _fv_of(y)
            if f:
                r = r | f
        return r
    return EMPTY


def _h_of(x):
    if isinstance(x, (Atom, Poly, BT)):
        return x.height
    if isinstance(x, tuple):
        return max((_h_of(y) for y in x), default=0)
    return 0


def atom(kind, args, sort='R', nn=False, pos=False, hi=None):
    key = ('A', kind, args, sort)
    if kind in ('var', 'elt'):
        # a name declared with other bounds on another path is another symbol
        key += (nn or pos, pos)
    elif kind == 'ix':
        key += (hi,)
    a = _tbl.get(key)
    if a is not None:
        if nn:
            a.nn = True
        if pos:
            a.nn = a.pos = True
        return a
    a = Atom()
    a.kind, a.args, a.sort = kind, args, sort
    a.id = next(_ctr)
    a.nn, a.pos = nn or pos, pos
    a.hi = hi
    if kind in ('ix', 'bv'):
        a.fv = frozenset([a])
        a.height = 0
        a.nn = True
    else:
        a.fv = _fv_of(args)
        a.height = _h_of(args)
    _tbl[key] = a
    return a


def _mkpoly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda mc: _mkey(mc[0])))
    key = ('P', items)
    p = _tbl.get(key)
    if p is not None:
        return p
    p = Poly()
    p.m = items
    p.id = next(_ctr)
    h, fv, s = 0, EMPTY, 'I'
    for m, c in items:
        if c.denominator != 1:
            s = 'R'
        for a, e in m:
            if a.height > h:
                h = a.height
            if a.fv:
                fv = fv | a.fv
            if a.sort != 'I' or e.denominator != 1 or e < 0:
                s = 'R'
    p.height, p.fv, p.sort = h, fv, s
    p._nn = p._pos = None
    _tbl[key] = p
    return p


def _mkey(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _mkpoly({((x, Q1),): Q1})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return _mkpoly({(): Q(x)})
    if isinstance(x, Q):
        return _mkpoly({(): x})
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise TermError('non finite constant')
        return _mkpoly({(): Q(repr(x))})
    raise TermError(f'not a number: {type(x)}')


def to_bool(x):
    return TRUE if x else FALSE


ZERO = _mkpoly({})
ONE = _mkpoly({(): Q1})


def add(a, b):
    if not a.m:
        return b
    if not b.m:
        return a
    d = dict(a.m)
    for m, c in b.m:
        d[m] = d.get(m, Q0) + c
    return _mkpoly(d)


def scale(a, c):
    c = Q(c)
    if c == 1:
        return a
    return _mkpoly({m: k * c for m, k in a.m})


def sub(a, b):
    return add(a, scale(b, -1))


def psum(ps):
    d = {}
    for p in ps:
        for m, c in p.m:
            d[m] = d.get(m, Q0) + c
    return _mkpoly(d)


# ---------------------------------------------------------------- monomials

def _atom_pow_special(a, e):
    """rewrite a**e into a polynomial when the atom kind calls for it, else None"""
    if a.kind == 'abs' and e.denominator == 1 and e.numerator % 2 == 0:
        return pow_q(a.args[0], e)
    if a.kind == 'sgn' and e.denominator == 1 and e > 1:
        if e.numerator % 2 == 1:
            return P(a)
    if a.kind == 'pa':
        if e.denominator == 1 and 0 < e <= 4:
            return pow_q(a.args[0], e)
    if a.kind == 'prime' and e.denominator == 1:
        return P(Q(a.args[0]) ** e.numerator)
    if a.kind == 'prime' and (e >= 1 or e < 0):
        n = math.floor(e)
        return mul(P(Q(a.args[0]) ** n), _mkpoly({((a, e - n),): Q1}))
    return None


def _mono_mul(m1, m2):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, Q0) + e
    extra = None
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind in ('abs', 'pa', 'prime', 'sgn'):
            r = _atom_pow_special(a, e)
            if r is not None:
                extra = r if extra is None else mul(extra, r)
                continue
        out.append((a, e))
    out.sort(key=lambda ae: ae[0].id)
    return tuple(out), extra


_mulcache = {}


def mul(a, b):
    if not a.m or not b.m:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    key = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulcache.get(key)
    if r is not None:
        return r
    d = {}
    extras = []
    for m1, c1 in a.m:
        for m2, c2 in b.m:
            m, ex = _mono_mul(m1, m2)
            if ex is None:
                d[m] = d.get(m, Q0) + c1 * c2
            else:
                extras.append(mul(_mkpoly({m: c1 * c2}), ex))
    r = _mkpoly(d)
    if extras:
        r = psum([r] + extras)
    _mulcache[key] = r
    return r


def is_nn_mono(m):
    for a, e in m:
        if a.nn:
            continue
        if e.denominator != 1:
            continue          # principal root: non negative where defined
        if e.numerator % 2 == 0:
            continue
        return False
    return True


def is_pos_mono(m):
    return all(a.pos for a, e in m)


def is_nn(p):
    if p._nn is None:
        p._nn = all(c > 0 and is_nn_mono(m) for m, c in p.m)
    return p._nn


def is_pos(p):
    if p._pos is None:
        p._pos = is_nn(p) and any(c > 0 and is_pos_mono(m) for m, c in p.m)
    return p._pos


def _factor(n):
    out = {}
    f = 2
    while f * f <= n and f < 5000:
        while n % f == 0:
            out[f] = out.get(f, 0) + 1
            n //= f
        f += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _const_pow(c, q):
    """c**q for c > 0"""
    if q.denominator == 1:
        return P(c ** q.numerator)
    r = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in _factor(n).items():
            e = q * k * s
            fl = math.floor(e)
            fr = e - fl
            r = mul(r, P(Q(pr) ** fl))
            if fr:
                r = mul(r, _mkpoly({((atom('prime', (pr,), pos=True), fr),): Q1}))
    return r


def _content(p):
    """(monomial gcd over sign-known atoms and exponents, rest)"""
    common = None
    for m, c in p.m:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                if a in d:
                    common[a] = min(common[a], d[a])
                else:
                    del common[a]
        if not common:
            break
    return common or {}


def _divmono(p, common):
    inv = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda ae: ae[0].id))
    return mul(p, _mkpoly({inv: Q1})) if inv else p


def pow_q(p, q):
    """p ** q, q rational constant (real power, principal root)"""
    q = Q(q)
    if q == 0:
        return ONE
    if q == 1:
        return p
    if not p.m:
        if q > 0:
            return ZERO
        return P(atom('undef', ('pow0', q)))
    if len(p.m) == 1:
        m, c = p.m[0]
        if len(m) == 1 and m[0][0].kind == 'pa' and m[0][1] == 1 and c > 0:
            r = pow_q(m[0][0].args[0], q)
            return r if c == 1 else mul(_const_pow(c, q), r)
        if q.denominator == 1:
            r = P(c ** q.numerator)
            for a, e in m:
                ne = e * q
                s = _atom_pow_special(a, ne)
                r = mul(r, s if s is not None else _mkpoly({((a, ne),): Q1}))
            return r
        r = ONE
        rest = []
        for a, e in m:
            if a.nn or e.denominator != 1:
                s = _atom_pow_special(a, e * q)
                r = mul(r, s if s is not None else _mkpoly({((a, e * q),): Q1}))
            elif e.numerator % 2 == 0:
                ab = atom('abs', (P(a),), nn=True)
                s = _atom_pow_special(ab, e * q)
                r = mul(r, s if s is not None else _mkpoly({((ab, e * q),): Q1}))
            else:
                rest.append((a, e))
        if c > 0 and not rest:
            return mul(r, _const_pow(c, q))
        if c > 0:
            r = mul(r, _const_pow(c, q))
            c = Q1
        else:
            r = mul(r, _const_pow(-c, q))
            c = Q(-1)
        base = _mkpoly({tuple(rest): c})
        return mul(r, _mkpoly({((atom('pa', (base,)), q),): Q1}))
    # several monomials
    common = _content(p)
    for m, _ in p.m:
        for a, e in m:
            if e < 0 and a.pos and e < common.get(a, 0):
                common[a] = e
    if q.denominator != 1:
        common = {a: e for a, e in common.items() if a.nn}
    r = ONE
    if common:
        p2 = _divmono(p, common)
        cm = _mkpoly({tuple(sorted(common.items(), key=lambda ae: ae[0].id)): Q1})
        r = pow_q(cm, q)
        if len(p2.m) == 1 or not p2.m:
            return mul(r, pow_q(p2, q))
        p = p2
    c0 = p.m[-1][1]
    if q.denominator != 1:
        c0 = abs(c0)
    p = scale(p, 1 / c0)
    r = mul(r, P(c0 ** q.numerator) if q.denominator == 1 else _const_pow(c0, q))
    if q.denominator == 1 and 0 < q <= 4:
        acc = p
        for _ in range(int(q) - 1):
            acc = mul(acc, p)
        return mul(r, acc)
    return mul(r, _mkpoly({((atom('pa', (p,), nn=is_nn(p), pos=is_pos(p)), q),): Q1}))


def div(a, b):
    return mul(a, pow_q(b, Q(-1)))


def sqrt(a):
    return pow_q(a, QH)


def powr(base, ex):
    """base ** ex with a possibly symbolic exponent"""
    c = ex.const()
    if c is not None:
        return pow_q(base, c)
    if is_pos(base):
        return exp(mul(ex, log(base)))
    bc = base.const()
    if bc is not None and bc == 0 and is_pos(ex):
        return ZERO
    return P(atom('powr', (base, ex), nn=is_nn(base)))


def exp(p):
    r = ONE
    for m, c in p.m:
        if len(m) == 1 and m[0][0].kind == 'log' and m[0][1] == 1:
            r = mul(r, pow_q(m[0][0].args[0], c))
        else:
            r = mul(r, _mkpoly({((atom('exp', (_mkpoly({m: Q1}),), pos=True), c),): Q1}))
    return r


def _log_const(c):
    out = ZERO
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in _factor(n).items():
            out = add(out, scale(P(atom('log', (P(pr),))), s * k))
    return out


def log(p):
    if not p.m:
        return P(atom('undef', ('log0',)))
    if len(p.m) == 1:
        m, c = p.m[0]
        out = ZERO
        rest = []
        for a, e in m:
            if a.kind == 'exp':
                out = add(out, scale(a.args[0], e))
            elif a.pos or (a.nn and a.kind in ('red',) and False):
                out = add(out, scale(P(atom('log', (P(a),))), e))
            else:
                rest.append((a, e))
        if c > 0 and c != 1:
            out = add(out, _log_const(c))
            c = Q1
        elif c < 0 and c != -1:
            out = add(out, _log_const(-c))
            c = Q(-1)
        if rest:
            if len(rest) == 1 and c > 0 and (rest[0][0].nn or rest[0][1].denominator != 1):
                # a**e > 0 with a >= 0 means a > 0
                out = add(out, scale(P(atom('log', (P(rest[0][0]),))), rest[0][1]))
            elif c > 0 and all(a.nn for a, e in rest):
                for a, e in rest:
                    out = add(out, scale(P(atom('log', (P(a),))), e))
            else:
                out = add(out, P(atom('log', (_mkpoly({tuple(rest): c}),))))
        elif c < 0:
            out = add(out, P(atom('log', (P(c),))))
        return out
    common = {a: e for a, e in _content(p).items() if a.pos}
    out = ZERO
    if common:
        p = _divmono(p, common)
        for a, e in common.items():
            out = add(out, log(_mkpoly({((a, e),): Q1})))
    c0 = abs(p.m[-1][1])
    if c0 != 1:
        out = add(out, _log_const(c0))
        p = scale(p, 1 / c0)
    return add(out, P(atom('log', (p,))))


def absv(p):
    if not p.m:
        return ZERO
    if is_nn(p):
        return p
    if len(p.m) == 1:
        m, c = p.m[0]
        r = P(abs(c))
        for a, e in m:
            if a.nn or e.denominator != 1 or e.numerator % 2 == 0:
                r = mul(r, _mkpoly({((a, e),): Q1}))
            elif a.kind == 'sgn':
                r = mul(r, _mkpoly({((a, Q(2)),): Q1}))
            else:
                ab = atom('abs', (P(a),), nn=True)
                r = mul(r, _mkpoly({((ab, e),): Q1}))
        return r
    if is_nn(scale(p, -1)):
        return scale(p, -1)
    common = _content(p)
    r = ONE
    if common:
        cm = _mkpoly({tuple(sorted(common.items(), key=lambda ae: ae[0].id)): Q1})
        r = absv(cm)
        p = _divmono(p, common)
    c0 = p.m[-1][1]
    p = scale(p, 1 / c0)
    return scale(mul(r, P(atom('abs', (p,), sort=p.sort, nn=True))), abs(c0))


def maxv(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if is_nn(d):
        return a
    if is_nn(scale(d, -1)):
        return b
    return scale(add(add(a, b), absv(d)), QH)


def minv(a, b):
    return scale(maxv(scale(a, -1), scale(b, -1)), -1)


def relu(a):
    return maxv(a, ZERO)


def fn(name, *args, nn=False, pos=False):
    """uninterpreted scalar function"""
    return P(atom('fn', (name,) + tuple(args), nn=nn, pos=pos))


def var(name, sort='R', nn=False, pos=False):
    return P(atom('var', (name,), sort, nn=nn, pos=pos))


def elt(name, idx, sort='R', nn=False, pos=False):
    return P(atom('elt', (name,) + tuple(idx), sort, nn=nn, pos=pos))


_ixc = itertools.count(1)


def fresh_ix(hi, tag='k'):
    a = atom('ix', (f'{tag}!{next(_ixc)}',), 'I', nn=True, hi=hi)
    return P(a)


def bv(h, slot=0):
    return P(atom('bv', (h, slot), 'I', nn=True))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.kind == 'not':
        return ite(c.args[0], b, a)
    s = 'I' if a.sort == 'I' and b.sort == 'I' else 'R'
    # canonical: b + [c](a-b) is not used: keep branches for congruence
    return P(atom('ite', (c, a, b), s, nn=is_nn(a) and is_nn(b), pos=is_pos(a) and is_pos(b)))


# ------------------------------------------------------- integer div and mod

def _in_range(r, b):
    """syntactic check that 0 <= r < b"""
    c = r.const()
    if c is not None:
        bc = b.const()
        if bc is not None:
            return 0 <= c < bc
        return c == 0 and is_pos(b)
    if len(r.m) == 1 and r.m[0][1] == 1 and len(r.m[0][0]) == 1:
        a, e = r.m[0][0][0]
        if e == 1 and a.kind == 'ix' and a.hi is b:
            return True
        if e == 1 and a.kind == 'imod' and a.args[1] is b:
            return True
    # i * d + j  with  j < d, i < n  and b = n * d
    if len(r.m) == 2:
        for (m, c) in r.m:
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ix' and m[0][0].hi is not None:
                d = m[0][0].hi
                rest = sub(r, _mkpoly({m: c}))
                q, rr = _split_div(rest, d)
                if not rr.m and len(q.m) == 1:
                    qa = q.m[0][0]
                    if q.m[0][1] == 1 and len(qa) == 1 and qa[0][1] == 1 and qa[0][0].kind == 'ix' \
                            and qa[0][0].hi is not None and mul(qa[0][0].hi, d) is b:
                        return True
    return False


def _split_div(a, b):
    """a = q*b + r with monomials of a divisible by the monomial b collected in q"""
    if len(b.m) != 1:
        return ZERO, a
    bm, bc = b.m[0]
    bd = dict(bm)
    q, r = {}, {}
    for m, c in a.m:
        d = dict(m)
        if all(d.get(x, 0) >= e for x, e in bd.items()) and (c / bc).denominator == 1:
            nm = tuple(sorted(((x, d[x] - bd.get(x, 0)) for x in d if d[x] - bd.get(x, 0) != 0),
                              key=lambda ae: ae[0].id))
            q[nm] = q.get(nm, Q0) + c / bc
        else:
            r[m] = c
    return _mkpoly(q), _mkpoly(r)


def idiv(a, b):
    ca, cb = a.const(), b.const()
    if cb == 1:
        return a
    if ca is not None and cb is not None and cb != 0:
        return P(ca // cb)
    q, r = _split_div(a, b)
    if not r.m or _in_range(r, b):
        return q
    return add(q, P(atom('idiv', (r, b), 'I', nn=is_nn(r) and is_pos(b))))


def imod(a, b):
    ca, cb = a.const(), b.const()
    if cb == 1:
        return ZERO
    if ca is not None and cb is not None and cb != 0:
        return P(ca % cb)
    q, r = _split_div(a, b)
    if not r.m:
        return ZERO
    if _in_range(r, b):
        return r
    return P(atom('imod', (r, b), 'I', nn=True))


def floor(p):
    c = p.const()
    if c is not None:
        return P(Q(math.floor(c)))
    if p.sort == 'I':
        return p
    ipart, rest = {}, {}
    for m, c in p.m:
        one = _mkpoly({m: c})
        if one.sort == 'I':
            ipart[m] = c
        else:
            rest[m] = c
    return add(_mkpoly(ipart), P(atom('floor', (_mkpoly(rest),), 'I', nn=is_nn(_mkpoly(rest)))))


# ------------------------------------------------------------- reductions

def subst(x, mp, memo=None):
    """replace atoms by polynomials (mp: Atom -> Poly), renormalising"""
    if memo is None:
        memo = {}
    return _subst(x, mp, memo)


def _touches(x, mp):
    return True


def _subst(x, mp, memo):
    if isinstance(x, Poly):
        r = memo.get(x.id)
        if r is not None:
            return r
        parts = []
        changed = False
        for m, c in x.m:
            f = None
            for a, e in m:
                na = _subst_atom(a, mp, memo)
                if na is None:
                    continue
                changed = True
                f = f or {}
                f[a] = na
            if f is None:
                parts.append(_mkpoly({m: c}))
            else:
                keep = tuple((a, e) for a, e in m if a not in f)
                r = _mkpoly({keep: c})
                for a, e in m:
                    if a in f:
                        r = mul(r, pow_q(f[a], e))
                parts.append(r)
        r = psum(parts) if changed else x
        memo[x.id] = r
        return r
    if isinstance(x, BT):
        return _subst_b(x, mp, memo)
    if isinstance(x, Atom):
        r = _subst_atom(x, mp, memo)
        return P(x) if r is None else r
    if isinstance(x, tuple):
        return tuple(_subst(y, mp, memo) if isinstance(y, (Poly, BT, Atom, tuple)) else y for y in x)
    return x


def _subst_atom(a, mp, memo):
    """new Poly, or None when unchanged"""
    if a in mp:
        return mp[a]
    key = ('a', a.id)
    if key in memo:
        return memo[key]
    k = a.kind
    r = None
    if k in ('var', 'ix', 'bv', 'prime', 'undef'):
        r = None
    else:
        nargs = tuple(_subst(y, mp, memo) if isinstance(y, (Poly, BT, tuple)) and k != 'red' else y
                      for y in a.args)
        if k == 'red':
            r = _subst_red(a, mp, memo)
        elif nargs == a.args:
            r = None
        else:
            r = rebuild(a, nargs)
    memo[key] = r
    return r


def rebuild(a, nargs):
    k = a.kind
    if k == 'elt' or k == 'fn':
        if k == 'fn' and nargs[0] in FN_REBUILD:
            return FN_REBUILD[nargs[0]](*nargs[1:])
        return P(atom(k, nargs, a.sort, nn=a.nn, pos=a.pos))
    if k == 'abs':
        return absv(nargs[0])
    if k == 'exp':
        return exp(nargs[0])
    if k == 'log':
        return log(nargs[0])
    if k == 'pa':
        return nargs[0]
    if k == 'powr':
        return powr(*nargs)
    if k == 'ite':
        return ite(*nargs)
    if k == 'idiv':
        return idiv(*nargs)
    if k == 'imod':
        return imod(*nargs)
    if k == 'floor':
        return floor(nargs[0])
    if k == 'sgn':
        return sgn(nargs[0])
    if k == 'cond':
        return ite(nargs[0], ONE, ZERO)
    raise TermError('rebuild ' + k)


FN_REBUILD = {}


def sgn(p):
    if not p.m:
        return ZERO
    if is_pos(p):
        return ONE
    if is_pos(scale(p, -1)):
        return scale(ONE, -1)
    return P(atom('sgn', (p,), 'I'))


def red_parts(a):
    """(op, params, bodies) of a reduction atom"""
    return a.args


def red_inst(a, i, t):
    """i-th body of reduction a at index t"""
    op, params, bodies = a.args
    n, body = bodies[i]
    h = a.height
    b = atom('bv', (h, i), 'I', nn=True)
    return subst(body, {b: t})


def _mk_red(op, params, fbodies, nn=False, pos=False, sort='R'):
    """fbodies: list of (n, ix Poly, body Poly/BT) with ix a fresh index"""
    h = 1 + max([_h_of(b) for _, _, b in fbodies] + [_h_of(params)] + [0])
    bodies = []
    for i, (n, ix, b) in enumerate(fbodies):
        ixa = ix.m[0][0][0][0]
        bodies.append((n, subst(b, {ixa: bv(h, i)})))
    a = atom('red', (op, tuple(params), tuple(bodies)), sort, nn=nn, pos=pos)
    a.height = h
    # bound variables are not free
    fv = _fv_of(params)
    for (n, b), (_, ix, _b) in zip(bodies, fbodies):
        fv = fv | n.fv | b.fv
    a.fv = frozenset(v for v in fv if not (v.kind == 'bv' and v.args[0] == h))
    return P(a)


def _subst_red(a, mp, memo):
    op, params, bodies = a.args
    new = []
    changed = False
    nparams = _subst(params, mp, memo)
    if nparams != params:
        changed = True
    insts = []
    for i, (n, body) in enumerate(bodies):
        nn_ = _subst(n, mp, memo)
        ix = fresh_ix(nn_)
        b = atom('bv', (a.height, i), 'I', nn=True)
        mp2 = dict(mp)
        mp2[b] = ix
        nb = subst(body, mp2)
        insts.append((nn_, ix, nb))
        # unchanged?
        if nn_ is not n:
            changed = True
        else:
            back = subst(nb, {ix.m[0][0][0][0]: P(b)})
            if back is not body:
                changed = True
    if not changed:
        return None
    return build_red(op, nparams, insts, a)


def build_red(op, params, insts, like=None):
    if op == 'sum':
        n, ix, b = insts[0]
        return _sum_body(n, ix, b)
    if op == 'max':
        n, ix, b = insts[0]
        return _max_body(n, ix, b)
    if op == 'norm':
        n, ix, b = insts[0]
        return _norm_body(params[0], n, ix, b)
    nn = like.nn if like is not None else False
    pos = like.pos if like is not None else False
    return _mk_red(op, params, insts, nn=nn, pos=pos, sort=like.sort if like is not None else 'R')


def _depends(x, ixa):
    return ixa in x.fv


def _const_small(n, lim=3):
    c = n.const()
    return int(c) if c is not None and c <= lim else None


def sum_(n, f, tag='k'):
    n = P(n)
    c = _const_small(n)
    if c is not None:
        return psum([f(P(i)) for i in range(c)])
    ix = fresh_ix(n, tag)
    return _sum_body(n, ix, f(ix))


def _divs_of(x, ixa, acc, seen):
    """divisors b of idiv/imod atoms whose argument is exactly the index"""
    if isinstance(x, Poly):
        if x.id in seen or ixa not in x.fv:
            return
        seen.add(x.id)
        for m, c in x.m:
            for a, e in m:
                _divs_of(a, ixa, acc, seen)
    elif isinstance(x, Atom):
        if ixa not in x.fv:
            return
        if x.kind in ('idiv', 'imod') and x.args[0] is P(ixa):
            acc.append(x.args[1])
        for y in x.args:
            _divs_of(y, ixa, acc, seen)
    elif isinstance(x, BT):
        if ixa not in x.fv:
            return
        for y in x.args:
            _divs_of(y, ixa, acc, seen)
    elif isinstance(x, tuple):
        for y in x:
            _divs_of(y, ixa, acc, seen)


def _unflatten(n, ixa, body, again):
    """index over n = q*b used through div/mod b: split in two nested indices"""
    if len(n.m) == 1 and len(n.m[0][0]) >= 1 and (len(n.m[0][0]) >= 2 or n.m[0][1] != 1):
        acc = []
        _divs_of(body, ixa, acc, set())
        for b in acc:
            q, r = _split_div(n, b)
            if q.m and not r.m and q is not ONE:
                return q, b
    return None


def _cuts_of(x, ixa, acc, seen):
    """thresholds a of comparisons of the index with a"""
    if isinstance(x, (Poly, Atom, BT)):
        if id(x) in seen or ixa not in x.fv:
            return
        seen.add(id(x))
        if isinstance(x, BT) and x.kind in ('lt', 'le'):
            for m, c in x.args[0].m:
                if m == ((ixa, Q1),) and abs(c) == 1:
                    a = sub(x.args[0], _mkpoly({m: c}))
                    a = scale(a, -1) if c == 1 else a
                    if ixa not in a.fv:
                        acc.append(a)
        if isinstance(x, Poly):
            for m, c in x.m:
                for a, e in m:
                    _cuts_of(a, ixa, acc, seen)
        else:
            for y in x.args:
                _cuts_of(y, ixa, acc, seen)
    elif isinstance(x, tuple):
        for y in x:
            _cuts_of(y, ixa, acc, seen)


def _cut(n, ixa, body):
    """n = a + b with both parts non negative and the body comparing its index with a"""
    if len(n.m) >= 2 and is_nn(n):
        acc = []
        _cuts_of(body, ixa, acc, set())
        for a in acc:
            b = sub(n, a)
            if a.m and b.m and is_nn(a) and is_nn(b):
                return a, b
    return None


def _delta(n, ixa, dep):
    """sum of [index = t] * x with t in range: x at t"""
    for a, e in dep:
        if a.kind != 'ite' or e <= 0 or a.args[0].kind != 'eq' or a.args[2].m:
            continue
        p = a.args[0].args[0]
        for m, c in p.m:
            if m == ((ixa, Q1),) and abs(c) == 1:
                t = scale(sub(p, _mkpoly({m: c})), -1 / c)
                if ixa not in t.fv and _in_range(t, n):
                    rest = _mkpoly({tuple(x for x in dep if x[0] is not a): Q1})
                    return subst(mul(pow_q(a.args[1], e), rest), {ixa: t})
    return None


def _sum_body(n, ix, body):
    c = _const_small(n)
    ixa = ix.m[0][0][0][0]
    if c is not None:
        return psum([subst(body, {ixa: P(i)}) for i in range(c)])
    cut = _cut(n, ixa, body)
    if cut is not None:
        a, b = cut
        i, j = fresh_ix(a), fresh_ix(b)
        return add(_sum_body(a, i, subst(body, {ixa: i})), _sum_body(b, j, subst(body, {ixa: add(a, j)})))
    uf = _unflatten(n, ixa, body, None)
    if uf is not None:
        q, b = uf
        i, j = fresh_ix(q), fresh_ix(b)
        inner = subst(body, {ixa: add(mul(i, b), j)})
        return _sum_body(q, i, _sum_body(b, j, inner))
    out = []
    for m, c in body.m:
        dep, ind = [], []
        for a, e in m:
            (dep if ixa in a.fv else ind).append((a, e))
        if not dep:
            out.append(mul(_mkpoly({tuple(ind): c}), n))
            continue
        hit = _delta(n, ixa, dep)
        if hit is not None:
            out.append(mul(_mkpoly({tuple(ind): c}), hit))
            continue
        # push outer factors inside a nested sum (canonical: factors innermost)
        inner = [(a, e) for a, e in dep if a.kind == 'red' and a.args[0] == 'sum' and e == 1]
        if len(inner) == 1 and len(dep) > 1:
            a = inner[0][0]
            others = _mkpoly({tuple(x for x in dep if x[0] is not a): Q1})
            nn_, bod = a.args[2][0]
            j = fresh_ix(nn_)
            ib = red_inst(a, 0, j)
            nb = mul(others, ib)
            out.append(mul(_mkpoly({tuple(ind): c}), _sum_body(n, ix, _sum_body_raw(nn_, j, nb))))
            continue
        bp = _mkpoly({tuple(dep): Q1})
        out.append(mul(_mkpoly({tuple(ind): c}), _sum_swap(n, ix, bp)))
    return psum(out)


def _sum_body_raw(n, ix, body):
    """nested sum keeping all factors inside"""
    ixa = ix.m[0][0][0][0]
    out = []
    for m, c in body.m:
        bp = _mkpoly({m: Q1})
        if ixa not in bp.fv:
            out.append(mul(_mkpoly({m: c}), n))
        else:
            out.append(scale(_mk_red('sum', (), [(n, ix, bp)], nn=is_nn(bp), pos=is_pos(bp) and is_pos(n)), c))
    return psum(out)


def _sum_swap(n, ix, bp):
    """sum over ix of the single monomial bp; order directly nested sums canonically"""
    m = bp.m[0][0]
    if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'red' and m[0][0].args[0] == 'sum':
        a = m[0][0]
        n2, _ = a.args[2][0]
        ixa = ix.m[0][0][0][0]
        if n2.id < n.id and ixa not in n2.fv:
            j = fresh_ix(n2)
            ib = red_inst(a, 0, j)
            return _sum_body_keep(n2, j, _sum_body_raw(n, ix, ib))
    return _mk_red('sum', (), [(n, ix, bp)], nn=is_nn(bp), pos=is_pos(bp) and is_pos(n))


def _sum_body_keep(n, ix, body):
    out = []
    ixa = ix.m[0][0][0][0]
    for m, c in body.m:
        bp = _mkpoly({m: Q1})
        if ixa not in bp.fv:
            out.append(mul(_mkpoly({m: c}), n))
            continue
        ind = tuple((a, e) for a, e in m if ixa not in a.fv)
        dep = tuple((a, e) for a, e in m if ixa in a.fv)
        dp = _mkpoly({dep: Q1})
        out.append(mul(_mkpoly({ind: c}), _mk_red('sum', (), [(n, ix, dp)], nn=is_nn(dp), pos=is_pos(dp) and is_pos(n))))
    return psum(out)


def max_(n, f, tag='k'):
    n = P(n)
    ix = fresh_ix(n, tag)
    return _max_body(n, ix, f(ix))


def _max_body(n, ix, body):
    ixa = ix.m[0][0][0][0]
    if ixa not in body.fv:
        return body
    c = _const_small(n)
    if c is not None and c >= 1:
        r = subst(body, {ixa: ZERO})
        for i in range(1, c):
            r = maxv(r, subst(body, {ixa: P(i)}))
        return r
    cut = _cut(n, ixa, body)
    if cut is not None and is_pos(cut[0]) and is_pos(cut[1]):
        a, b = cut
        i, j = fresh_ix(a), fresh_ix(b)
        return maxv(_max_body(a, i, subst(body, {ixa: i})), _max_body(b, j, subst(body, {ixa: add(a, j)})))
    uf = _unflatten(n, ixa, body, None)
    if uf is not None:
        q, b = uf
        i, j = fresh_ix(q), fresh_ix(b)
        inner = subst(body, {ixa: add(mul(i, b), j)})
        return _max_body(q, i, _max_body(b, j, inner))
    common = {a: e for a, e in _content(body).items() if ixa not in a.fv and a.nn}
    r = ONE
    if common:
        r = _mkpoly({tuple(sorted(common.items(), key=lambda ae: ae[0].id)): Q1})
        body = _divmono(body, common)
    if len(body.m) == 1:
        c0 = body.m[0][1]
        if c0 > 0 and c0 != 1:
            r = scale(r, c0)
            body = scale(body, 1 / c0)
    return mul(r, _mk_red('max', (), [(n, ix, body)], nn=is_nn(body), pos=is_pos(body)))


def min_(n, f, tag='k'):
    return scale(max_(n, lambda k: scale(f(k), -1), tag), -1)


def norm_(p, n, f):
    """p-norm of the vector f over n entries; p: Poly or 'inf'"""
    n = P(n)
    ix = fresh_ix(n)
    return _norm_body(p, n, ix, f(ix))


def _norm_body(p, n, ix, body):
    ixa = ix.m[0][0][0][0]
    if n is ONE:
        return absv(subst(body, {ixa: ZERO}))
    if p == 'inf':
        return _max_body(n, ix, absv(body))
    c = p.const()
    if c == 1:
        return _sum_body(n, ix, absv(body))
    if c == 2:
        return sqrt(_sum_body(n, ix, mul(body, body)))
    cut = _cut(n, ixa, body)
    if cut is not None:
        i, j = fresh_ix(cut[0]), fresh_ix(cut[1])
        na, nb = _norm_body(p, cut[0], i, subst(body, {ixa: i})), _norm_body(p, cut[1], j, subst(body, {ixa: add(cut[0], j)}))
        return powr(add(powr(na, p), powr(nb, p)), div(ONE, p))
    b = absv(body)
    if not b.m:
        return ZERO
    common = {a: e for a, e in _content(b).items() if ixa not in a.fv}
    r = ONE
    if common:
        r = _mkpoly({tuple(sorted(common.items(), key=lambda ae: ae[0].id)): Q1})
        b = _divmono(b, common)
    if len(b.m) == 1:
        c0 = b.m[0][1]
        r = scale(r, c0)
        b = scale(b, 1 / c0)
    return mul(r, _mk_red('norm', (p,), [(n, ix, b)], nn=True))


def row(name, params, rows, nn=False, sort='R'):
    """uninterpreted function `name` of whole rows; rows: list of (n, f)"""
    fb = []
    for n, f in rows:
        n = P(n)
        ix = fresh_ix(n)
        fb.append((n, ix, f(ix)))
    return _mk_red('row:' + name, tuple(params), fb, nn=nn, sort=sort)


def logsumexp_(n, f):
    return log(sum_(n, lambda k: exp(f(k))))


# ------------------------------------------------------------------ booleans

def _bt(kind, args):
    key = ('B', kind, args)
    b = _tbl.get(key)
    if b is None:
        b = BT()
        b.kind, b.args, b.id = kind, args, next(_ctr)
        b.fv = _fv_of(args)
        b.height = _h_of(args)
        _tbl[key] = b
    return b


TRUE = _bt('true', ())
FALSE = _bt('false', ())


def bvar(name, *idx):
    return _bt('var', (name,) + tuple(idx))


def b_not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == 'not':
        return b.args[0]
    if b.kind == 'le':
        return lt0(scale(b.args[0], -1))
    if b.kind == 'lt':
        return le0(scale(b.args[0], -1))
    return _bt('not', (b,))


def b_and(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.kind == 'and':
            out.extend(b.args)
        else:
            out.append(b)
    out = tuple(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _bt('and', tuple(sorted(out, key=lambda b: b.id)))


def b_or(*bs):
    return b_not(b_and(*[b_not(b) for b in bs]))


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return b_not(b)
    if b is FALSE:
        return b_not(a)
    return b_and(b_implies(a, b), b_implies(b, a))


def _norm_cmp(p, sign_ok):
    c0 = p.m[-1][1]
    k = abs(c0) if not sign_ok else c0
    return scale(p, 1 / k) if k != 1 else p


def le0(p):
    """p <= 0"""
    c = p.const()
    if c is not None:
        return to_bool(c <= 0)
    if is_pos(p):
        return FALSE
    if is_nn(scale(p, -1)):
        return TRUE
    r = _ix_sign(p)
    if r is not None:
        return to_bool(r < 0)
    return _bt('le', (_norm_cmp(p, False),))


def _ix_sign(p):
    """-1 / 1 when p is an index minus something not below its range, or the opposite"""
    for m, c in p.m:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ix' and m[0][0].hi is not None and abs(c) == 1:
            a = m[0][0]
            rest = sub(p, _mkpoly({m: c}))
            if c == 1 and is_nn(sub(scale(rest, -1), a.hi)):
                return -1
            if c == -1 and is_nn(sub(rest, a.hi)):
                return 1
    return None


def lt0(p):
    c = p.const()
    if c is not None:
        return to_bool(c < 0)
    if is_nn(p):
        return FALSE
    if is_pos(scale(p, -1)):
        return TRUE
    r = _ix_sign(p)
    if r is not None:
        return to_bool(r < 0)
    return _bt('lt', (_norm_cmp(p, False),))


def eq0(p):
    c = p.const()
    if c is not None:
        return to_bool(c == 0)
    if is_pos(p) or is_pos(scale(p, -1)):
        return FALSE
    if p.sort == 'I' or all(a.sort == 'I' for m, _ in p.m for a, e in m):
        # an integer combination with a non integer constant cannot vanish
        p2 = _norm_cmp(p, True)
    return _bt('eq', (_norm_cmp(p, True),))


def eq(a, b):
    return eq0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def forall(n, f):
    """conjunction of f over 0 <= k < n"""
    n = P(n)
    c = _const_small(n)
    if c is not None:
        return b_and(*[f(P(i)) for i in range(c)])
    ix = fresh_ix(n)
    return _forall_body(n, ix, f(ix))


def _forall_body(n, ix, b):
    ixa = ix.m[0][0][0][0]
    if ixa not in b.fv:
        return b if is_pos(n) else b_or(le0(n), b)
    if b.kind == 'and':
        return b_and(*[_forall_body(n, ix, x) for x in b.args])
    h = 1 + b.height
    body = subst(b, {ixa: bv(h, 0)})
    r = _bt('all', (n, body, h))
    r.height = h
    r.fv = frozenset(v for v in (n.fv | body.fv) if not (v.kind == 'bv' and v.args[0] == h))
    return r


def exists(n, f):
    return b_not(forall(n, lambda k: b_not(f(k))))


def all_inst(b, t):
    n, body, h = b.args
    return subst(body, {atom('bv', (h, 0), 'I', nn=True): t})


def _subst_b(b, mp, memo):
    key = ('b', b.id)
    r = memo.get(key)
    if r is not None:
        return r
    k = b.kind
    if k in ('true', 'false'):
        r = b
    elif k == 'not':
        r = b_not(_subst(b.args[0], mp, memo))
    elif k == 'and':
        r = b_and(*[_subst(x, mp, memo) for x in b.args])
    elif k == 'le':
        r = le0(_subst(b.args[0], mp, memo))
    elif k == 'lt':
        r = lt0(_subst(b.args[0], mp, memo))
    elif k == 'eq':
        r = eq0(_subst(b.args[0], mp, memo))
    elif k == 'var':
        r = _bt('var', tuple(_subst(y, mp, memo) if isinstance(y, (Poly, tuple)) else y for y in b.args))
    elif k == 'all':
        n, body, h = b.args
        nn_ = _subst(n, mp, memo)
        ix = fresh_ix(nn_)
        mp2 = dict(mp)
        mp2[atom('bv', (h, 0), 'I', nn=True)] = ix
        nb = subst(body, mp2)
        c = _const_small(nn_)
        if c is not None:
            r = b_and(*[subst(nb, {ix.m[0][0][0][0]: P(i)}) for i in range(c)])
        else:
            r = _forall_body(nn_, ix, nb)
    else:
        raise TermError('subst bool ' + k)
    memo[key] = r
    return r


# -------------------------------------------------- renaming of symbols

def rename(x, fname):
    """rename variable / tensor-entry symbols: fname(name) -> name or None"""
    mp = {}
    for a in atoms_of(x):
        if a.kind == 'var':
            nn_ = fname(a.args[0])
            if nn_ is not None and nn_ != a.args[0]:
                mp[a] = P(atom('var', (nn_,), a.sort, nn=a.nn, pos=a.pos))
    return _rename(x, fname, mp, {})


def unprime(x):
    """identify a symbol with its detached twin"""
    r = _UNPRIMED.get(x)
    if r is None:
        if len(_UNPRIMED) > 200000:
            _UNPRIMED.clear()
        r = _UNPRIMED[x] = rename(x, _unprimed)
    return r


_UNPRIMED = {}


def _unprimed(n):
    return n.rstrip("'") if isinstance(n, str) and n.endswith("'") else None


def _rename(x, fname, mp, memo):
    # elements may have bound variables in their arguments: rename structurally
    if isinstance(x, Poly):
        r = memo.get(x.id)
        if r is None:
            parts = []
            for m, c in x.m:
                t = P(c)
                for a, e in m:
                    t = mul(t, pow_q(_rename_atom(a, fname, mp, memo), e))
                parts.append(t)
            r = psum(parts)
            memo[x.id] = r
        return r
    if isinstance(x, BT):
        if x.kind == 'all':
            n, body, h = x.args
            ix = fresh_ix(_rename(n, fname, mp, memo))
            nb = _rename(all_inst(x, ix), fname, mp, {})
            return _forall_body(_rename(n, fname, mp, memo), ix, nb)
        if x.kind in ('true', 'false'):
            return x
        if x.kind == 'not':
            return b_not(_rename(x.args[0], fname, mp, memo))
        if x.kind == 'and':
            return b_and(*[_rename(y, fname, mp, memo) for y in x.args])
        if x.kind == 'var':
            return _bt('var', tuple(_rename(y, fname, mp, memo) if isinstance(y, Poly) else y for y in x.args))
        f = {'le': le0, 'lt': lt0, 'eq': eq0}[x.kind]
        return f(_rename(x.args[0], fname, mp, memo))
    if isinstance(x, tuple):
        return tuple(_rename(y, fname, mp, memo) for y in x)
    return x


def _rename_atom(a, fname, mp, memo):
    if a in mp:
        return mp[a]
    if a.kind in ('var', 'ix', 'bv', 'prime', 'undef'):
        return P(a)
    if a.kind == 'elt':
        nm = fname(a.args[0])
        nargs = (nm if nm is not None else a.args[0],) + tuple(_rename(y, fname, mp, memo) for y in a.args[1:])
        return P(atom('elt', nargs, a.sort, nn=a.nn, pos=a.pos))
    if a.kind == 'red':
        op, params, bodies = a.args
        insts = []
        for i, (n, body) in enumerate(bodies):
            nn_ = _rename(n, fname, mp, memo)
            ix = fresh_ix(nn_)
            insts.append((nn_, ix, _rename(red_inst(a, i, ix), fname, mp, {})))
        np_ = tuple(_rename(y, fname, mp, memo) if isinstance(y, (Poly, tuple, BT)) else y for y in params)
        return build_red(op, np_, insts, a)
    nargs = tuple(_rename(y, fname, mp, memo) if isinstance(y, (Poly, BT, tuple)) else y for y in a.args)
    if nargs == a.args:
        return P(a)
    return rebuild(a, nargs)


# ------------------------------------------------------------- traversal

def atoms_of(x, deep=True):
    out = {}
    seen = set()

    def go(y):
        if isinstance(y, Poly):
            if y.id in seen:
                return
            seen.add(y.id)
            for m, c in y.m:
                for a, e in m:
                    go(a)
        elif isinstance(y, Atom):
            if y in out:
                return
            out[y] = None
            if y.kind == 'red' and not deep:
                return
            for z in y.args:
                go(z)
        elif isinstance(y, BT):
            if y.id in seen:
                return
            seen.add(y.id)
            if y.kind == 'all' and not deep:
                go(y.args[0])
                return
            for z in y.args:
                go(z)
        elif isinstance(y, tuple):
            for z in y:
                go(z)
    go(x)
    return list(out)


# ------------------------------------------------------------- printing

def show(p, depth=0):
    if not p.m:
        return '0'
    out = []
    for m, c in p.m:
        fs = []
        if c != 1 or not m:
            fs.append(str(c) if c.denominator == 1 else f'({c})')
        for a, e in m:
            s = show_atom(a)
            fs.append(s if e == 1 else f'{s}^{e if e.denominator == 1 and e > 0 else "(" + str(e) + ")"}')
        out.append('*'.join(fs))
    return ' + '.join(out)


def show_atom(a):
    k = a.kind
    if k == 'var':
        return a.args[0]
    if k == 'ix':
        return a.args[0]
    if k == 'bv':
        return f'i{a.args[0]}' + ("'" * a.args[1])
    if k == 'prime':
        return str(a.args[0])
    if k == 'elt':
        return f'{a.args[0]}[{",".join(show(x) for x in a.args[1:])}]'
    if k == 'fn':
        return f'{a.args[0]}({",".join(map(repr, a.args[1:]))})'
    if k == 'pa':
        return f'({show(a.args[0])})'
    if k == 'red':
        op, params, bodies = a.args
        bs = '; '.join(f'<{show(n)}> {b!r}' for n, b in bodies)
        ps = (','.join(map(repr, params)) + '|') if params else ''
        return f'{op}{{{ps}{bs}}}'
    return f'{k}({", ".join(map(repr, a.args))})'


def showb(b):
    k = b.kind
    if k in ('true', 'false'):
        return k
    if k == 'not':
        return f'!({b.args[0]!r})'
    if k == 'and':
        return '(' + ' & '.join(map(repr, b.args)) + ')'
    if k == 'le':
        return f'{show(b.args[0])} <= 0'
    if k == 'lt':
        return f'{show(b.args[0])} < 0'
    if k == 'eq':
        return f'{show(b.args[0])} == 0'
    if k == 'all':
        return f'forall<{show(b.args[0])}> ({b.args[1]!r})'
    return f'{b.args[0]}' + (f'[{",".join(map(repr, b.args[1:]))}]' if len(b.args) > 1 else '')
