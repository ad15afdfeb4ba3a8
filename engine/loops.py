"""Loop rules for `for` loops over a range with a symbolic bound.

The contract gives two callbacks: `havoc(loop, k)` puts the state it declares as modified into the form it may have at the
start of iteration k (k = 0: the state is what it is), `done(loop, k)` checks that one more iteration keeps that form.  The real body is then executed
once, from iteration k for an arbitrary k; when it ends without leaving the loop the path goes on behind the loop if that
was the last iteration and is cut otherwise.  Local variables of the function with the loop are handled here: the source is
read to make sure that no iteration reads a local variable an earlier one assigned, lists the body appends to get one opaque
element standing for what earlier iterations put there, and any other change to a local container is refused."""
import ast
import sys
from . import symexec as SE, terms as T
from .symexec import PathEnd, Unsupported
from .symval import mkint, poly

TREES = {}
MUTATORS = {'pop', 'insert', 'remove', 'clear', 'update', 'add', 'setdefault', 'popitem', 'sort', 'reverse', 'discard', '__setitem__'}


class Families(ast.NodeTransformer):
    """[e for x in xs] becomes a call of `family` below with x -> e and xs (the same list when xs has a concrete length), as do
    generators that are read at once; two generators make a family of families, flattened; `xs += [..]` for a local list is
    `xs.extend([..])`"""
    lists = frozenset()

    def visit_FunctionDef(self, n):
        old = self.lists
        self.lists = {t.id for m in ast.walk(n) if isinstance(m, ast.Assign) and isinstance(m.value, (ast.List, ast.ListComp))
                      for t in m.targets if isinstance(t, ast.Name)}
        self.generic_visit(n)
        self.lists = old
        return n

    def visit_AugAssign(self, n):
        listed = isinstance(n.value, (ast.List, ast.ListComp))
        self.generic_visit(n)
        if listed and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and n.target.id in self.lists:
            f = ast.Attribute(ast.copy_location(ast.Name(n.target.id, ast.Load()), n), 'extend', ast.Load())
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.Call(f, [n.value], [])), n))
        return n

    def call(self, n):
        for g in n.generators:
            t = g.target
            if g.ifs or g.is_async:
                return n
            if any(not isinstance(x, (ast.Name, ast.Tuple, ast.Store)) for x in ast.walk(t)):
                return n
        if len(n.generators) > 2 or any(isinstance(m, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for m in ast.walk(n)):
            return n
        e, depth = n.elt, len(n.generators)
        for g in reversed(n.generators):
            if isinstance(g.target, ast.Name):
                f = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), e)
            else:
                flat = all(isinstance(x, ast.Name) for x in g.target.elts)
                if not flat:
                    return n
                f = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(x.id) for x in g.target.elts], kwonlyargs=[], kw_defaults=[],
                                             defaults=[]), e)
            e = ast.Call(ast.Name('__family__', ast.Load()), [f, g.iter, ast.Constant(isinstance(g.target, ast.Tuple))], [])
        if depth == 2:
            e = ast.Call(ast.Name('__flat__', ast.Load()), [e], [])
        return ast.fix_missing_locations(ast.copy_location(e, n))

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return self.call(n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.GeneratorExp) and (
                isinstance(n.func, ast.Name) and n.func.id in ('sum', 'list') or isinstance(n.func, ast.Attribute) and n.func.attr == 'extend'):
            n.args[0] = self.call(n.args[0])
        return n


def transform(tree, mod):
    tree = Families().visit(tree)
    TREES[mod.__spec__.origin] = tree
    return tree


class Opaque:
    """what earlier iterations left; any use is refused"""
    def _no(self, *a, **k):
        raise Unsupported('use of a value of an earlier iteration')
    __getattr__ = __call__ = __float__ = __int__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __iter__ = __len__ = __getitem__ = __neg__ = _no
    __hash__ = None


def has_opaque(x):
    return isinstance(x, (list, tuple)) and any(type(e) is Opaque for e in x)


def find(frame):
    """the loop being entered, and the function around it"""
    tree = TREES.get(frame.f_code.co_filename)
    if tree is None:
        raise Unsupported('loop over a symbolic range outside the repository')
    best = None
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
            for n in ast.walk(fn):
                if isinstance(n, ast.For) and n.lineno <= frame.f_lineno <= n.iter.end_lineno:
                    if best is None or fn.lineno >= best[1].lineno:
                        best = (n, fn)
    if best is None or best[1].name != frame.f_code.co_name:
        raise Unsupported('loop over a symbolic range in an expression')
    return best


def stored(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def inner_names(fn):
    """names that are arguments of a lambda or variables of a comprehension"""
    out = set()
    for f in ast.walk(fn):
        if isinstance(f, ast.Lambda):
            names = {a.arg for a in f.args.args + f.args.posonlyargs + f.args.kwonlyargs}
        elif isinstance(f, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            names = set().union(*[stored(g.target) for g in f.generators])
        else:
            continue
        out |= {id(m) for m in ast.walk(f) if isinstance(m, ast.Name) and m.id in names}
    return out


def body_effects(loop, fn):
    """names of lists the body appends to; refuses local state carried from one iteration to the next"""
    for n in ast.walk(loop):
        if isinstance(n, (ast.While, ast.Nonlocal, ast.Global, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
            raise Unsupported('loop body of a kind the loop rule does not handle')
    own = stored(loop.target)
    changing = set()
    for s in loop.body:
        changing |= stored(s)
    changing -= own
    exits = []

    def reads(node, have):
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in changing and n.id not in have:
                raise Unsupported(f'local variable {n.id} is carried from one iteration to the next')

    def walk(stmts, have):
        """names assigned for sure; None when the end is not reached"""
        for s in stmts:
            if have is None:
                return None
            if isinstance(s, (ast.Break,)):
                exits.append(set(have))
                return None
            if isinstance(s, (ast.Continue, ast.Raise, ast.Return)):
                reads(s, have)
                if isinstance(s, ast.Continue):
                    exits.append(set(have))
                return None
            if isinstance(s, ast.If):
                reads(s.test, have)
                a, b = walk(s.body, set(have)), walk(s.orelse, set(have))
                have = a if b is None else b if a is None else a & b
            elif isinstance(s, ast.With):
                for it in s.items:
                    reads(it.context_expr, have)
                    if it.optional_vars is not None:
                        have |= stored(it.optional_vars)
                have = walk(s.body, have)
            elif isinstance(s, ast.For):
                reads(s.iter, have)
                inner = set(have) | stored(s.target)
                walk(s.body, inner)
                walk(s.orelse, set(have))
            elif isinstance(s, ast.Try):
                a = walk(s.body, set(have))
                for h in s.handlers:
                    walk(h.body, set(have) | ({h.name} if h.name else set()))
                walk(s.orelse, set(a) if a is not None else set(have))
                f = walk(s.finalbody, set(have))
                have = set(have) if f is not None else None
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                reads(s, have)
                have.add(s.name)
            elif isinstance(s, ast.AugAssign):
                reads(s.value, have)
                if isinstance(s.target, ast.Name):
                    if s.target.id not in have:
                        raise Unsupported(f'local variable {s.target.id} is carried from one iteration to the next')
                else:
                    raise Unsupported('loop body changes a container in place')
            elif isinstance(s, ast.Delete):
                for t in s.targets:
                    have -= stored(t)
            else:
                reads(s, have)
                for t in getattr(s, 'targets', [getattr(s, 'target', None)]):
                    if t is not None:
                        if isinstance(t, ast.Subscript):
                            raise Unsupported('loop body changes a container in place')
                        have |= stored(t)
        return have
    end = walk(loop.body, set(own))
    if end is not None:
        exits.append(end)
    sure = set.intersection(*exits) if exits else set()
    mine = inner_names(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in mine and n.id in changing - sure and not (loop.lineno <= n.lineno <= loop.end_lineno) \
                and n.lineno > loop.lineno:
            raise Unsupported(f'local variable {n.id} is read behind the loop but not assigned in every iteration')
    grown = set()
    for n in ast.walk(loop):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            if n.func.attr in ('append', 'extend'):
                grown.add(n.func.value.id)
            elif n.func.attr in MUTATORS:
                raise Unsupported('loop body changes a container in place')
    return grown


def shallow(v):
    if isinstance(v, (list, tuple)):
        return [id(x) for x in v]
    if isinstance(v, dict):
        return {k: id(x) for k, x in v.items()}
    if isinstance(v, set):
        return set(v)
    return None


class Rule:
    def __init__(self, havoc, done):
        self.havoc, self.done = havoc, done
        self.count = 0

    def __call__(self, rng):
        return self.iterate(rng, sys._getframe(2))

    def iterate(self, rng, frame):
        if rng.step != 1:
            raise Unsupported('loop rule for a range with a step')
        r = SE.run()
        loop, fn = find(frame)
        grown = body_effects(loop, fn)
        me, self.count = self.count, self.count + 1
        n = T.sub(poly(rng.hi), poly(rng.lo))
        if r.decide(T.le(n, T.ZERO)):
            return
        k = T.var(r.name(f'iteration of loop {me}'), 'I', nn=True)
        r.assume(T.le(T.ZERO, k))
        r.assume(T.lt(k, n))
        if r.decide(T.le(k, T.ZERO)):
            k = T.ZERO
        else:
            for g in sorted(grown):
                v = frame.f_locals.get(g)
                if not isinstance(v, list):
                    raise Unsupported('loop body changes something other than a list')
                v.append(Opaque())
        self.havoc(me, mkint(k))
        before = {a: shallow(v) for a, v in frame.f_locals.items() if a not in grown}
        yield mkint(T.add(poly(rng.lo), k))
        assigned = stored(loop)
        for a, v in frame.f_locals.items():
            if a in before and a not in assigned and shallow(v) != before[a]:
                raise Unsupported(f'loop body changes {a}')
        self.done(me, mkint(k))
        if not r.decide(T.eq(T.add(k, T.ONE), n)):
            raise PathEnd('one iteration of the loop')


class ForEach:
    """one element for every k, 0 <= k < n"""
    def __init__(self, k, n, x):
        self.k, self.n, self.x = k, n, x

    def _no(self, *a, **k):
        raise Unsupported('use of an arbitrary element of a family')
    __getattr__ = __call__ = __float__ = __int__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __iter__ = __len__ = __getitem__ = __neg__ = _no
    __hash__ = None


def replace(x, k, by):
    """x with the index k replaced"""
    from . import symtensor as S
    from .symval import SymInt, SymReal, SymBool, mkreal, mkbool
    mp = {k.m[0][0][0][0]: by}
    if isinstance(x, S.Arr):
        g = x._snap()

        def fn(idx):
            e = g(idx)
            return T.subst(e, mp) if isinstance(e, T.BT) else S.El(T.subst(e.v, mp), T.subst(e.fin, mp), e.sp)
        return type(x)._cls()._make(tuple(T.subst(d, mp) for d in x._shape), fn, x.dtype)
    if isinstance(x, SymInt):
        return mkint(T.subst(x.p, mp))
    if isinstance(x, SymReal):
        return mkreal(T.subst(x.p, mp))
    if isinstance(x, SymBool):
        return mkbool(T.subst(x.b, mp))
    if isinstance(x, (int, float, str, type(None))):
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(replace(y, k, by) for y in x)
    raise Unsupported(f'family of {type(x).__name__}')


class Generic:
    """a stretch of code run once for an arbitrary index k below n: no decision may depend on k, nothing but new objects may
    come out of it"""
    def __init__(self, n):
        self.r, self.n = SE.run(), n
        self.k = T.fresh_ix(n)

    def marks(self):
        g = self.r.ghost
        return [len(g.get(x, ())) for x in ('writes', 'events', 'noise', 'optimizers')]

    def __enter__(self):
        self.before, self.at = self.marks(), len(self.r.hyps)
        self.r.ghost.setdefault('families', []).append(self.k)
        return self.k

    def __exit__(self, t, v, tb):
        self.r.ghost['families'].pop()
        if t is not None:
            return False
        a = self.k.m[0][0][0][0]
        if any(a in h.fv for h in self.r.hyps[self.at:]):
            raise Unsupported('a decision differs between the elements of a family')
        if self.marks() != self.before:
            raise Unsupported('an element of a family has a side effect')
        return False


class Family:
    """list of n elements given by one of them"""
    def __init__(self, k, n, x):
        self.k, self.n, self.x = k, n, x

    def _len(self):
        return mkint(self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('part of a family')
        p = poly(i)
        if SE.run().decide(T.lt(p, T.ZERO)):
            p = T.add(p, self.n)
        if not SE.run().decide(T.b_and(T.le(T.ZERO, p), T.lt(p, self.n))):
            raise IndexError('list index out of range')
        return replace(self.x, self.k, p)

    def __iter__(self):
        yield ForEach(self.k, self.n, self.x)

    def __add__(self, o):
        return [*self, *o]

    def __radd__(self, o):
        return [*o, *self]

    def _stacked(self, cls):
        from . import symtensor as S
        if isinstance(self.x, (list, tuple)):
            raise Unsupported('array of a family of lists')
        a = S.from_py(cls, self.x)
        return cls._make((self.n,) + a._shape, lambda idx: replace(a, self.k, idx[0])._snap()(idx[1:]), a.dtype)

    def _sym_sum(self, start=0):
        from . import symtensor as S
        cls = S.pick_cls(self.x)
        if cls is None:
            import numpy
            cls = numpy.ndarray
        return start + S.reduce_sum(self._stacked(cls), 0)


class Flat(Family):
    """the lists of a family one behind the other"""
    def __iter__(self):
        for x in self.x:
            yield ForEach(self.k, self.n, x)

    def __getitem__(self, i):
        raise Unsupported('element of a flattened family')
    _len = _stacked = _sym_sum = __getitem__


def flat(xs):
    if isinstance(xs, Family):
        return Flat(xs.k, xs.n, list(xs.x))
    return [x for y in xs for x in y]


class Rows:
    """what zip and enumerate give for arrays of symbolic length: an index and the elements"""
    def __init__(self, n, at):
        self.n, self.at = n, at

    def _len(self):
        raise TypeError('object has no len()')

    def rows_from(self, frame):
        rule = SE.run().ghost.get('range_rule')
        if rule is None or not SE.run().ghost.get('foreach'):
            raise Unsupported('iteration over a symbolic dimension')
        return map(self.at, rule.iterate(Span(0, mkint(self.n), 1), frame))

    def __iter__(self):
        return self.rows_from(sys._getframe(1))


class Span:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def rows(x):
    """x as Rows when its length is symbolic, else None"""
    from . import symtensor as S
    if isinstance(x, Rows):
        return x
    if isinstance(x, S.Arr) and x._shape and x._shape[0].const() is None:
        return Rows(x._shape[0], lambda k: x[k])
    if type(x) is Family:
        return Rows(x.n, lambda k: x[k])
    if type(x).__name__ == 'SymRange' and x.step == 1:
        lo = poly(x.lo)
        return Rows(T.maxv(T.sub(poly(x.hi), lo), T.ZERO) if x.lo != 0 else poly(x.hi), lambda k: mkint(T.add(lo, poly(k))))
    return None


def sym_zip(*xs, **kw):
    rs = [rows(x) for x in xs]
    if not any(rs):
        return zip(*xs, **kw)
    if not all(rs) or any(r.n is not rs[0].n and not SE.run().decide(T.eq(r.n, rs[0].n)) for r in rs):
        raise Unsupported('zip of symbolic and other lengths')
    return Rows(rs[0].n, lambda k: tuple(r.at(k) for r in rs))


def sym_enumerate(xs, start=0):
    r = rows(xs)
    if r is None:
        return enumerate(xs, start)
    return Rows(r.n, lambda k: (start + k, r.at(k)))


def family(f, rng, several=False):
    g = (lambda k: f(*k)) if several else f
    r = rows(rng)
    if r is None:
        return [g(k) for k in rng]
    if not SE.run().ghost.get('foreach'):
        raise Unsupported('loop over a symbolic range in an expression')
    if SE.run().decide(T.le(r.n, T.ZERO)):
        return []
    with Generic(r.n) as k:
        x = g(r.at(mkint(k)))
    return Family(k, r.n, x)


class EachRule:
    """loops whose iterations only append to lists: the body runs once for an arbitrary index and what it appends stands for
    what every iteration appends"""

    def __call__(self, rng):
        return self.iterate(rng, sys._getframe(2))

    def iterate(self, rng, frame):
        if rng.step != 1:
            raise Unsupported('loop rule for a range with a step')
        loop, fn = find(frame)
        grown = body_effects(loop, fn)
        mine = stored(loop)
        for n in ast.walk(loop):
            if isinstance(n, (ast.Break, ast.Continue, ast.Return)):
                raise Unsupported('loop left early')
        again = {id(m) for n in ast.walk(fn) if isinstance(n, ast.For) and n.lineno > loop.end_lineno for m in ast.walk(n)
                 if isinstance(m, ast.Name) and m.id in stored(n.target)}
        again |= inner_names(fn)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in mine and n.lineno > loop.end_lineno and id(n) not in again:
                raise Unsupported(f'local variable {n.id} is read behind the loop')
        n = T.sub(poly(rng.hi), poly(rng.lo))
        if SE.run().decide(T.le(n, T.ZERO)):
            return
        lists = {}
        for g in sorted(grown):
            v = frame.f_locals.get(g)
            if g in mine:
                continue
            if not isinstance(v, list):
                raise Unsupported('loop body changes something other than a list')
            lists[g] = (v, len(v))
        before = {a: shallow(v) for a, v in frame.f_locals.items() if a not in grown}
        with Generic(n) as k:
            yield mkint(T.add(poly(rng.lo), k))
        for a, v in frame.f_locals.items():
            if a in before and a not in mine and shallow(v) != before[a]:
                raise Unsupported(f'loop body changes {a}')
        for v, m in lists.values():
            v[m:] = [ForEach(k, n, x) for x in v[m:]]
