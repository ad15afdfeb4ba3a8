"""C12: the stopping rule stops exactly when its criterion is met."""
from engine.api import contract
from .common import Robust

BOTH = ['both', 'theta_and_lambda', 't&l', 'lambda_and_theta', 'l&t']
EITHER = ['one', 'theta_or_lambda', 'tUl', 'lambda_or_theta', 'lUt']
THETA = ['theta', 't']
LAMBDA = ['lambda', 'l']


class Watched:
    """a robust loss whose parameters and gradients are set at will"""

    def __init__(self, B, name='', post=True, n_iter=None, forms=('vectors',), **kw):
        self.B = B
        form = B.choice('parameters', list(forms))
        n_iter = 1000 if n_iter is None else n_iter
        r = Robust(B, post, B.real('rho', gt=0), usual=True, labels=(False,), reductions=('mean',), models=('model' if form == 'vectors' else 'none',), n_iter=n_iter,
                   **dict(dict(adapt=None) if post else {}, **kw))
        self.r, self.dual = r, r.dual
        if form == 'matrix':
            r.dual.primal_loss.register_parameter('matrix', B.param('matrix', (B.dim('rows'), B.dim('columns')), live=True))
        self.params = list(r.dual.primal_loss.parameters())

    def look(self, k):
        """arbitrary parameters and gradients at look k"""
        B = self.B
        self.values, self.grads = [], []
        with B.pt.no_grad():
            for j, p in enumerate(self.params + [self.dual._lam]):
                v, g = B.tensor(f'p{j} at look {k}', p.shape), B.tensor(f'g{j} at look {k}', p.shape)
                p.copy_(v)
                p.grad = g
                self.values.append(v)
                self.grads.append(g)
        return self.values, self.grads


def distance(B, order, ts, us=None):
    """norm of the concatenation, of the difference with us when given"""
    flat = lambda l: l and [t.reshape(-1) for t in l]
    ts, us = flat(ts), flat(us)

    def diff(j):
        return B.norm(order, ts[j].shape[0], lambda k: B.at(ts[j], k) - (B.at(us[j], k) if us is not None else 0.))
    if len(ts) == 1:
        return diff(0)
    out = 0.
    if isinstance(order, float) and order == B.inf:
        for j, t in enumerate(ts):
            out = B.max2(out, diff(j))
        return out
    for j, t in enumerate(ts):
        out = out + B.pow(diff(j), order)
    return B.pow(out, B.div(1., order))


def change(B, ts, us=None):
    return B.abs(B.val(ts) - (B.val(us) if us is not None else 0.))


class Rule:
    """a stopping rule with arbitrary settings, and what it should answer"""

    def __init__(self, B, monitoring, tolerances=True, **kw):
        O = B.repo('skwdro.solvers.optim_cond')
        self.B = B
        self.order = B.choice('order', [1, 2, 'inf', None])
        if self.order is None:
            self.order = B.real('order', gt=0)
            B.assume(B.symbolic or .3 < self.order < 6)
        self.monitoring = B.choice('monitoring', monitoring)
        self.mode = B.choice('mode', ['rel', 'abs'])
        self.metric = B.choice('metric', ['grad', 'param'])
        tol = lambda n: B.real('tol ' + n, gt=0) if not tolerances or B.choice('sign ' + n, ['positive', 'not positive']) == 'positive' else B.real('tol ' + n, hi=0)
        self.tt, self.tl = tol('theta'), tol('lambda')
        self.make = lambda: O.OptCondTorch(self.order, self.tt, self.tl, monitoring=self.monitoring, mode=self.mode, metric=self.metric)
        self.rule = self.make()
        self.p = B.inf if isinstance(self.order, str) else self.order * 1.

    def quantities(self, hist):
        """monitored quantities, first recorded and present; None before the first is recorded"""
        B = self.B
        if self.metric == 'grad':
            if len(hist) < 2:
                return None
            (_, g0), (_, g1) = hist[0], hist[-1]
            return [(distance(B, self.p, g0[:-1]), distance(B, self.p, g1[:-1])), (change(B, g0[-1]), change(B, g1[-1]))]
        if len(hist) < 3:
            return None
        (v0, _), (v1, _), (u, _), (v, _) = hist[0], hist[1], hist[-2], hist[-1]
        return [(distance(B, self.p, v1[:-1], v0[:-1]), distance(B, self.p, v[:-1], u[:-1])), (change(B, v1[-1], v0[-1]), change(B, v[-1], u[-1]))]

    def met(self, hist):
        B = self.B
        q = self.quantities(hist)
        if q is None:
            return False

        def below(first, now, tol):
            lim = tol * first if self.mode == 'rel' else tol
            return B.both(B.lt(0., tol), B.lt(now, lim))
        t, l = below(*q[0], self.tt), below(*q[1], self.tl)
        if not B.symbolic and self.p not in (1, B.inf):
            # too close to tell once rounded
            lim = self.tt * q[0][0] if self.mode == 'rel' else self.tt
            B.assume(abs(lim - q[0][1]) > 1e-9 * (abs(lim) + abs(q[0][1])))
        if self.monitoring in BOTH:
            return B.both(t, l)
        if self.monitoring in EITHER:
            return B.either(t, l)
        return t if self.monitoring in THETA else l


def history(B, w, rule, looks, at=None):
    hist, answers = [], []
    for k in range(looks):
        hist.append(w.look(k if at is None else at[k]))
        answers.append(rule(w.dual, k))
    return hist, answers


def stops(B, monitoring, looks):
    s = Rule(B, monitoring)
    w = Watched(B, forms=('vectors', 'vector', 'matrix') if looks > 1 and s.monitoring in THETA else ('vectors',))
    hist = []
    for k in range(looks):
        hist.append(w.look(k))
        if k == looks - 1:
            spec = s.met(hist)
            B.ensure(f'answer at look {k + 1}', B.iff(s.rule(w.dual, k), spec))
        else:
            s.rule(w.dual, k)


@contract('C12', paths=2000)
def first_look(B):
    stops(B, BOTH + EITHER + THETA + LAMBDA, 1)


@contract('C12', paths=2000)
def second_look(B):
    stops(B, ['both', 'one', 't', 'l'], 2)


@contract('C12', paths=4000)
def third_look(B):
    stops(B, ['both', 'one', 't', 'l'], 3)


@contract('C12', paths=4000)
def fourth_look(B):
    stops(B, ['both', 'one', 't', 'l'], 4)


@contract('C12', paths=4000)
def any_later_look(B):
    """what is remembered depends on the first two looks and the last one only, so four looks are all there is to check"""
    s = Rule(B, ['both', 'one', 't', 'l'])
    w = Watched(B, forms=('vectors', 'vector', 'matrix') if s.monitoring in THETA else ('vectors',))
    a, b = s.make(), s.make()
    for k in (0, 1, 2, 3):
        w.look(k)
        a(w.dual, k)
        if k != 2:
            b(w.dual, k)
    B.same_state('memory', a, b)


@contract('C12', paths=2000)
def iteration_budget(B):
    """looks before the criterion can be met, at any iteration"""
    s = Rule(B, ['both', 'one', 't', 'l'])
    n = B.choice('budget', ['number', 'pair'])
    top = B.int('robust steps', lo=1)
    w = Watched(B, n_iter=top if n == 'number' else (B.int('plain steps', lo=0), top))
    w.look(0)
    it = B.int('iteration', lo=0)
    B.ensure('stops exactly at the budget', B.iff(s.rule(w.dual, it), B.le(top, it)))


@contract('C12', paths=2000)
def refused(B):
    """settings that mean nothing"""
    O = B.repo('skwdro.solvers.optim_cond')
    kw = dict(monitoring=B.choice('monitoring', ['both', 'one', 't', 'l']), mode=B.choice('mode', ['rel', 'abs']), metric=B.choice('metric', ['grad', 'param']))
    wrong = B.choice('wrong', ['monitoring', 'mode', 'metric', 'order'])
    order = 2
    if wrong == 'order':
        order = B.choice('order', [0, -1, '2', 'two', ''])
    else:
        kw[wrong] = B.choice('name', ['', 'none', 'other'])
    w = Watched(B)

    def go():
        rule = O.OptCondTorch(order, B.real('tol theta', gt=0), B.real('tol lambda', gt=0), **kw)
        for k in range(4):
            w.look(k)
            rule(w.dual, k)
    B.ensure('refused', B.raises(go) is not None)


@contract('C12')
def missing_gradients(B):
    """a gradient that was never computed is reported"""
    O = B.repo('skwdro.solvers.optim_cond')
    w = Watched(B)
    w.look(0)
    which = B.choice('missing', [0, -1])
    ps = w.params + [w.dual._lam]
    ps[which].grad = None
    rule = O.OptCondTorch(2, 1e-3, 1e-3, monitoring='both', metric='grad')
    B.ensure('refused', isinstance(B.raises(lambda: rule(w.dual, 0)), ValueError))
