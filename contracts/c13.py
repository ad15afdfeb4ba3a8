"""C13: training runs the configured phases and reports the last robust loss.

The evaluation of the objective (C02 to C05), the starting guess (C06) and the stopping rule (C12) have their own
contracts; here they are replaced by arbitrary values, gradients, guesses and decisions that are recorded."""
from engine.api import contract
from .common import Robust, sampler_for


class Training:
    """a training run with everything it calls recorded"""

    def __init__(self, B, budget, post, nan, stop, calls=1, metric='grad', library=False, radius='positive', settings=2):
        self.B, self.post = B, post
        self.nan, self.stop, self.calls = nan, stop, calls
        self.nans = set()
        rho = B.real('rho', gt=0) if radius == 'positive' else 0.
        self.log, self.values = [], []
        labels, imp_samp = B.choice('labels and imp_samp', [((True,), True), ((False,), False)][:settings] + ([] if B.symbolic else [((False,), True), ((True,), False)]))
        self.evals = self.looks = 0
        kw = {} if not post else {'adapt': B.choice('adapt', ['prodigy', None]) if library else None}
        self.r = r = Robust(B, post, rho, usual=True, labels=labels, models=('model',), reductions=('mean',),
                            sampler=sampler_for(B), n_iter=budget, imp_samp=imp_samp, **kw)
        self.dual = d = r.dual
        self.params = [p for p in d.parameters() if p.requires_grad]
        d.forward = self.forward
        self.guess = B.tensor('guess', (), nn=True)
        d.get_initial_guess_at_dual = self.starting
        self.sample = r.sampler.sample
        r.sampler.sample = self.sampling
        if not library:
            d.optimizer = B.pt.optim.SGD(self.params, lr=.01)
        self.watch(d.optimizer, library)
        self.rule = self.stopping(metric)
        if B.symbolic:
            B.run.ghost['grad_hook'] = self.slope

    # ---- what the training loops call
    def forward(self, xi, xi_labels=None, zeta=None, zeta_labels=None, reset_sampler=True):
        B = self.B
        k = self.evals
        self.evals += 1
        slopes = [B.tensor(f'slope {k} of {j}', p.shape) for j, p in enumerate(self.params)]
        v = B.real(f'value {k}')
        if self.nan(k):
            v = B.nan
            self.nans.add(k)
        o = B.pt.tensor(v)
        for s, p in zip(slopes, self.params):
            o = o + (s * p).sum()
        self.slopes, self.objective = slopes, o
        self.log.append(('eval', self.dual.erm_mode, B.pt.is_grad_enabled()))
        self.given = (xi, xi_labels, zeta, zeta_labels)
        self.values.append(B.snapshot(o.detach()))
        self.inputs()
        return o

    def slope(self, o, p, g):
        """derivative of the linear objectives above"""
        if o is self.objective:
            return self.slopes[[q is p for q in self.params].index(True)].clone()

    def starting(self, xi, xi_labels):
        self.log.append(('start',))
        self.arguments(xi, xi_labels)
        with self.B.pt.no_grad():
            self.dual._lam.copy_(self.guess)

    def sampling(self, n):
        self.log.append(('sample',))
        self.zeta = self.sample(n)
        return self.zeta

    def stopping(self, metric):
        cond = self.B.repo('skwdro.solvers.optim_cond').OptCondTorch

        class Rule(cond):
            def __call__(rule, loss, it):
                stop = self.stop(self.looks)
                self.looks += 1
                self.log.append(('look', it, stop))
                self.B.ensure('the rule looks at the loss being trained', loss is self.dual)
                return stop
        return Rule(2, metric=metric)

    def watch(self, opt, library):
        step, clear = opt.step, opt.zero_grad

        def stepping(closure=None):
            if library:
                if closure is None:
                    self.gradients()
                    step()
                else:
                    step(closure)
            else:
                if closure is not None:
                    for _ in range(self.calls):
                        with self.B.pt.enable_grad():
                            closure()
                self.gradients()
                step()
            self.log.append(('step',))

        def clearing(*a, **k):
            self.log.append(('clear',))
            clear(*a, **k)
        opt.step, opt.zero_grad = stepping, clearing

    # ---- obligations met on the way
    def gradients(self):
        B = self.B
        for s, p in zip(self.slopes, self.params):
            B.ensure('a step has gradients', p.grad is not None)
            if len(p.shape) == 0:
                B.ensure_eq('steps use the gradients of the current objective only', p.grad, B.val(s))
            else:
                B.ensure_tensor('steps use the gradients of the current objective only', p.grad, (p.shape[0],), lambda k: B.at(s, k))

    def same(self, a, b, label):
        B = self.B
        if b is None:
            B.ensure(label, a is None)
        else:
            B.ensure_tensor(label, a, tuple(b.shape), lambda *i: B.at(b, *i))

    def arguments(self, xi, xi_labels):
        self.same(xi, self.r.x, 'all the data')
        self.same(xi_labels, self.r.y, 'all the labels')

    def inputs(self):
        xi, xi_labels, zeta, zeta_labels = self.given
        self.arguments(xi, xi_labels)
        if not self.post:
            self.same(zeta, self.zeta[0], 'the samples drawn at the beginning')
            self.same(zeta_labels, self.zeta[1], 'the samples drawn at the beginning')

    # ---- running
    def run(self):
        B, r = self.B, self.r
        P = B.repo('skwdro.base.problems')
        x = r.x.detach().numpy()
        if r.y is None:
            dist = P.EmpiricalDistributionWithoutLabels(m=r.m, samples=x)
        else:
            dist = P.EmpiricalDistributionWithLabels(m=r.m, samples_x=x, samples_y=r.y.detach().numpy())
        return B.repo('skwdro.solvers.entropic_dual_torch').solve_dual_wdro(self.dual, dist, self.rule)

    def steps(self, part):
        """kinds of the entries, cut after each step"""
        out, cur = [], []
        for e in part:
            cur.append(e)
            if e[0] == 'step':
                out.append(cur)
                cur = []
        return out, cur

    def evaluated(self, part, erm):
        B = self.B
        for e in part:
            if e[0] == 'eval':
                B.ensure('first phase without robustness' if erm else 'second phase with robustness', B.iff(e[1], erm))

    def prepared(self, unit):
        """a step: old gradients cleared, then the objective"""
        kinds = [e[0] for e in unit]
        B = self.B
        B.ensure('an evaluation for every step', 'eval' in kinds)
        B.ensure('gradients cleared before', 'clear' in kinds)

    def reported(self, res, last):
        B, d = self.B, self.dual
        B.ensure_eq('reported loss', B.pt.as_tensor(res.robust_loss), self.values[last] if not self.is_nan(last) else B.nan)
        th = d.theta
        B.ensure_tensor('reported parameters', B.pt.as_tensor(res.coef), (th.shape[0],), lambda k: B.at(th, k))
        if d.intercept is not None:
            B.ensure_tensor('reported intercept', B.pt.as_tensor(res.intercept), (1,), lambda k: B.val(d.intercept))
        B.ensure_eq('reported dual variable', B.pt.as_tensor(res.dual_var), B.val(d._lam) if d._lam.requires_grad else 0.)

    def is_nan(self, k):
        return k in self.nans


def verify(t, res, P, N, soft=False):
    """the whole log; an entry ('many', k) stands for k iterations that each made one step"""
    B, log = t.B, t.log
    ok = lambda label, c: B.ensure(label, c, soft=soft)
    kinds = [e[0] for e in log]
    ok('one starting guess', kinds.count('start') == 1)
    if 'start' not in kinds:
        return
    i = kinds.index('start')
    first, second = log[:i], log[i + 1:]
    t.evaluated(first, True)
    t.evaluated(second, False)
    units, rest = t.steps(first)
    earlier = sum(e[1] for e in first if e[0] == 'many')
    ok('number of non-robust steps', B.eq(earlier + len(units), P))
    for u in units:
        t.prepared(u)
    ok('no look at the rule before', 'look' not in kinds[:i])
    units, rest = t.steps(second)
    earlier = sum(e[1] for e in second if e[0] == 'many')
    S = earlier + len(units)
    ok('at most the configured robust steps', B.both(B.le(1, S), B.le(S, N)))
    for u in units:
        t.prepared(u)
    if not t.post:
        ok('drawn once', kinds.count('sample') == 1)
    # stopping: values and looks of every robust step
    k = sum(e[0] == 'eval' for e in first) - 1
    looks = []
    for e in second:
        if e[0] == 'eval':
            k += 1
        if e[0] == 'look':
            looks.append((e[1], e[2], t.is_nan(k)))
    ok('looks numbered in order', B.both(True, *[B.eq(l[0], earlier + j) for j, l in enumerate(looks)]))
    ended_nan = t.is_nan(k)
    ok('a look after every step', len(looks) == len(units) - (1 if ended_nan else 0))
    ok('stops as soon as the rule says so', not any(l[1] for l in looks[:-1]) and not (ended_nan and looks and looks[-1][1]))
    ok('stops at the first loss that is not a number', not any(l[2] for l in looks))
    ok('stops for a reason', B.either(B.eq(S, N), ended_nan, bool(looks) and looks[-1][1]))
    t.reported(res, k)


@contract('C13', paths=4000, n=60)
def short_runs(B):
    """all histories of a few steps"""
    post = B.choice('sampling', [True, False])
    budget, P, N = B.choice('budget', [((0, 1), 0, 1), ((2, 1), 2, 1), ((1, 3), 1, 3), (4, 1, 4)])
    nan, stop = B.choice('history', [(None, None), (None, 0), (None, 1), (0, None), (1, None), (2, None), (4, None), (2, 1)])
    t = Training(B, budget, post, lambda k: k == nan, lambda k: k == stop, metric=B.choice('metric', ['grad', 'param']))
    verify(t, t.run(), P, N)


@contract('C13', paths=4000, n=60)
def any_number_of_steps_with_resampling(B):
    any_number_of_steps(B, True)


@contract('C13', paths=4000, n=60)
def any_number_of_steps_on_fixed_samples(B):
    any_number_of_steps(B, False)


def any_number_of_steps(B, post):
    """any budget: an arbitrary iteration of each phase is run from an arbitrary state"""
    hi = None if B.symbolic else 9
    if B.choice('budget', ['pair', 'number']) == 'pair':
        P, N = B.int('P', lo=0, hi=hi), B.int('N', lo=1, hi=hi)
        budget = (P, N)
    else:
        budget = N = B.int('N', lo=1, hi=hi)
        P = B.floor(N * 3 / 10)
    if B.symbolic:
        odd = B.choice('not a number at', [None, 0, 1] + ([] if post else [2, 4]))
        nan = lambda k: k == odd
        stop = lambda k: B.choice(f'stop at {k}', [False, True])
    else:
        nan = lambda k: B.choice(f'nan at {k}', [False] * 7 + [True])
        stop = lambda k: B.choice(f'stop at {k}', [False] * 7 + [True])
    metric, calls = ('grad', 1) if post else B.choice('metric and evaluations per step', [('grad', 1), ('param', 2)])
    t = Training(B, budget, post, nan, stop, metric=metric, calls=calls, settings=1)
    clean = [True]

    def same(label, c):
        clean[0] = clean[0] and bool(c)
        B.ensure(label, bool(c), soft=True)

    def flags():
        return [t.dual.erm_mode, t.dual.imp_samp, t.dual.n_iter, id(t.dual.optimizer)] + [p.requires_grad for p in t.params]

    def havoc(loop, k):
        if not isinstance(k, int):
            t.log.append(('many', k))
            for p in t.params:
                B.overwrite(p, 'parameter at some iteration')
                p.grad = B.tensor(B.run.name('old gradient'), p.shape)
        t.at, t.flags = len(t.log), flags()

    def done(loop, k):
        part = t.log[t.at:]
        robust = any(e[0] == 'start' for e in t.log)
        kinds = [e[0] for e in part]
        same('one step per iteration', kinds.count('step') == 1)
        same('looks after robust steps only', kinds.count('look') == (1 if robust else 0))
        same('no guess in a loop', 'start' not in kinds)
        same('goes on only when told so', not robust or not any(e[0] == 'look' and e[2] for e in part) and not t.is_nan(t.evals - 1))
        same('settings stay as they were', flags() == t.flags)
    B.loop_rule(havoc, done)
    res = t.run()
    verify(t, res, P, N, soft=not clean[0])


@contract('C13', n=60)
def library_optimisers(B):
    """the optimisers the library sets up itself"""
    post = B.choice('sampling', [True, False])
    budget, P, N = B.choice('budget', [((1, 2), 1, 2), ((0, 1), 0, 1), (5, 1, 5)])
    t = Training(B, budget, post, lambda k: False, lambda k: False, library=True, radius=B.choice('radius', ['positive', 'zero']), settings=1)
    verify(t, t.run(), P, N)


@contract('C13')
def reported_intercept(B):
    """losses with parameters of their own report them as they are at the end"""
    L = B.repo('skwdro.base.losses_torch')
    O = B.repo('skwdro.solvers.oracle_torch')
    m, d = B.dim('m'), B.dim('d')
    x, y = B.tensor('x', (m, d)), B.tensor('y', (m, 1))
    cost = B.repo('skwdro.base.costs_torch').NormLabelCost(2., 2., 1.)
    sampler = B.repo('skwdro.base.samplers.torch').LabeledCostSampler(cost, x, y, B.pt.tensor(.1), 3)
    intercept = B.choice('intercept', [True, False])
    primal = L.QuadraticLoss(sampler, d=d, fit_intercept=intercept)
    dual = O.DualPostSampledLoss(primal, cost, n_samples=3, epsilon_0=B.pt.tensor(.1), rho_0=B.pt.tensor(B.real('rho', gt=0)), n_iter=(1, 2), adapt=None)
    value = B.real('value')
    parts = [primal.linear.weight] + ([primal.linear.bias] if intercept else []) + [dual._lam]

    def forward(xi, xi_labels=None, zeta=None, zeta_labels=None, reset_sampler=True):
        return sum(p.sum() for p in parts) + value
    dual.forward = forward
    dual.get_initial_guess_at_dual = lambda *a: None
    P = B.repo('skwdro.base.problems')
    dist = P.EmpiricalDistributionWithLabels(m=m, samples_x=x.numpy(), samples_y=y.numpy())
    rule = B.repo('skwdro.solvers.optim_cond').OptCondTorch(2, 0., 0.)
    res = B.repo('skwdro.solvers.entropic_dual_torch').solve_dual_wdro(dual, dist, rule)
    w = primal.linear.weight
    B.ensure_tensor('reported parameters', B.pt.as_tensor(res.coef), (d,), lambda k: B.at(w, 0, k))
    if intercept:
        B.ensure_tensor('reported intercept', B.pt.as_tensor(res.intercept), (1,), lambda k: B.at(primal.linear.bias, k))
    else:
        B.ensure('no intercept', res.intercept is None)
    B.ensure_eq('reported dual variable', B.pt.as_tensor(res.dual_var), B.val(dual._lam))


@contract('C13')
def starting_variable(B):
    """setting the starting dual variable forgets the one before"""
    post = B.choice('sampling', [True, False])
    r = Robust(B, post, B.real('rho', gt=0), usual=True, models=('model',), reductions=('mean',), sampler=sampler_for(B),
               **({'adapt': None} if post else {}))
    seen = []
    for before in ('lambda', 'other lambda'):
        with B.pt.no_grad():
            r.dual._lam.copy_(B.tensor(before, (), nn=True))
        r.dual.get_initial_guess_at_dual(r.x, r.y)
        seen.append(B.snapshot(r.dual._lam.detach()))
    B.ensure_eq('whatever it was before', seen[1], B.val(seen[0]))
