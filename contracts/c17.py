"""C17: estimators pose the problem the user described.

Training is replaced by one that records the problem it was given and leaves arbitrary values in its parameters (the
robust problem itself, the wrapper that builds it and the training loops have their own contracts: C02 to C14)."""
import inspect
from engine.api import contract
from .estimators import MODULES, Posed, fitted, replaced

POST = {'entropic_torch': True, 'entropic_torch_post': True, 'entropic_torch_pre': False}


class Case:
    """an estimator with arbitrary settings, fitted on arbitrary data"""

    def __init__(self, B, name, costs, extra=(), spread=True, penalty=True, icpt=False, solvers=POST, y=None, d=None, data=None, defaults=False):
        self.B, self.name = B, name
        self.n = B.dim('n', lo=2)
        self.d = B.dim('d') if d is None else d
        self.X = B.array('X', (self.n, self.d), **(data or {}))
        self.y = y(self.n) if callable(y) else y
        zero = B.choice('radius', ['positive', 'zero']) == 'zero'
        self.rho = 0. if zero else B.real('rho', gt=0, wide=True)
        self.code = B.choice('cost', costs)
        power = float(self.code.split('-')[2])
        left = B.choice('left out', ['nothing', 'epsilon', 'spread', 'both']) if defaults else 'nothing'
        self.eps = eps = None if left in ('epsilon', 'both') else B.real('solver_reg', gt=0, wide=True)
        if eps is None:
            self.eps = B.max2(.01 * B.pow(.5, power) * (B.pow(self.rho, power - 1) if power != 1. else 1.), 1e-7)
        self.solver = B.choice('solver', list(solvers))
        self.count = B.int('n_zeta_samples', lo=1, hi=50)
        self.seed = B.int('random_state', lo=0, hi=1000)
        how = B.choice('steps', ['one number', 'two numbers', 'default'])
        self.steps = {'one number': lambda: B.int('n_iter', lo=1, hi=100), 'default': lambda: None,
                      'two numbers': lambda: (B.int('n_iter 0', lo=1, hi=100), B.int('n_iter 1', lo=1, hi=100))}[how]()
        self.lr = B.real('learning_rate', gt=0, wide=True) if B.choice('learning rate', [True, False]) else None
        self.rule = B.repo('skwdro.solvers.optim_cond').OptCondTorch(2)
        a = dict(rho=self.rho, cost=self.code, solver_reg=eps, solver=self.solver, n_zeta_samples=self.count,
                 random_state=self.seed, n_iter=self.steps, learning_rate=self.lr, opt_cond=self.rule, **dict(extra))
        self.sigma = .5 if zero else .5 * self.rho
        if spread and left in ('spread', 'both'):
            a['sampler_reg'] = None
        elif spread:
            self.sigma = a['sampler_reg'] = B.real('sampler_reg', gt=0)
        self.l2 = 0.
        if penalty:
            self.l2 = a['l2_reg'] = B.real('l2_reg', lo=0)
        if icpt:
            self.icpt = a['fit_intercept'] = B.choice('fit_intercept', [True, False])
        self.args = a
        self.posed = Posed()
        self.e = fitted(B, name, a, self.X, self.y, self.posed)
        self.loss = self.posed.loss

    def settings(self, post=True):
        B, p, dual = self.B, self.posed, self.loss
        B.ensure_eq('radius', dual.rho, self.rho, atol=0.)
        B.ensure_eq('epsilon', dual.epsilon, self.eps, atol=0.)
        B.ensure_eq('sample count', dual.n_samples, self.count)
        B.ensure_eq('seed', dual.sampler.seed, self.seed)
        B.ensure('stopping rule', p.rule is self.rule)
        if self.steps is not None:
            if isinstance(self.steps, tuple):
                B.ensure('step budget', isinstance(dual.n_iter, (tuple, list)) and len(dual.n_iter) == 2)
                for got, want in zip(dual.n_iter, self.steps):
                    B.ensure_eq('step budget', got, want)
            else:
                B.ensure_eq('step budget', dual.n_iter, self.steps)
        if post:
            B.ensure('resampling exactly when asked for', (not dual.presample) == POST[self.solver])
        if self.lr is not None:
            for g in dual.optimizer.param_groups:
                B.ensure_eq('learning rate', g['lr'], self.lr, atol=0.)
        self.cost()

    def cost(self):
        """the cost in use agrees with the cost the user's code stands for"""
        B = self.B
        want = B.repo('skwdro.base.cost_decoder').cost_from_str(self.code)
        got = self.loss.cost
        a, b = B.tensor('cost a', (1, self.d)), B.tensor('cost b', (1, self.d))
        B.ensure('kind of cost', type(got) is type(want))
        if self.y is None:
            B.ensure_eq('cost', B.at(got.value(a, b, None, None), 0, 0), B.at(want.value(a, b, None, None), 0, 0))
        else:
            la, lb = B.tensor('cost la', (1, 1)), B.tensor('cost lb', (1, 1))
            B.ensure_eq('cost', B.at(got.value(a, b, la, lb), 0, 0), B.at(want.value(a, b, la, lb), 0, 0))

    def data(self, x, y=None):
        """the solver sees the user's data, and so does the sampler"""
        B, p = self.B, self.posed
        if y is None:
            B.ensure('problem without labels', not p.data.with_labels)
            B.ensure_tensor('data', p.data.samples, (self.n, self.d), x)
        else:
            B.ensure('problem with labels', p.data.with_labels)
            B.ensure_tensor('data', p.data.samples_x, (self.n, self.d), x)
            B.ensure_tensor('labels', p.data.samples_y, *y)

    def draws(self, law='normal'):
        """samples are drawn around the data with the user's spread"""
        B, s = self.B, self.loss.sampler
        k = B.many('draws')
        z, _ = s.sample(k)
        B.ensure_law('spread of the samples', z, (k, self.n, self.d), law, lambda *i: B.at(self.X, i[-2], i[-1]), lambda *i: self.sigma)

    def primal(self, value, labels=None):
        """the loss under the expectation is the documented one, plus the l2 penalty"""
        B, m = self.B, self.B.dim('m', lo=2)
        x = B.tensor('x', (m, self.d))
        w = list(self.loss.primal_loss.parameters())
        pen = 0.
        for p in w:
            if len(p.shape):
                pen = pen + total(B, p, tuple(p.shape), ())
            else:
                pen = pen + B.val(p) * B.val(p)
        pen = .5 * self.l2 * pen
        if labels is None:
            got = self.loss.primal_loss(x)
            B.ensure_tensor('loss', got, (m,), lambda i: value(lambda k: B.at(x, i, k), None) + pen)
        else:
            y = labels(m)
            got = self.loss.primal_loss(x, y)
            B.ensure_tensor('loss', got, (m,), lambda i: value(lambda k: B.at(x, i, k), lambda k: B.at(y, i, k)) + pen)

    def outcome(self):
        B, e, dual = self.B, self.e, self.loss
        B.ensure_eq('dual variable', B.at(e.dual_var_, 0), B.val(dual.lam))
        B.ensure_eq('value', e.robust_loss_, self.posed.value)


def total(B, p, shape, idx):
    """sum of squares of the entries"""
    if not shape:
        return B.at(p, *idx) * B.at(p, *idx)
    return B.sum(shape[0], lambda k: total(B, p, shape[1:], idx + (k,)))


def affine(B, c, x):
    """the model's output: inner product with the fitted coefficients plus the intercept"""
    e = c.e
    s = B.sum(c.d, lambda k: x(k) * B.at(e.coef_, k))
    if e.intercept_ is None:
        return s
    return s + (B.at(e.intercept_, 0) if len(B.np.shape(e.intercept_)) else B.val(e.intercept_))


@contract('C17', paths=4000)
def linear_regression(B):
    c = Case(B, 'LinearRegression', ['t-NLC-2-2', 't-NC-2-2'], icpt=True, y=lambda n: B.array('y', (n,)), defaults=True)
    c.settings()
    c.data(lambda i, k: B.at(c.X, i, k), ((c.n, 1), lambda i, k: B.at(c.y, i)))
    c.draws()
    c.primal(lambda x, y: B.pow(affine(B, c, x) - y(0), 2), lambda m: B.tensor('yy', (m, 1)))
    B.ensure('an intercept exactly when asked for', len(list(c.loss.primal_loss.parameters())) == (2 if c.icpt else 1))
    c.outcome()


@contract('C17', paths=4000)
def logistic_regression(B):
    code = {}

    def labels(n):
        y, code['of'], code['classes'] = B.class_labels('class', n, 2)
        return y
    c = Case(B, 'LogisticRegression', ['t-NLC-2-2', 't-NC-2-2'], icpt=True, y=labels, defaults=True)
    c.settings()
    c.data(lambda i, k: B.at(c.X, i, k), ((c.n, 1), lambda i, k: B.ite(B.eq(code['of'](i), 1), 1., -1.)))
    c.draws()
    c.primal(lambda x, y: -B.logsigmoid(y(0) * affine(B, c, x)), lambda m: B.sign_tensor('yy', (m, 1)))
    B.ensure('an intercept exactly when asked for', len(list(c.loss.primal_loss.parameters())) == (2 if c.icpt else 1))
    B.ensure_tensor('classes', c.e.classes_, (2,), lambda k: B.ite(B.eq(k, 0), *code['classes']))
    c.outcome()


@contract('C17')
def several_classes(B):
    code = {}
    K = B.choice('number of classes', [3, 4])

    def labels(n):
        B.assume(B.le(K, n))
        y, code['of'], code['classes'] = B.class_labels('class', n, K)
        return y
    c = Case(B, 'LogisticRegression', ['t-NC-2-2'], icpt=True, y=labels)
    c.settings()
    c.data(lambda i, k: B.at(c.X, i, k), ((c.n, K), lambda i, k: B.ite(B.eq(code['of'](i), k), 1., 0.)))
    c.draws()

    def logit(k, x):
        s = B.sum(c.d, lambda j: x(j) * B.at(c.e.coef_, k, j))
        return s if c.e.intercept_ is None else s + B.at(c.e.intercept_, k)

    def value(x, y):
        z = B.lse(K, lambda k: logit(k, x))
        return B.sum(K, lambda k: y(k) * (z - logit(k, x)))
    c.primal(value, lambda m: B.tensor('yy', (m, K), nn=True))
    B.ensure('an intercept exactly when asked for', len(list(c.loss.primal_loss.parameters())) == (2 if c.icpt else 1))
    c.outcome()


@contract('C17')
def newsvendor(B):
    k, u = B.real('k', gt=0), B.real('u', gt=0)
    c = Case(B, 'NewsVendor', ['t-NC-1-2', 't-NC-2-2'], {'k': k, 'u': u}, spread=False, d=1, data={'nn': True})
    c.settings(post=c.solver != 'entropic_torch')
    c.data(lambda i, j: B.at(c.X, i, j))
    c.draws()
    t = B.at(c.e.coef_, 0)
    c.primal(lambda x, y: k * t - u * B.min2(t, x(0)))
    c.outcome()


@contract('C17')
def portfolio(B):
    eta, alpha = B.real('eta', lo=0), B.real('alpha', gt=0, hi=1)
    c = Case(B, 'Portfolio', ['t-NC-1-1', 't-NC-2-2'], {'eta': eta, 'alpha': alpha}, spread=False, penalty=False)
    c.settings()
    c.data(lambda i, j: B.at(c.X, i, j))
    c.draws('laplace' if c.code == 't-NC-1-1' else 'normal')
    tau = B.val(c.loss.primal_loss.loss.tau.detach())

    def value(x, y):
        r = B.sum(c.d, lambda k: x(k) * B.at(c.e.coef_, k))
        return -r + eta * (tau + B.div(B.max2(-r - tau, 0.), alpha))
    c.primal(value)
    B.ensure_eq('shares sum to one', B.sum(c.d, lambda k: B.at(c.e.coef_, k)), 1.)
    B.ensure_all('shares are not negative', (c.d,), lambda k: B.le(0., B.at(c.e.coef_, k)))
    c.outcome()


@contract('C17')
def weber(B):
    c = Case(B, 'Weber', ['t-NLC-2-2', 't-NC-2-2'], y=lambda n: B.array('y', (n,), nn=True))
    c.settings()
    c.data(lambda i, k: B.at(c.X, i, k), ((c.n, 1), lambda i, k: B.at(c.y, i)))
    c.draws()
    c.primal(lambda x, y: y(0) * B.norm(2, c.d, lambda k: x(k) - B.at(c.e.coef_, k)), lambda m: B.tensor('yy', (m, 1), nn=True))
    c.outcome()


# ---- dedicated solvers

def asked(B, estimator, solver, args, X, y, answer):
    """fit with the dedicated solver replaced: the estimator and the arguments its solver was given"""
    real = inspect.signature(getattr(B.repo('skwdro.solvers.specific_solvers'), solver))
    res = B.repo('skwdro.solvers.result')
    seen = {}

    @res.wrap_solver_result
    def solve(*a, **k):
        seen.update(real.bind(*a, **k).arguments)
        return answer
    with replaced(B, estimator, **{solver: solve}) as m:
        e = getattr(m, estimator)(solver='dedicated', **args).fit(X, y)
    return e, seen


@contract('C17')
def dedicated_linear_regression(B):
    n, d = B.dim('n', lo=2), B.dim('d')
    X, y, rho = B.array('X', (n, d)), B.array('y', (n,)), B.real('rho', lo=0)
    icpt = B.choice('fit_intercept', [True, False])
    w, b = B.array('w', (d,)), B.array('b', (1,))
    e, k = asked(B, 'LinearRegression', 'WDROLinRegSpecificSolver', {'rho': rho, 'fit_intercept': icpt}, X, y, (w, b, None))
    B.ensure_eq('radius', k['rho'], rho)
    B.ensure('intercept choice', k.get('fit_intercept', False) == icpt)
    B.ensure_tensor('data', k['X'], (n, d), lambda i, j: B.at(X, i, j))
    B.ensure_tensor('targets', k['y'], (n,), lambda i: B.at(y, i))
    B.ensure_tensor('coefficients', e.coef_, (d,), lambda j: B.at(w, j))
    B.ensure_eq('intercept', B.at(e.intercept_, 0), B.at(b, 0))


@contract('C17')
def dedicated_logistic_regression(B):
    n, d = B.dim('n', lo=2), B.dim('d')
    X, rho = B.array('X', (n, d)), B.real('rho', lo=0)
    y, code, cs = B.class_labels('class', n, 2)
    icpt = B.choice('fit_intercept', [True, False])
    w, b, lam, v = B.array('w', (d,)), B.real('b'), B.real('lam', lo=0), B.real('value')
    e, k = asked(B, 'LogisticRegression', 'WDROLogisticSpecificSolver', {'rho': rho, 'fit_intercept': icpt}, X, y, (w, b, lam, v))
    B.ensure_eq('radius', k['rho'], rho)
    B.ensure('intercept choice', k.get('fit_intercept', False) == icpt)
    B.ensure_tensor('data', k['X'], (n, d), lambda i, j: B.at(X, i, j))
    B.ensure_tensor('labels', k['y'], (n,), lambda i: B.ite(B.eq(code(i), 1), 1., -1.))
    B.ensure_tensor('coefficients', e.coef_, (d,), lambda j: B.at(w, j))
    B.ensure_eq('intercept', e.intercept_, b)
    B.ensure_eq('dual variable', e.dual_var_, lam)


@contract('C17')
def dedicated_newsvendor(B):
    n = B.dim('n')
    X, rho, price, sold, t = B.array('X', (n, 1), nn=True), B.real('rho', lo=0), B.real('k', gt=0), B.real('u', gt=0), B.real('t', lo=0)
    e, k = asked(B, 'NewsVendor', 'WDRONewsvendorSpecificSolver', {'rho': rho, 'k': price, 'u': sold}, X, None, (t, 0.))
    B.ensure_eq('radius', k['rho'], rho)
    B.ensure_eq('buying cost', k['k'], price)
    B.ensure_eq('selling price', k['u'], sold)
    B.ensure_tensor('data', k['samples'], (n, 1), lambda i, j: B.at(X, i, j))
    B.ensure_eq('decision', e.coef_, t)


@contract('C17')
def dedicated_portfolio(B):
    n, d, r = B.dim('n'), B.dim('d'), B.dim('r')
    X, rho, eta, alpha = B.array('X', (n, d)), B.real('rho', lo=0), B.real('eta', lo=0), B.real('alpha', gt=0, hi=1)
    args = {'rho': rho, 'eta': eta, 'alpha': alpha}
    support = B.choice('support', [True, False])
    if support:
        C, c = B.array('C', (r, d)), B.array('c', (r,))
        args.update(C=C, d=c)
    w, tau, lam, v = B.array('w', (d,)), B.array('tau', (1,)), B.array('lam', (1,), nn=True), B.real('value')
    e, k = asked(B, 'Portfolio', 'WDROPortfolioSpecificSolver', args, X, None, (w, tau, lam, v))
    for name, want in (('rho', rho), ('eta', eta), ('alpha', alpha), ('m', d)):
        B.ensure_eq(f'setting {name}', k[name], want)
    B.ensure_tensor('data', k['samples'], (n, d), lambda i, j: B.at(X, i, j))
    if support:
        B.ensure_tensor('support matrix', k['C'], (r, d), lambda i, j: B.at(C, i, j))
        B.ensure_tensor('support vector', k['d'], (r,), lambda i: B.at(c, i))
    else:
        B.ensure_tensor('no support constraint', k['C'], (k['C'].shape[0], d), lambda i, j: 0.)
    B.ensure_tensor('shares', e.coef_, (d,), lambda j: B.at(w, j))
    B.ensure_eq('threshold', B.at(e.tau_, 0), B.at(tau, 0))
    B.ensure_eq('dual variable', B.at(e.dual_var_, 0), B.at(lam, 0))


# ---- what is refused

def data_for(B, name, n, d):
    X = B.array('X', (n, d), nn=True)
    if name == 'LogisticRegression':
        return X, B.class_labels('class', n, 2)[0]
    return X, B.array('y', (n,), nn=True) if name in ('LinearRegression', 'Weber') else None


@contract('C17')
def refused_solvers(B):
    name = B.choice('estimator', list(MODULES))
    X, y = data_for(B, name, B.dim('n', lo=2), B.dim('d'))
    cls = getattr(B.repo(MODULES[name]), name)
    solver = B.choice('solver', ['entropic', 'typos', '', 'Dedicated', 'dedicate'] + (['dedicated'] if name == 'Weber' else []))
    B.ensure('refused', B.raises(lambda: cls(solver=solver).fit(X, y)) is not None)


@contract('C17')
def refused_radius(B):
    name = B.choice('estimator', list(MODULES))
    X, y = data_for(B, name, B.dim('n', lo=2), B.dim('d'))
    cls = getattr(B.repo(MODULES[name]), name)
    how = B.choice('radius', ['negative', 'text', 'nothing', 'list', 'complex'])
    rho = B.real('rho', lt=0) if how == 'negative' else {'text': 'small', 'nothing': None, 'list': [.1], 'complex': 1j}[how]
    solver = B.choice('solver', ['entropic_torch', 'entropic_torch_pre'])
    B.ensure('refused', B.raises(lambda: cls(rho=rho, solver=solver).fit(X, y)) is not None)


@contract('C17')
def single_class(B):
    n, d = B.dim('n', lo=2), B.dim('d')
    y = B.class_labels('class', n, 1)[0]
    cls = B.repo(MODULES['LogisticRegression']).LogisticRegression
    solver = B.choice('solver', ['entropic_torch', 'entropic_torch_pre', 'dedicated'])
    B.ensure('refused', B.raises(lambda: cls(solver=solver).fit(B.array('X', (n, d)), y)) is not None)
