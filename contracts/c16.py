"""C16: predictions and scores follow from the fitted coefficients."""
import copy
from engine.api import contract
from .estimators import fitted, replaced

SOLVERS = ['entropic_torch', 'entropic_torch_pre', 'entropic_torch_post']


def linear(B, e, X, i, d):
    """intercept plus inner product with the fitted coefficients"""
    w, b = e.coef_, e.intercept_
    s = B.sum(d, lambda k: B.at(X, i, k) * B.at(w, k))
    if b is None:
        return s
    return s + (B.at(b, 0) if len(B.np.shape(b)) else B.val(b))


def state(B, e):
    """fitted attributes, models by the values they hold"""
    r = {}
    for k, v in vars(e).items():
        if isinstance(v, B.pt.nn.Module):
            v = {'training': v.training, **{j: t.detach().clone() for j, t in v.state_dict().items()}}
        r[k] = copy.deepcopy(v)
    return r


def unchanged(B, e, before):
    after = state(B, e)
    B.ensure('no fitted attribute comes or goes', set(after) == set(before))
    for k in before:
        B.same_state('fitted state is left alone', before[k], after[k])


@contract('C16')
def regression(B):
    d, n, m = B.dim('d'), B.dim('n'), B.dim('m')
    icpt = B.choice('fit_intercept', [True, False])
    e = fitted(B, 'LinearRegression', {'solver': B.choice('solver', SOLVERS), 'fit_intercept': icpt}, B.array('X', (n, d)), B.array('y', (n,)))
    X = B.array('X2', (m, d))
    before = state(B, e)
    p = e.predict(X)
    B.ensure_tensor('prediction', p, (m,), lambda i: linear(B, e, X, i, d))
    unchanged(B, e, before)


@contract('C16')
def classification(B):
    d, n, m = B.dim('d'), B.dim('n', lo=2), B.dim('m')
    y, code, cs = B.class_labels('class', n, 2)
    e = fitted(B, 'LogisticRegression', {'solver': B.choice('solver', SOLVERS), 'fit_intercept': B.choice('fit_intercept', [True, False])},
               B.array('X', (n, d)), y)
    classes(B, e, d, m, cs)


@contract('C16')
def dedicated_classification(B):
    d, n, m = B.dim('d'), B.dim('n', lo=2), B.dim('m')
    y, code, cs = B.class_labels('class', n, 2)
    icpt = B.choice('fit_intercept', [True, False])
    res = B.repo('skwdro.solvers.result')

    @res.wrap_solver_result
    def solver(**kw):
        return B.array('fitted', (d,)), B.real('fitted intercept') if icpt else 0., B.real('fitted dual variable', lo=0), B.real('value')
    with replaced(B, 'LogisticRegression', WDROLogisticSpecificSolver=solver) as mod:
        e = mod.LogisticRegression(solver='dedicated', fit_intercept=icpt).fit(B.array('X', (n, d)), y)
    classes(B, e, d, m, cs)


def classes(B, e, d, m, cs):
    X = B.array('X2', (m, d))
    before = state(B, e)
    p = e.predict_proba(X)
    p1 = lambda i: B.sigmoid(linear(B, e, X, i, d))
    B.ensure_tensor('probabilities', p, (m, 2), lambda i, c: B.ite(B.eq(c, 1), p1(i), 1. - p1(i)))
    B.ensure_all('probabilities sum to one', (m,), lambda i: B.eq(B.at(p, i, 0) + B.at(p, i, 1), 1.))
    out = e.predict(X)
    if not B.symbolic:
        # a tie up to rounding may go either way
        B.assume(all(p1(i) == .5 or abs(p1(i) - .5) > 1e-9 for i in range(m)))
    B.ensure_tensor('label', out, (m,), lambda i: B.ite(B.lt(p1(i), .5), cs[0], cs[1]))
    if hasattr(e, 'predict_proba_2Class'):
        B.ensure_tensor('probability of the second class', e.predict_proba_2Class(X), (m,), p1)
    unchanged(B, e, before)


@contract('C16')
def newsvendor(B):
    n, m = B.dim('n'), B.dim('m')
    k, u = B.real('k', gt=0), B.real('u', gt=0)
    args = {'k': k, 'u': u, 'solver': B.choice('solver', SOLVERS)}
    e = fitted(B, 'NewsVendor', args, B.array('X', (n, 1), nn=True))
    vendor(B, e, m, k, u)


@contract('C16')
def dedicated_newsvendor(B):
    n, m = B.dim('n'), B.dim('m')
    k, u = B.real('k', gt=0), B.real('u', gt=0)
    res = B.repo('skwdro.solvers.result')

    @res.wrap_solver_result
    def solver(**kw):
        return B.real('fitted', lo=0), B.real('fitted dual variable', lo=0)
    with replaced(B, 'NewsVendor', WDRONewsvendorSpecificSolver=solver) as mod:
        e = mod.NewsVendor(solver='dedicated', k=k, u=u).fit(B.array('X', (n, 1), nn=True))
    vendor(B, e, m, k, u)


def vendor(B, e, m, k, u):
    X = B.array('X2', (m, 1))
    t = B.at(e.coef_, 0) if len(B.np.shape(e.coef_)) else B.val(e.coef_)
    before = state(B, e)
    s = e.score(X)
    B.ensure_eq('score', s, -B.mean(m, lambda i: k * t - u * B.min2(t, B.at(X, i, 0))))
    unchanged(B, e, before)


@contract('C16')
def portfolio(B):
    n, m, d = B.dim('n'), B.dim('m'), B.dim('d')
    eta, alpha = B.real('eta', lo=0), B.real('alpha', gt=0, hi=1)
    args = {'eta': eta, 'alpha': alpha, 'solver': B.choice('solver', SOLVERS)}
    e = fitted(B, 'Portfolio', args, B.array('X', (n, d)))
    tau = B.val(e._wdro_loss.primal_loss.loss.tau.detach())
    shares(B, e, m, d, eta, alpha, tau)


@contract('C16')
def dedicated_portfolio(B):
    n, m, d = B.dim('n'), B.dim('m'), B.dim('d')
    eta, alpha = B.real('eta', lo=0), B.real('alpha', gt=0, hi=1)
    res = B.repo('skwdro.solvers.result')
    tau = B.array('fitted threshold', (1,))

    @res.wrap_solver_result
    def solver(**kw):
        return B.array('fitted', (d,)), tau, B.array('fitted dual variable', (1,), nn=True), B.real('value')
    with replaced(B, 'Portfolio', WDROPortfolioSpecificSolver=solver) as mod:
        e = mod.Portfolio(solver='dedicated', eta=eta, alpha=alpha).fit(B.array('X', (n, d)))
    shares(B, e, m, d, eta, alpha, B.at(tau, 0))


def shares(B, e, m, d, eta, alpha, tau):
    X = B.array('X2', (m, d))

    def loss(i):
        r = B.sum(d, lambda k: B.at(X, i, k) * B.at(e.coef_, k))
        return -r + eta * (tau + B.div(B.max2(-r - tau, 0.), alpha))
    before = state(B, e)
    s = e.score(X)
    B.ensure_eq('score', s, -B.mean(m, loss))
    unchanged(B, e, before)


@contract('C16')
def weber(B):
    n, m, d = B.dim('n'), B.dim('m'), B.dim('d')
    e = fitted(B, 'Weber', {'solver': B.choice('solver', SOLVERS)}, B.array('X', (n, d)), B.array('y', (n,), nn=True))
    X, w = B.array('X2', (m, d)), B.array('w', (m,), nn=True)
    given = B.choice('weights', [True, False])
    before = state(B, e)
    s = e.score(X, w) if given else e.score(X)
    dist = lambda i: B.norm(2, d, lambda k: B.at(X, i, k) - B.at(e.coef_, k))
    B.ensure_eq('score', s, -B.mean(m, lambda i: (B.at(w, i) if given else 1.) * dist(i)))
    unchanged(B, e, before)
