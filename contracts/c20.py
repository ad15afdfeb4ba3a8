"""C20: dedicated solvers pose the documented convex programs.

The verifier's side: the convex optimiser is replaced by its contract (a minimiser of exactly the objective and constraints
it is handed), loops over the data run for an arbitrary data point, and the program handed over is compared with the
documented one written in the values the solver returns.  The layout of the auxiliary variables is read off the program;
a program of another form leaves the question to the runs on the real optimisers, which compare optimal values and returned
decisions with the documented program posed anew."""
from engine.api import contract
from . import programs as real


def posed(B):
    ps = B.programs()
    B.ensure('one program is solved', len(ps) == 1)
    return ps[0]


def solver(B, name):
    B.each_rule()
    return getattr(B.repo('skwdro.solvers.specific_solvers'), name)


@contract('C20', n=14)
def logistic(B):
    n, d = B.dim('n'), B.dim('d')
    X = B.array('X', (n, d))
    y = B.np.array(B.sign_tensor('y', (n,)))
    rho = B.real('rho', gt=0)
    B.assume(B.symbolic or rho > .02)     # the optimisers lose their footing on separable data
    kappa = B.choice('kappa', [1000, None])
    if kappa is None:
        kappa = B.real('kappa', lo=0)
    icpt = B.choice('fit_intercept', [True, False])
    with real.recorded(B) as seen:
        r = solver(B, 'WDROLogisticSpecificSolver')(rho=rho, kappa=kappa, X=X, y=y, fit_intercept=icpt)
    w, b, lam, val = r.coef, r.intercept, r.dual_var, r.robust_loss
    B.ensure_shape('one coefficient per feature', w, (d,))
    if not icpt:
        B.ensure_eq('no intercept', b, 0.)
    if not B.symbolic:
        return real.logistic(B, seen, X, y, rho, kappa, icpt, w, b, lam, val)
    P = posed(B)
    B.ensure_eq('the objective returned is the value of the program', val, P.objective)
    s = B.summand(P.objective, n)
    lam, b = B.val(lam), B.val(b)
    margin = lambda i: B.at(y, i) * (B.sum(d, lambda k: B.at(X, i, k) * B.at(w, k)) + b)
    loss = lambda m: -B.logsigmoid(m)
    B.ensure('objective', B.eq(P.objective, lam * rho + B.mean(n, s)), soft=True)
    B.ensure('constraints, one pair per data point', B.iff(P.feasible, B.both(
        B.le(B.norm(2, d, lambda k: B.at(w, k)), lam),
        B.forall(n, lambda i: B.le(loss(-margin(i)) - kappa * lam, s(i))),
        B.forall(n, lambda i: B.le(loss(margin(i)), s(i))))), soft=True)


@contract('C20', n=14)
def regression(B):
    n, d = B.dim('n'), B.dim('d')
    X, y = B.array('X', (n, d)), B.array('y', (n,))
    rho = B.real('rho', gt=0)
    icpt = B.choice('fit_intercept', [True, False])
    with real.recorded(B) as seen:
        r = solver(B, 'WDROLinRegSpecificSolver')(rho=rho, X=X, y=y, fit_intercept=icpt)
    w, b = r.coef, r.intercept
    B.ensure_shape('one coefficient per feature', w, (d,))
    if not B.symbolic:
        return real.regression(B, seen, X, y, rho, icpt, w, b)
    P = posed(B)
    b = B.val(b)
    res = lambda i: B.sum(d, lambda k: B.at(X, i, k) * B.at(w, k)) + b - B.at(y, i)
    B.ensure('objective', B.eq(P.objective, B.norm(2, n, res) / B.sqrt(n) + rho * B.norm(2, d, lambda k: B.at(w, k))), soft=True)
    B.ensure('constraints', B.iff(P.feasible, True if icpt else B.eq(b, 0.)), soft=True)


def newsvendor_program(B, P, n, z, k, u, theta):
    """the sample average problem, over sorted or unsorted demands"""
    s = B.summand(P.objective, n)
    B.ensure('objective', B.eq(P.objective, k * theta - u * B.mean(n, s)), soft=True)

    def spec(data):
        return B.both(B.le(0., theta), B.forall(n, lambda i: B.le(s(i), theta)), B.forall(n, lambda i: B.le(s(i), B.at(data, i, 0))))
    B.ensure('constraints, one pair per data point',
             B.either(B.iff(P.feasible, spec(B.np.sort(z, axis=0))), B.iff(P.feasible, spec(z))), soft=True)


def prices(B):
    k = B.real('k', gt=0)
    return k, k + B.real('margin', gt=0)


@contract('C20', n=14)
def newsvendor_average(B):
    n = B.dim('n')
    z = B.array('demand', (n, 1), pos=True)
    k, u = prices(B)
    with real.recorded(B) as seen:
        r = solver(B, 'SAANewsvendorSpecificSolver2')(k=k, u=u, samples=z)
    if not B.symbolic:
        return real.newsvendor(B, seen, z, k, u, None, r.coef)
    newsvendor_program(B, posed(B), n, z, k, u, B.val(r.coef))


@contract('C20', n=14)
def newsvendor_linear_program(B):
    n = B.dim('n')
    z = B.array('demand', (n, 1), pos=True)
    k, u = prices(B)
    r = solver(B, 'SAANewsvendorSpecificSolver')(k=k, u=u, samples=z)
    if not B.symbolic:
        return real.newsvendor(B, None, z, k, u, None, r.coef, r.dual_var)
    P = posed(B)
    x = lambda j: B.at(P.x, j, 0)
    theta = B.val(r.coef)
    zs = B.np.sort(z, axis=0)
    B.ensure('decision', B.eq(theta, x(0)), soft=True)
    B.ensure('one pair of rows per data point', B.eq(P.G.shape[0], 2 * n), soft=True)
    B.ensure('one slack variable per data point', B.eq(P.G.shape[1], n + 1), soft=True)
    B.ensure('objective', B.eq(B.val(B.np.sum(P.c * P.x)), B.mean(n, lambda i: x(i + 1))), soft=True)
    B.ensure('value', B.eq(B.val(r.dual_var), B.mean(n, lambda i: x(i + 1))), soft=True)
    i = B.index('data point', n)
    row = lambda i: B.sum(n + 1, lambda j: B.at(P.G, i, j) * x(j)) - B.at(P.h, i, 0)
    B.ensure('rows of the first kind', B.eq(row(i), (k - u) * theta - x(i + 1)), soft=True)
    B.ensure('rows of the second kind', B.eq(row(n + i), k * theta - x(i + 1) - u * B.at(zs, i, 0)), soft=True)


@contract('C20', n=60)
def newsvendor_robust(B):
    """unbounded: the decision is nothing, or that of the sample average problem"""
    n = B.dim('n')
    z = B.array('demand', (n, 1), pos=True)
    k, u = prices(B)
    rho = B.real('rho', gt=0)
    f = solver(B, 'WDRONewsvendorSpecificSolver')
    if not B.symbolic:
        if B.choice('prices', ['any', 'close to worth it']) != 'any':
            # the worst case of ordering x gains u (mean min(z, x) - rho) and costs k x
            gain = max((B.np.minimum(z, x).mean() - rho) / x for x in z[:, 0])
            B.assume(gain > 0.)
            k = u * gain * B.choice('price', [.97, 1.03])
            B.assume(k < u)
        return real.newsvendor(B, None, z, k, u, rho, f(k=k, u=u, rho=rho, samples=z).coef)
    r = f(k=k, u=u, rho=rho, samples=z)
    if not B.programs():
        B.ensure('nothing is ordered', B.eq(B.val(r.coef), 0.))
        return
    newsvendor_program(B, posed(B), n, z, k, u, B.val(r.coef))


@contract('C20', n=1)
def newsvendor_choice(B):
    """up to two data points: nothing is ordered exactly when no order of a demand seen is worth it in the worst case"""
    n = B.choice('n', [1, 2])
    z = B.sorted_column('demand', n, pos=True)
    if B.choice('order', ['increasing', 'decreasing']) == 'decreasing':
        z = z[::-1]
    k, u = prices(B)
    rho = B.real('rho', gt=0)
    f = solver(B, 'WDRONewsvendorSpecificSolver')
    r = f(k=k, u=u, rho=rho, samples=z)
    if not B.symbolic:
        return real.newsvendor(B, None, z, k, u, rho, r.coef)
    Z = [B.at(z, i, 0) for i in range(n)]
    # ordering t costs, in the worst case, the least over l in [0, u] of l rho + k t - mean min(l z, u min(t, z)); the least is
    # at l = 0 or l = u t / x for a demand x >= t, where it is t / x times the following number
    gain = [u * rho + k * x - B.div(u * sum(B.min2(x, y) for y in Z), n) for x in Z]
    if B.programs():
        B.ensure('an order is worth it', B.either(*[B.lt(v, 0.) for v in gain]))
    else:
        for v in gain:
            B.ensure('no order is worth it', B.le(0., v))


@contract('C20', n=14)
def portfolio(B):
    n, m = B.dim('n'), B.dim('m')
    kind = B.choice('support', ['whole space', 'polyhedron'])
    q = B.choice('order of the ground norm', [1, 2, None])
    p = q if q is not None else B.real('p', gt=1, hi=8)
    eta, rho = B.real('eta', lo=0), B.real('rho', gt=0)
    alpha = B.real('alpha', gt=0, lt=1)
    X = B.array('X', (n, m))
    if kind == 'whole space':
        r_, C, d = 1, B.np.zeros((1, m)), B.np.zeros((1, 1))
        support = lambda j: 0.
    else:
        r_ = B.dim('r')
        C = B.array('C', (r_, m))
        gap = B.array('gap', (r_,), nn=True) if not B.symbolic else None
        d = B.array('d', (r_,)) if B.symbolic else (C @ X.T).max(1) + gap
        support = lambda j: B.at(d, j)
    with real.recorded(B) as seen:
        r = solver(B, 'WDROPortfolioSpecificSolver')(C=C, d=d, m=m, p=p, eta=eta, alpha=alpha, rho=rho, samples=X)
    theta, tau, lam, val = r.coef, r.intercept, r.dual_var, r.robust_loss
    B.ensure_shape('one weight per asset', theta, (m,))
    dual = B.inf if q == 1 else 2 if q == 2 else B.div(1., 1. - B.div(1., p))
    a = [-1., -1. - B.div(eta, alpha)]
    b = [eta, eta * (1. - B.div(1., alpha))]
    if not B.symbolic:
        return real.portfolio(B, seen, X, C, d, a, b, dual, rho, theta, tau, lam, val)
    P = posed(B)
    B.ensure_eq('the objective returned is the value of the program', val, P.objective)
    s = B.summand(P.objective, n)
    tau, lam = B.val(tau), B.val(lam)
    g = B.other_variable(P, theta, tau, lam, s(B.index('i', n)))
    w = lambda j: B.at(theta, j)
    B.ensure('objective', B.eq(P.objective, lam * rho + B.mean(n, s)), soft=True)
    cs = [B.eq(B.sum(m, w), 1.), B.forall(m, lambda j: B.le(0., w(j))), B.le(0., lam)]
    for k in range(2):
        gam = lambda i, j, k=k: g(i * 2 + k, j)
        cs += [B.forall(n, lambda i: B.le(b[k] * tau + a[k] * B.sum(m, lambda j: w(j) * B.at(X, i, j)) + B.sum(
                   r_, lambda j: gam(i, j) * (support(j) - B.sum(m, lambda l: B.at(C, j, l) * B.at(X, i, l)))), s(i))),
               B.forall(n, lambda i: B.le(B.norm(dual, m, lambda l: B.sum(r_, lambda j: B.at(C, j, l) * gam(i, j)) - a[k] * w(l)), lam)),
               B.forall(n, lambda i: B.forall(r_, lambda j: B.le(0., gam(i, j))))]
    B.ensure('constraints, one set per data point', B.iff(P.feasible, B.both(*cs)), soft=True)
