"""C09: built-in losses compute their documented value."""
from engine.api import contract


def arbitrary_parameters(B, module, tag='par'):
    """give every parameter an arbitrary value"""
    with B.pt.no_grad():
        for name, p in module.named_parameters():
            p.copy_(B.tensor(f'{tag}.{name}', tuple(p.shape)))


def batch(B, ranks=(1, 2, 3, 4)):
    r = B.choice('rank', list(ranks))
    return tuple(B.dim(n) for n in ('a', 'b', 'c')[:r - 1])


def coefficient(B):
    how = B.choice('l2reg', ['none', 'zero', 'negative', 'positive'])
    v = {'none': None, 'zero': 0., 'negative': None, 'positive': None}[how]
    if how == 'negative':
        v = B.real('mu', lt=0)
    if how == 'positive':
        v = B.real('mu', gt=0)
    return v, (v if how == 'positive' else 0.)


def penalty(B, mu, theta, shape):
    if isinstance(mu, float) and mu == 0.:
        return 0.

    def sq(idx, rest):
        if rest:
            return B.sum(rest[0], lambda k: sq(idx + (k,), rest[1:]))
        return B.at(theta, *idx) * B.at(theta, *idx)
    return .5 * mu * sq((), tuple(shape))


class NoSampler:
    pass


def sampler(B):
    return NoSampler()


def linear_loss(B, cls):
    L = B.repo('skwdro.base.losses_torch')
    d = B.dim('d')
    mu, pen = coefficient(B)
    fi = B.choice('intercept', [None, False, True])
    kw = {} if fi is None else {'fit_intercept': fi}
    if mu is not None or B.choice('explicit', [False, True]):
        kw['l2reg'] = mu
    loss = getattr(L, cls)(sampler(B), d=d, **kw)
    arbitrary_parameters(B, loss)
    bs = batch(B)
    x, y = B.tensor('x', bs + (d,)), B.tensor('y', bs + (1,))
    w = B.snapshot(loss.theta)
    B.ensure_shape('theta has one row', w, (1, d))
    if fi:
        b = B.snapshot(loss.intercept)
        B.ensure_shape('one intercept', b, (1,))
    else:
        B.ensure('no intercept', loss.intercept is None)

    def score(*i):
        s = B.sum(d, lambda k: B.at(w, 0, k) * B.at(x, *i, k))
        return s + B.at(b, 0) if fi else s
    return loss, x, y, bs, score, penalty(B, pen, w, (1, d))


@contract('C09')
def quadratic(B):
    loss, x, y, bs, score, pen = linear_loss(B, 'QuadraticLoss')
    call = B.choice('call', ['value', 'call'])
    r = loss.value(x, y) if call == 'value' else loss(x, y)
    B.ensure_tensor('squared error', r, bs + (1,),
                    lambda *i: B.pow(score(*i[:-1]) - B.at(y, *i), 2) + pen)


@contract('C09')
def quadratic_regression(B):
    loss, x, y, bs, score, pen = linear_loss(B, 'QuadraticLoss')
    B.ensure_tensor('regression is the linear form', loss.regression(x), bs + (1,), lambda *i: score(*i[:-1]))


@contract('C09')
def logistic(B):
    loss, x, y, bs, score, pen = linear_loss(B, 'LogisticLoss')
    call = B.choice('call', ['value', 'call'])
    r = loss.value(x, y) if call == 'value' else loss(x, y)
    B.ensure_tensor('logistic loss', r, bs + (1,),
                    lambda *i: -B.logsigmoid(B.at(y, *i) * score(*i[:-1])) + pen)


@contract('C09')
def soft_margin(B):
    L = B.repo('skwdro.base.losses_torch.logistic')
    loss = L.BiDiffSoftMarginLoss(reduction='none') if B.choice('arg', [True, False]) else L.BiDiffSoftMarginLoss()
    B.ensure('no reduction', loss.reduction == 'none')
    bs = batch(B, (2, 3))
    s = B.tensor('s', bs + (1,))
    drop = B.choice('label shape', ['same', 'flat'])
    y = B.tensor('y', bs if drop == 'flat' else bs + (1,))
    r = loss(s, y)
    B.ensure_tensor('logistic loss of a margin', r, bs + (1,),
                    lambda *i: -B.logsigmoid(B.at(s, *i) * B.at(y, *(i[:-1] if drop == 'flat' else i))))


@contract('C09')
def labels_required(B):
    L = B.repo('skwdro.base.losses_torch')
    d, m = B.dim('d'), B.dim('m')
    loss = getattr(L, B.choice('cls', ['QuadraticLoss', 'LogisticLoss']))(sampler(B), d=d)
    x = B.tensor('x', (m, d))
    B.ensure('labels are required', B.raises(lambda: loss.value(x, None)) is not None)


def newsvendor_spec(B, k, u, th, x, d):
    return lambda *i: k * th - u * B.mean(d, lambda j: B.min2(th, B.at(x, *i[:-1], j)))


@contract('C09')
def newsvendor(B):
    L = B.repo('skwdro.base.losses_torch')
    k, u = B.real('k'), B.real('u')
    mu, pen = coefficient(B)
    loss = L.NewsVendorLoss_torch(sampler(B), k=k, u=u, l2reg=mu)
    arbitrary_parameters(B, loss)
    d = B.dim('d')
    bs = batch(B)
    x = B.tensor('x', bs + (d,))
    th = B.val(B.snapshot(loss.theta))
    form = B.choice('call', ['alone', 'none', 'labels'])
    if form == 'alone':
        r = loss.value(x)
    elif form == 'none':
        r = loss(x, None)
    else:
        r = loss.value(x, B.tensor('y', bs + (1,)))
    f = newsvendor_spec(B, k, u, th, x, d)
    B.ensure_tensor('newsvendor loss', r, bs + (1,), lambda *i: f(*i) + (.5 * mu * th * th if not isinstance(pen, float) or pen else 0.))


@contract('C09')
def newsvendor_of_estimator(B):
    L = B.repo('skwdro.operations_research._newsvendor')
    k, u = B.real('k'), B.real('u')
    loss = L.CustomNewsvendorLoss(k, u)
    B.ensure('no reduction', loss.reduction == 'none')
    arbitrary_parameters(B, loss)
    d = B.dim('d')
    bs = batch(B, (2, 3))
    x = B.tensor('x', bs + (d,))
    th = B.val(B.snapshot(loss.theta_))
    B.ensure_tensor('newsvendor loss', loss(x), bs + (1,), newsvendor_spec(B, k, u, th, x, d))


@contract('C09')
def newsvendor_functional(B):
    L = B.repo('skwdro.base.losses_torch')
    k, u = B.real('k'), B.real('u')
    loss = L.NewsVendorLoss_torch(sampler(B), k=k, u=u)
    m = B.dim('m')
    th, x = B.tensor('th', (m,)), B.tensor('x', (m,))
    B.ensure_tensor('newsvendor loss of a given decision', loss.value_old(th, x), (m,),
                    lambda i: k * B.at(th, i) - u * B.min2(B.at(th, i), B.at(x, i)))


@contract('C09')
def portfolio(B):
    L = B.repo('skwdro.base.losses_torch.portfolio')
    d = B.dim('d')
    eta, alpha = B.real('eta', lo=0), B.real('alpha', gt=0, hi=1)
    loss = L.SimplePortfolio(d, eta, alpha) if B.choice('keywords', [False, True]) else \
        L.SimplePortfolio(d, risk_aversion=eta, risk_level=alpha)
    B.ensure('no reduction', loss.reduction == 'none')
    arbitrary_parameters(B, loss)
    w = B.snapshot(loss.assets.weight)
    tau = B.val(B.snapshot(loss.tau))
    B.ensure_shape('one weight per asset', w, (1, d))
    B.ensure_all('weights are positive', (d,), lambda j: B.lt(0, B.at(w, 0, j)))
    B.ensure_eq('weights sum to one', B.sum(d, lambda j: B.at(w, 0, j)), 1.)
    bs = batch(B)
    x = B.tensor('x', bs + (d,))

    def spec(*i):
        ret = B.sum(d, lambda j: B.at(w, 0, j) * B.at(x, *i[:-1], j))
        return -ret + eta * (tau + B.div(B.max2(-ret - tau, 0.), alpha))
    B.ensure_tensor('mean-risk loss', loss(x), bs + (1,), spec)


@contract('C09')
def weber(B):
    L = B.repo('skwdro.base.losses_torch.weber')
    d = B.dim('d')
    loss = L.SimpleWeber(d)
    B.ensure('no reduction', loss.reduction == 'none')
    B.ensure_tensor('starts at the origin', loss.pos, (d,), lambda k: 0.)
    arbitrary_parameters(B, loss)
    p = B.snapshot(loss.pos)
    bs = batch(B, (2, 3, 4))
    x, w = B.tensor('x', bs + (d,)), B.tensor('w', bs + (1,))
    B.ensure_tensor('weight times distance', loss(x, w), bs + (1,),
                    lambda *i: B.at(w, *i) * B.norm(2, d, lambda k: B.at(x, *i[:-1], k) - B.at(p, k)))
