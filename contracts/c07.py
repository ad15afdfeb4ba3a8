"""C07: reference samples follow the configured law around the current batch."""
import math
from engine.api import contract
from .common import Robust

LAWS = [(1., 1., 'laplace'), (2., 1., 'normal'), (math.inf, 1., 'normal'), (2., 2., 'normal')]


def spread(B, name='sigma'):
    """(argument, value) of a standard deviation"""
    how = B.choice('given ' + name, ['number', 'tensor', 'integer'])
    if how == 'integer':
        return 1, 1.
    s = B.real(name, gt=0)
    return (s if how == 'number' else B.pt.tensor(s)), s


def seed_of(B):
    return B.choice('seed', [None, 3])


def centred(B, d, l=None, build=None):
    """a sampler after zero, one or two re-centrings, and the current centre"""
    m = B.dim('m')
    xi = B.tensor('xi', (m, d))
    y = B.tensor('y', (m, l)) if l is not None else None
    seen = [t for t in (xi, y) if t is not None]
    old = [B.snapshot(t) for t in seen]
    s = build(xi, y)
    for k in range(B.choice('recentrings', [0, 1, 2])):
        m = B.dim(f'm{k}')
        xi = B.tensor(f'xi{k}', (m, d))
        y = B.tensor(f'y{k}', (m, l)) if l is not None else None
        seen += [t for t in (xi, y) if t is not None]
        old += [B.snapshot(t) for t in seen[len(old):]]
        s.reset_mean(xi, y)
    for t, o in zip(seen, old):
        # batches come back: re-centring must not write into them
        B.ensure_tensor('batches are left alone', t, o.shape, lambda *i: B.at(o, *i))
    return s, m, xi, y


def entry(B, t):
    return lambda j, i, k: B.at(t, i, k)


def log_normal(B, v, loc, s):
    return -B.div(B.pow(v - loc, 2), 2 * B.pow(s, 2)) - B.log(s) - .5 * (B.log(2.) + B.log(math.pi if not B.symbolic else B_PI(B)))


def B_PI(B):
    from engine import terms as T
    from engine.symval import mkreal
    return mkreal(T.var('pi', pos=True))


def log_law(B, law, v, loc, s):
    if law == 'laplace':
        return -B.log(2 * s) - B.div(B.abs(v - loc), s)
    return log_normal(B, v, loc, s)


@contract('C07', n=12, paths=1500)
def cost_law(B):
    """samples of the law of a cost, without labels"""
    C = B.repo('skwdro.base.costs_torch')
    SM = B.repo('skwdro.base.samplers.torch.cost_samplers')
    p, power, law = B.choice('law', LAWS)
    kind = B.choice('cost', ['norm', 'label'])
    cost = C.NormCost(p=p, power=power) if kind == 'norm' else C.NormLabelCost(p=p, power=power, kappa=B.real('kappa', lo=0))
    arg, sg = spread(B)
    d = B.dim('d')
    s, m, xi, _ = centred(B, d, None, lambda x, y: SM.NoLabelsCostSampler(cost, x, arg, seed_of(B)))
    n = B.many('n')
    z, zl = s.sample(n)
    B.ensure('no labels', zl is None)
    B.ensure('declares no labels', s.produces_labels is False)
    B.ensure_law('law of the samples', z, (n, m, d), law, entry(B, xi), lambda *i: sg)


@contract('C07', n=12, paths=1500)
def cost_law_labels(B):
    C = B.repo('skwdro.base.costs_torch')
    SM = B.repo('skwdro.base.samplers.torch.cost_samplers')
    p, power, law = B.choice('law', LAWS)
    kind = B.choice('cost', ['norm', 'label', 'infinite'])
    kappa = B.real('kappa', gt=0)
    cost = {'norm': lambda: C.NormCost(p=p, power=power), 'label': lambda: C.NormLabelCost(p=p, power=power, kappa=kappa),
            'infinite': lambda: C.NormLabelCost(p=p, power=power, kappa=math.inf)}[kind]()
    arg, sg = spread(B)
    d, l = B.dim('d'), B.dim('l')
    s, m, xi, y = centred(B, d, l, lambda x, y: SM.LabeledCostSampler(cost, x, y, arg, seed_of(B)))
    n = B.many('n')
    z, zl = s.sample(n)
    B.ensure('declares labels', s.produces_labels is True)
    a = B.ensure_law('law of the data', z, (n, m, d), law, entry(B, xi), lambda *i: sg)
    if kind == 'label':
        b = B.ensure_law('law of the labels', zl, (n, m, l), law, entry(B, y), lambda *i: B.div(sg, kappa) if power == 1 else sg)
        B.ensure_apart('data and labels are independent', a, b)
    else:
        B.ensure_tensor('labels are pinned', zl, (n, m, l), entry(B, y))


@contract('C07', n=12, paths=3000)
def sampler_of_a_robust_loss(B):
    """robust losses that set up a sampler, and draw from it"""
    post = B.choice('sampling', [True, False])
    n = B.many('n')
    r = Robust(B, post, B.real('rho', gt=0), usual=True, models=('none',), reductions=('mean',), sampler=lambda r: Unset(n),
               **({'adapt': None} if post else {}))
    d, x, y = r.dual, r.x, r.y
    sg = B.real('sigma', gt=0)
    s = d.init_sampler(x, y, sg, seed_of(B))
    B.ensure('the sampler of the loss', s is d.sampler and s is d.primal_loss.sampler)
    if B.choice('moved', [False, True]) and post:
        m = B.dim('m later')
        x, y = B.tensor('x later', (m, r.d)), B.tensor('y later', (m, r.l)) if y is not None else None
        d(x, y)
    m = x.shape[0]
    few = B.choice('number', ['configured', 'given'])
    if few == 'given':
        n = B.many('n given')
    z, zl = d.generate_zetas() if few == 'configured' else d.generate_zetas(n)
    a = B.ensure_law('law of the data', z, (n, m, r.d), 'normal', entry(B, x), lambda *i: sg)
    if y is None:
        B.ensure('no labels', zl is None)
    elif r.c.kind == 'weighted':
        b = B.ensure_law('law of the labels', zl, (n, m, r.l), 'normal', entry(B, y), lambda *i: sg)
        B.ensure_apart('data and labels are independent', a, b)
    else:
        B.ensure_tensor('labels are pinned', zl, (n, m, r.l), entry(B, y))


class Unset:
    """a sampler to be replaced"""

    def __init__(self, n):
        self.n = n


@contract('C07', n=12)
def default_spread(B):
    C = B.repo('skwdro.base.costs_torch')
    p, power, law = B.choice('law', LAWS)
    m, d = B.dim('m'), B.dim('d')
    xi = B.tensor('xi', (m, d))
    if B.choice('labels', [False, True]):
        kappa = B.real('kappa', gt=0)
        dist, sg = C.NormLabelCost(p=p, power=power, kappa=kappa)._sampler_labels(xi, None), B.div(1e-3, kappa) if power == 1 else 1e-3
    else:
        dist, sg = C.NormCost(p=p, power=power)._sampler_data(xi, None), 1e-3
    n = B.many('n')
    B.ensure_law('law of the samples', dist.rsample((n,)), (n, m, d), law, entry(B, xi), lambda *i: sg)


@contract('C07', n=12)
def sampler_of_a_cost(B):
    """the pair of laws a cost gives"""
    C = B.repo('skwdro.base.costs_torch')
    p, power, law = B.choice('law', LAWS)
    kind = B.choice('cost', ['norm', 'label', 'infinite'])
    kappa = B.real('kappa', gt=0)
    cost = {'norm': lambda: C.NormCost(p=p, power=power), 'label': lambda: C.NormLabelCost(p=p, power=power, kappa=kappa),
            'infinite': lambda: C.NormLabelCost(p=p, power=power, kappa=math.inf)}[kind]()
    sg = B.real('sigma', gt=0)
    m, d, l = B.dim('m'), B.dim('d'), B.dim('l')
    x, y = B.tensor('xi', (m, d)), B.tensor('y', (m, l))
    data, labels = cost.sampler(x, y, B.pt.tensor(sg))
    n = B.many('n')
    a = B.ensure_law('law of the data', data.rsample((n,)), (n, m, d), law, entry(B, x), lambda *i: sg)
    zl = labels.rsample((n,))
    if kind == 'label':
        b = B.ensure_law('law of the labels', zl, (n, m, l), law, entry(B, y), lambda *i: B.div(sg, kappa) if power == 1 else sg)
        B.ensure_apart('data and labels are independent', a, b)
    else:
        B.ensure_tensor('labels are pinned', zl, (n, m, l), entry(B, y))


@contract('C07', n=12)
def default_sampler_of_a_loss(B):
    """asked for, or set up by the loss itself"""
    L = B.repo('skwdro.base.losses_torch')
    base = B.repo('skwdro.base.losses_torch.base_loss').Loss
    cls, labels = B.choice('loss', [(L.LogisticLoss, True), (L.QuadraticLoss, True), (L.NewsVendorLoss_torch, False)])
    given = B.choice('how', ['asked for', 'set up', 'set up by default'])
    sg = .1 if given == 'set up by default' else B.real('sigma', gt=0)

    class Own(base):
        default_sampler = cls.default_sampler
        theta = intercept = None

    def build(x, y):
        if given == 'asked for':
            return cls.default_sampler(x, y, sg, seed_of(B))
        return Own(None, labels, xi=x, xi_labels=y, sigma=None if given == 'set up by default' else sg).sampler
    d = B.dim('d')
    l = B.dim('l') if labels else None
    s, m, x, y = centred(B, d, l, build)
    n = B.many('n')
    z, zl = s.sample(n)
    a = B.ensure_law('law of the data', z, (n, m, d), 'normal', entry(B, x), lambda *i: sg)
    if labels:
        b = B.ensure_law('law of the labels', zl, (n, m, l), 'normal', entry(B, y), lambda *i: sg)
        B.ensure_apart('data and labels are independent', a, b)
    else:
        B.ensure('no labels', zl is None)
    own = Own(s, labels)
    B.ensure('a sampler given is kept', own.sampler is s)


@contract('C07', paths=1500)
def cost_density(B):
    C = B.repo('skwdro.base.costs_torch')
    SM = B.repo('skwdro.base.samplers.torch.cost_samplers')
    p, power, law = B.choice('law', LAWS)
    kind = B.choice('cost', ['norm', 'label', 'infinite'])
    kappa = B.real('kappa', gt=0)
    cost = {'norm': lambda: C.NormCost(p=p, power=power), 'label': lambda: C.NormLabelCost(p=p, power=power, kappa=kappa),
            'infinite': lambda: C.NormLabelCost(p=p, power=power, kappa=math.inf)}[kind]()
    arg, sg = spread(B)
    d = B.dim('d')
    labels = B.choice('labels', [False, True])
    l = B.dim('l') if labels else None
    s, m, xi, y = centred(B, d, l, lambda x, y: SM.LabeledCostSampler(cost, x, y, arg, seed_of(B)) if labels
                          else SM.NoLabelsCostSampler(cost, x, arg, seed_of(B)))
    n = B.dim('n')
    z = B.tensor('z', (n, m, d))
    data = lambda j, i: B.sum(d, lambda k: log_law(B, law, B.at(z, j, i, k), B.at(xi, i, k), sg))
    if not labels:
        B.ensure_tensor('density of the data', s.log_prob(z, None), (n, m, 1), lambda j, i, _: data(j, i))
        return
    if kind == 'label':
        zl = B.tensor('zl', (n, m, l))
        sl = B.div(sg, kappa) if power == 1 else sg
        lab = lambda j, i: B.sum(l, lambda k: log_law(B, law, B.at(zl, j, i, k), B.at(y, i, k), sl))
    else:
        zl = y.expand(n, -1, -1)
        lab = lambda j, i: 0.
    B.ensure_tensor('joint density', s.log_prob(z, zl), (n, m, 1), lambda j, i, _: data(j, i) + lab(j, i))


@contract('C07')
def moved_labels_have_no_density(B):
    """pinned labels: any other label has density zero"""
    C = B.repo('skwdro.base.costs_torch')
    SM = B.repo('skwdro.base.samplers.torch.cost_samplers')
    kind = B.choice('cost', ['norm', 'infinite'])
    cost = C.NormCost(p=2., power=2.) if kind == 'norm' else C.NormLabelCost(p=2., power=2., kappa=math.inf)
    arg, sg = spread(B)
    m, d, l, n = B.dim('m'), B.dim('d'), B.dim('l'), B.dim('n')
    xi, y = B.tensor('xi', (m, d)), B.tensor('y', (m, l))
    s = SM.LabeledCostSampler(cost, xi, y, arg, seed_of(B))
    z, zl = B.tensor('z', (n, m, d)), B.tensor('zl', (n, m, l))
    j, i, k = B.index('j', n), B.index('i', m), B.index('k', l)
    B.assume(B.neg(B.eq(B.at(zl, j, i, k), B.at(y, i, k))))
    lp = s.log_prob(z, zl)
    B.ensure_eq('minus infinity at the moved label', B.at(lp, j, i, 0), -B.inf)


@contract('C07')
def laws_without_sampler_refused(B):
    C = B.repo('skwdro.base.costs_torch')
    p, power = B.choice('pair', [(1., 2.), (math.inf, 2.), (3., 1.), (3., 2.), (2., 3.), (1., 3.)])
    m, d = B.dim('m'), B.dim('d')
    xi = B.tensor('xi', (m, d))
    what = B.choice('what', ['data', 'label data', 'labels'])
    sg = B.real('sigma', gt=0)
    f = {'data': lambda: C.NormCost(p=p, power=power)._sampler_data(xi, sg),
         'label data': lambda: C.NormLabelCost(p=p, power=power, kappa=B.real('kappa', gt=0))._sampler_data(xi, sg),
         'labels': lambda: C.NormLabelCost(p=p, power=power, kappa=B.real('kappa', gt=0))._sampler_labels(xi, sg)}[what]
    B.ensure('refused', B.raises(f) is not None)


def spread_matrix(B, d, tag=''):
    """keyword arguments and the mixing matrix (None: scalar), scalar"""
    how = B.choice('spread' + tag, ['sigma', 'tensor', 'tril', 'cov', 'prec'])
    if how in ('sigma', 'tensor'):
        s = B.real('sigma' + tag, gt=0)
        return {'sigma': s if how == 'sigma' else B.pt.tensor(s)}, None, s
    M = B.tril('M' + tag, d) if how == 'tril' else B.spd('M' + tag, d)
    if how == 'tril':
        return {'tril': M}, M, None
    kw = {'cov': 'covariance_matrix', 'prec': 'precision_matrix'}[how]
    L = B.pt.distributions.MultivariateNormal(B.pt.zeros(d), **{kw: M}).scale_tril
    return {how: M}, L, None


def check_normal(B, label, z, shape, centre, L, sg, law='normal'):
    if L is None:
        return B.ensure_law(label, z, shape, law, entry(B, centre), lambda *i: sg)
    return B.ensure_law(label, z, shape, law, entry(B, centre), mix=lambda j, i, k, c: B.at(L, k, c))


@contract('C07', n=24, paths=1500)
def unlabelled_families(B):
    S = B.repo('skwdro.base.samplers.torch')
    name = B.choice('family', ['NewsVendorNormalSampler', 'PortfolioNormalSampler'])
    d = B.dim('d')
    kw, L, sg = spread_matrix(B, d)
    s, m, xi, _ = centred(B, d, None, lambda x, y: getattr(S, name)(x, seed=seed_of(B), **kw))
    n = B.many('n')
    z, zl = s.sample(n)
    B.ensure('no labels', zl is None)
    check_normal(B, 'law of the samples', z, (n, m, d), xi, L, sg)
    v = B.tensor('v', (1, m, d))
    ref = B.pt.distributions.MultivariateNormal(xi, scale_tril=L if L is not None else B.pt.eye(d) * sg)
    want = ref.log_prob(v)
    B.ensure_tensor('density', s.log_prob(v, None), (1, m, 1), lambda j, i, _: B.at(want, j, i))


@contract('C07', n=12, paths=1500)
def laplace_family_centre(B):
    """only centre and independence: see laplace_family for its law"""
    S = B.repo('skwdro.base.samplers.torch')
    d = B.dim('d')
    kw, L, sg = spread_matrix(B, d)
    s, m, xi, _ = centred(B, d, None, lambda x, y: S.PortfolioLaplaceSampler(x, seed=seed_of(B), **kw))
    n = B.many('n')
    z, zl = s.sample(n)
    B.ensure('no labels', zl is None)
    check_normal(B, 'centre of the samples', z, (n, m, d), xi, L, sg, law=('normal', 'laplace'))


@contract('C07', n=6)
def laplace_family(B):
    S = B.repo('skwdro.base.samplers.torch')
    m, d, n = B.dim('m'), B.dim('d'), B.many('n')
    xi, sg = B.tensor('xi', (m, d)), B.real('sigma', gt=0)
    z, _ = S.PortfolioLaplaceSampler(xi, sigma=sg).sample(n)
    B.ensure_law('law of the samples', z, (n, m, d), 'laplace', entry(B, xi), lambda *i: B.div(sg, B.sqrt(2.)))


@contract('C07', n=24, paths=2500)
def normal_normal(B):
    S = B.repo('skwdro.base.samplers.torch')
    d, l = B.dim('d'), B.dim('l')
    kw, L, sg = spread_matrix(B, d)
    lkw, LL, lsg = spread_matrix(B, l, ' labels')
    kw.update({'l_' + k: v for k, v in lkw.items()})
    s, m, xi, y = centred(B, d, l, lambda x, y: S.ClassificationNormalNormalSampler(x, y, seed=seed_of(B), **kw))
    n = B.many('n')
    z, zl = s.sample(n)
    a = check_normal(B, 'law of the data', z, (n, m, d), xi, L, sg)
    b = check_normal(B, 'law of the labels', zl, (n, m, l), y, LL, lsg)
    B.ensure_apart('data and labels are independent', a, b)


@contract('C07', n=12, paths=1500)
def normal_pinned(B):
    S = B.repo('skwdro.base.samplers.torch')
    d, l = B.dim('d'), B.dim('l')
    kw, L, sg = spread_matrix(B, d)
    s, m, xi, y = centred(B, d, l, lambda x, y: S.ClassificationNormalIdSampler(x, y, seed=seed_of(B), **kw))
    n = B.many('n')
    z, zl = s.sample(n)
    check_normal(B, 'law of the data', z, (n, m, d), xi, L, sg)
    B.ensure_tensor('labels are pinned', zl, (n, m, l), entry(B, y))


@contract('C07', n=12, paths=1500)
def normal_flip(B):
    S = B.repo('skwdro.base.samplers.torch')
    d, l = B.dim('d'), B.dim('l')
    kw, L, sg = spread_matrix(B, d)
    p = B.real('p', gt=0, lt=1)
    B.assume(B.symbolic or .04 < p < .96)     # frequencies of rarer flips say little
    s, m, xi, y = centred(B, d, l, lambda x, y: S.ClassificationNormalBernouilliSampler(p, x, y, seed=seed_of(B), **kw))
    n = B.many('n')
    z, zl = s.sample(n)
    a = check_normal(B, 'law of the data', z, (n, m, d), xi, L, sg)
    b = B.ensure_law('labels kept with probability p', zl, (n, m, l), 'flip', entry(B, y), p=p)


@contract('C07', paths=1500)
def family_density(B):
    S = B.repo('skwdro.base.samplers.torch')
    d, l, n = B.dim('d'), B.dim('l'), B.dim('n')
    kw, L, sg = spread_matrix(B, d)
    pinned = B.choice('labels', ['pinned', 'normal'])
    if pinned == 'pinned':
        s, m, xi, y = centred(B, d, l, lambda x, y: S.ClassificationNormalIdSampler(x, y, seed=seed_of(B), **kw))
    else:
        lsg = B.real('lsigma', gt=0)
        s, m, xi, y = centred(B, d, l, lambda x, y: S.ClassificationNormalNormalSampler(x, y, seed=seed_of(B), l_sigma=lsg, **kw))
    z = B.tensor('z', (n, m, d))
    zl = y.expand(n, -1, -1) if pinned == 'pinned' else B.tensor('zl', (n, m, l))
    MVN = B.pt.distributions.MultivariateNormal
    want = MVN(xi, scale_tril=L if L is not None else B.pt.eye(d) * sg).log_prob(z)
    lab = None if pinned == 'pinned' else MVN(y, scale_tril=B.pt.eye(l) * lsg).log_prob(zl)
    B.ensure_tensor('joint density', s.log_prob(z, zl), (n, m, 1),
                    lambda j, i, _: B.at(want, j, i) + (B.at(lab, j, i) if lab is not None else 0.))


@contract('C07')
def no_spread_refused(B):
    S = B.repo('skwdro.base.samplers.torch')
    m, d, l = B.dim('m'), B.dim('d'), B.dim('l')
    xi, y = B.tensor('xi', (m, d)), B.tensor('y', (m, l))
    f = B.choice('family', [lambda: S.NewsVendorNormalSampler(xi), lambda: S.PortfolioNormalSampler(xi),
                            lambda: S.ClassificationNormalIdSampler(xi, y, seed=None),
                            lambda: S.ClassificationNormalNormalSampler(xi, y, sigma=1.),
                            lambda: S.ClassificationNormalBernouilliSampler(.5, xi, y, seed=None)])
    B.ensure('a spread is required', B.raises(f) is not None)


@contract('C07')
def flip_probability_checked(B):
    S = B.repo('skwdro.base.samplers.torch')
    m, d, l = B.dim('m'), B.dim('d'), B.dim('l')
    p = B.real('p', gt=1) if B.choice('side', [True, False]) else B.real('p', lt=0)
    B.ensure('refused', B.raises(lambda: S.ClassificationNormalBernouilliSampler(
        p, B.tensor('xi', (m, d)), B.tensor('y', (m, l)), sigma=1., seed=None)) is not None)


@contract('C07')
def recentring_is_reconstruction(B):
    """after re-centring the object is the one construction at that batch gives,
    so any sequence of re-centrings reduces to the cases above"""
    C = B.repo('skwdro.base.costs_torch')
    SM = B.repo('skwdro.base.samplers.torch')
    CS = B.repo('skwdro.base.samplers.torch.cost_samplers')
    d, l = B.dim('d'), B.dim('l')
    sg, kappa, lsg = B.real('sigma', gt=0), B.real('kappa', gt=0), B.real('lsigma', gt=0)
    p, power, law = B.choice('law', LAWS)
    seed = seed_of(B)
    cost = C.NormLabelCost(p=p, power=power, kappa=kappa)
    L = B.tril('M', d)
    f = B.choice('family', [
        lambda x, y: CS.NoLabelsCostSampler(cost, x, sg, seed), lambda x, y: CS.LabeledCostSampler(cost, x, y, sg, seed),
        lambda x, y: SM.NewsVendorNormalSampler(x, tril=L, seed=seed), lambda x, y: SM.PortfolioNormalSampler(x, tril=L, seed=seed),
        lambda x, y: SM.PortfolioLaplaceSampler(x, tril=L, seed=seed),
        lambda x, y: SM.ClassificationNormalNormalSampler(x, y, tril=L, l_tril=B.pt.eye(l) * lsg, seed=seed),
        lambda x, y: SM.ClassificationNormalIdSampler(x, y, tril=L, seed=seed),
        lambda x, y: SM.ClassificationNormalBernouilliSampler(.25, x, y, tril=L, seed=seed)])
    m, m1 = B.dim('m'), B.dim('m1')
    s = f(B.tensor('xi', (m, d)), B.tensor('y', (m, l)))
    x1, y1 = B.tensor('xi1', (m1, d)), B.tensor('y1', (m1, l))
    s.reset_mean(x1, y1)
    B.same_state('state after re-centring', s, f(x1, y1))


@contract('C07')
def next_is_one_sample(B):
    SM = B.repo('skwdro.base.samplers.torch.cost_samplers')
    C = B.repo('skwdro.base.costs_torch')
    m, d = B.dim('m'), B.dim('d')
    xi = B.tensor('xi', (m, d))
    s = SM.NoLabelsCostSampler(C.NormCost(2., 2.), xi, B.real('sigma', gt=0))
    z, zl = next(iter(s))
    B.ensure_shape('one draw', z, (1, m, d))
    B.ensure('no labels', zl is None)


@contract('C07', n=10)
def flip_density(B):
    """probability of a kept or flipped label"""
    S = B.repo('skwdro.base.samplers.torch')
    m, d = B.dim('m'), B.dim('d')
    xi, y = B.tensor('xi', (m, d)), B.sign_tensor('y', (m, 1))
    sg, p = B.real('sigma', gt=0), B.real('p', gt=0, lt=1)
    s = S.ClassificationNormalBernouilliSampler(p, xi, y, sigma=sg, seed=None)
    keep = B.choice('kept', [True, False])
    z = B.tensor('z', (1, m, d))
    zl = (y if keep else -y).expand(1, -1, -1)
    want = B.pt.distributions.MultivariateNormal(xi, scale_tril=B.pt.eye(d) * sg).log_prob(z)
    B.ensure_tensor('joint density', s.log_prob(z, zl), (1, m, 1),
                    lambda j, i, _: B.at(want, j, i) + B.log(p if keep else 1. - p))
