"""C11: robustifying a loss uses exactly the settings the user gave."""
import math
from engine.api import contract
from .common import Wrapped, rows

CODES = [None, 't-NC-2-2', 't-NC-1-1', 't-NC-1-2', 't-NC-1-inf', 'NC-2-2']
LABEL_CODES = [None, 't-NC-2-2', 't-NLC-2-2', 't-NLC-2-2-0', 't-NLC-1-1-3.5', 't-NLC-1-2-inf', 't-NLC-2-2-2', 'NLC-2-2']


def robustified(B, rho, codes=None, models=('none', 'model'), kinds=('module', 'function'), reg=False, reduces=(True,), labels=(False, True), **given):
    """(wrapped loss, robust loss, data, labels, cost code, number of samples)"""
    W = B.repo('skwdro.wrap_problem')
    post = B.choice('post', [True, False])
    out = {}

    def build(lo, t, l2):
        w = out['w']
        # a robust loss needs something to optimise
        B.assume(t is not None or isinstance(lo, B.pt.nn.Module))
        m = B.dim('m')
        x = B.tensor('x', (m, w.d))
        y = B.tensor('y', (m, w.l)) if w.labels else None
        code = B.choice('cost', codes or (LABEL_CODES if w.labels else CODES))
        kw = dict(given)
        if code is not None:
            kw['cost_spec'] = code
        n = B.many('n') if kw.pop('laws', False) else B.dim('n')
        kw['n_samples'] = n
        if l2 is not None:
            kw['l2reg'] = l2
        if not w.spatial:
            kw['loss_reduces_spatial_dims'] = True
        dual = W.dualize_primal_loss(lo, t, B.pt.tensor(rho), x, y, post, **kw)
        out.update(dual=dual, x=x, y=y, m=m, n=n, code=code, post=post)
        return dual.primal_loss

    class W2(Wrapped):
        def __init__(self, *a, **k):
            out['w'] = self
            super().__init__(*a, **k)
    W2(B, models=models, kinds=kinds, reg=reg, reduces=reduces, labels=labels, build=build)
    return out


def spec_of(code, labels):
    """(power, norm, kappa or None when labels do not count)"""
    if code is None:
        return 2., 2., 1e8 if labels else None
    f = code.split('-')
    if f[0] == 't':
        f = f[1:]
    power, p = float(f[1]), float(f[2])
    kappa = None if f[0] == 'NC' else float(f[3]) if len(f) > 3 else 1e8
    return power, p, kappa


@contract('C11', paths=4000)
def spread_and_epsilon(B):
    """the rule for the two defaults"""
    W = B.repo('skwdro.wrap_problem')
    sign = B.choice('radius', ['positive', 'zero'])
    rho = B.real('rho', gt=0, wide=True) if sign == 'positive' else 0.
    p = B.choice('p', [1., 2., None])
    p = B.real('p', lo=1) if p is None else p
    eps, sigma = B.choice('epsilon', [None, 0.]), B.choice('sigma', [None, 0.])
    eps = B.real('epsilon', gt=0, wide=True) if eps == 0. else eps
    sigma = B.real('sigma', gt=0, wide=True) if sigma == 0. else sigma
    s, e = W.expert_hyperparams(B.pt.tensor(rho), p, eps, W.EPSILON_SIGMA_FACTOR, sigma, W.SIGMA_FACTOR)
    B.ensure_eq('spread', s, sigma if sigma is not None else .5 * rho if sign == 'positive' else .5, atol=0.)
    B.ensure_eq('epsilon', e, eps if eps is not None else B.max2(.01 * B.pow(.5, p) * B.pow(rho, p - 1), 1e-7), atol=0.)


@contract('C11', paths=6000)
def given_settings(B):
    """numbers, reduction, budget, learning rate"""
    what = B.choice('settings', ['given', 'left out'])
    rho = B.real('rho', gt=0, wide=True)
    kw = {}
    if what == 'given':
        kw = dict(seed=B.choice('seed', [0, 7]), reduction=B.choice('reduction', ['mean', 'sum', 'none']), epsilon=B.real('epsilon', gt=0, wide=True),
                  sigma=B.real('sigma', gt=0, wide=True), n_iter=B.choice('n_iter', [5, (2, 3), (0, 1)]), learning_rate=B.real('lr', gt=0, wide=True),
                  adapt=None, imp_samp=B.choice('imp_samp', [True, False]))
    o = robustified(B, rho, kinds=('module',), models=('none',), **kw)
    d, post = o['dual'], o['post']
    power, p, kappa = spec_of(o['code'], o['y'] is not None)
    B.ensure_eq('radius', d.rho, rho, atol=0.)
    B.ensure('number of samples', B.eq(d.n_samples, o['n']))
    B.ensure('reduction', d.reduction == kw.get('reduction', 'mean'))
    B.ensure_eq('epsilon', d.epsilon, kw.get('epsilon', B.max2(.01 * B.pow(.5, power) * B.pow(rho, power - 1), 1e-7)), atol=0.)
    B.ensure('step budget', d.n_iter == kw.get('n_iter', (200, 2800) if post else (100, 10)))
    B.ensure('importance sampling', bool(d.imp_samp) == (kw.get('imp_samp', True) and power == 2 and p == 2))
    if 'learning_rate' in kw:
        B.ensure_eq('learning rate', d.optimizer.param_groups[0]['lr'], kw['learning_rate'], atol=0.)
    B.ensure('kind', isinstance(d, getattr(B.repo('skwdro.solvers.oracle_torch'), 'DualPostSampledLoss' if post else 'DualPreSampledLoss')))


@contract('C11', n=12, paths=2000)
def spread_of_the_samples(B):
    given = B.choice('sigma', [False, True])
    rho = B.real('rho', gt=0)
    kw = dict(sigma=B.real('sigma', gt=0)) if given else {}
    o = robustified(B, rho, kinds=('module',), models=('none',), laws=True, **kw)
    power, p, kappa = spec_of(o['code'], o['y'] is not None)
    d = o['dual']
    sg = kw.get('sigma', .5 * rho)
    z, zl = d.generate_zetas()
    w = o['w']
    law = 'laplace' if p == 1 else 'normal'
    B.ensure_law('data', z, (o['n'], o['m'], w.d), law, lambda j, i, k: B.at(o['x'], i, k), lambda *i: sg)
    if not w.labels:
        B.ensure('no labels', zl is None)
    elif kappa is None or kappa == math.inf:
        B.ensure_tensor('labels are pinned', zl, (o['n'], o['m'], w.l), lambda j, i, k: B.at(o['y'], i, k))
    elif kappa > 0:
        B.ensure_law('labels', zl, (o['n'], o['m'], w.l), law, lambda j, i, k: B.at(o['y'], i, k), lambda *i: sg / kappa if power == 1 else sg)


@contract('C11', paths=2000)
def seed(B):
    """the samples are those of the reference sampler with the given seed"""
    S = B.repo('skwdro.base.samplers.torch.cost_samplers')
    rho, sigma = B.real('rho', gt=0), B.real('sigma', gt=0)
    kw = {}
    s = B.choice('seed', [None, 0, 7])
    if s is not None:
        kw['seed'] = s
    o = robustified(B, rho, kinds=('module',), models=('none',), sigma=sigma, **kw)
    z, zl = o['dual'].generate_zetas()
    ref = S.LabeledCostSampler(o['dual'].cost, o['x'], o['y'], B.pt.tensor(sigma), 42 if s is None else s) if o['w'].labels \
        else S.NoLabelsCostSampler(o['dual'].cost, o['x'], B.pt.tensor(sigma), 42 if s is None else s)
    r, rl = ref.sample(o['n'])
    B.ensure_tensor('data', z, r.shape, lambda *i: B.at(r, *i))
    if o['w'].labels:
        B.ensure_tensor('labels', zl, rl.shape, lambda *i: B.at(rl, *i))


@contract('C11', paths=4000)
def loss_and_regularisation(B):
    o = robustified(B, B.real('rho', gt=0), reg=True, reduces=(True, False), codes=[None])
    w, x, y = o['w'], o['x'], o['y']
    v = o['dual'].primal_loss.value(x, y)
    B.ensure_tensor('penalised loss', v.reshape(-1), (o['m'],), lambda i: w.at(rows(B, x, i), rows(B, y, i)))


@contract('C11', paths=4000)
def cost(B):
    o = robustified(B, B.real('rho', gt=0), kinds=('module',), models=('none',))
    w, m = o['w'], o['m']
    power, p, kappa = spec_of(o['code'], w.labels)
    n = o['n']
    z = B.tensor('z', (n, m, w.d))
    zl = B.tensor('zl', (n, m, w.l)) if w.labels else None
    c = o['dual'].cost(o['x'].unsqueeze(0), z, o['y'].unsqueeze(0) if w.labels else None, zl)

    def spec(j, i, _):
        dx = B.norm(p, w.d, lambda k: B.at(o['x'], i, k) - B.at(z, j, i, k))
        if kappa is not None and w.labels:
            dy = B.norm(p, w.l, lambda k: B.at(o['y'], i, k) - B.at(zl, j, i, k))
            dx = dy if kappa == math.inf else (dx + kappa * dy) / (1. + kappa)
        return B.pow(dx, power)
    B.ensure_tensor('cost', c, (n, m, 1), spec)
