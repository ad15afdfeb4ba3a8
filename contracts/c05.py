"""C05: importance sampling never changes what is being estimated."""
from engine.api import contract
from .common import Robust, Squared, rows, sampler_for

CLIP = 1e10


class Biased:
    """a robust loss with importance sampling, and its displacement"""

    def __init__(self, B, post, **kw):
        self.B = B
        self.r = r = Robust(B, post, B.real('rho', gt=0), usual=True, imp_samp=True, sampler=sampler_for(B),
                            lam=B.tensor('lambda', (), nn=True, live=True), **kw)
        self.moves = r.c.kind == 'weighted'
        w = r.w

        def loss(x, *y):
            return w.at(x, *y)
        self.loss = loss

    def grads(self, i, pos):
        r, B = self.r, self.B
        rs = [(r.d, rows(B, r.x, i))] + ([(r.l, rows(B, r.y, i))] if r.w.labels else [])
        return B.derivative(self.loss, pos, *rs)

    def size(self, i, pos):
        v, _ = self.grads(i, pos)
        return self.B.norm(2, self.r.l if pos else self.r.d, v)

    def usable(self):
        """the displacement is finite everywhere"""
        r, B = self.r, self.B
        c = [B.neg(B.eq(B.frozen(r.lam), 0.))]
        if self.moves:
            c.append(B.lt(0., r.c.kappa))
        for pos, n in [(0, r.d)] + ([(1, r.l)] if r.w.labels else []):
            c.append(B.forall(r.m, lambda i: B.both(B.neg(B.eq(self.size(i, pos), 0.)), B.forall(n, self.grads(i, pos)[1]))))
        return B.both(*c)

    def shift(self, i, k, pos=0):
        """displacement of coordinate k of data point i"""
        B, r = self.B, self.r
        if pos and not self.moves:
            return 0.
        v, _ = self.grads(i, pos)
        s = self.size(i, pos)
        out = B.div(B.div(.5 * v(k), s) * B.min2(CLIP, s), B.frozen(r.lam))
        return B.div(out, r.c.kappa) if pos else out

    def weight(self, j, i):
        """log of the density ratio of sample j of data point i"""
        B, r = self.B, self.r

        def lp(n, x, z, pos):
            """centred at x minus centred at the displaced x, at the displaced sample"""
            def t(k):
                s = self.shift(i, k, pos)
                a, b = z(k) + s - x(k), z(k) - x(k)
                return (b * b - a * a) / (2 * r.sigma * r.sigma)
            return B.sum(n, t)
        s = r.sampler
        out = lp(r.d, rows(B, r.x, i), rows(B, s.x, j, i), 0)
        if self.moves:
            out = out + lp(r.l, rows(B, r.y, i), rows(B, s.y, j, i), 1)
        return out

    def value(self, i):
        B, r = self.B, self.r
        s = r.sampler

        def score(j):
            z = lambda k: B.at(s.x, j, i, k) + self.shift(i, k)
            zy = (lambda k: B.at(s.y, j, i, k) + self.shift(i, k, 1)) if r.w.labels else None
            c = r.c.at(r.d, rows(B, r.x, i), z, r.l, rows(B, r.y, i), zy)
            return (r.w.at(z, zy) - r.lam * c) / r.eps + self.weight(j, i)
        return r.eps * (B.lse(r.n, score) - B.log(r.n))


def fixed_displacement(B, r):
    """run-time check of the gradient at given displaced samples"""
    if not hasattr(r.dual, 'displace_samples'):
        return
    moved = r.dual.displace_samples(r.x, r.y, r.sampler.x, r.sampler.y)
    used = []
    r.dual.displace_samples = lambda *a: used.append(1) or moved
    f = lambda: r.dual(r.x, r.y) if r.post else r.dual(r.x, r.y, r.sampler.x, r.sampler.y)
    f()
    if used:
        B.gradient('gradient', f, r.dual)
    del r.dual.displace_samples


@contract('C05', paths=4000)
def corrected_loss(B):
    post = B.choice('post', [True, False])
    b = Biased(B, post, reductions=('none', 'mean'))
    r = b.r
    ok = B.branch(b.usable())
    s = r.sampler
    out = r.dual(r.x, r.y) if post else r.dual(r.x, r.y, s.x, s.y)
    if not B.symbolic:
        fixed_displacement(B, r)
    r.ensure_aggregated('displaced and corrected' if ok else 'as drawn', out, b.value if ok else r.dual_at, r.lam * r.rho * r.rho, grad=True)


@contract('C05', paths=1000)
def builtin_loss(B):
    post = B.choice('post', [True, False])
    b = Biased(B, post, reductions=('none',), parts=Squared(B))
    r = b.r
    ok = B.branch(b.usable())
    out = r.dual(r.x, r.y) if post else r.dual(r.x, r.y, r.sampler.x, r.sampler.y)
    r.ensure_aggregated('displaced and corrected' if ok else 'as drawn', out, b.value if ok else r.dual_at, r.lam * r.rho * r.rho, grad=True)


def steeper(w, factor):
    """multiply the user's loss, so that run-time checks meet long gradients"""
    forward, value = w.user_loss.forward, w.l_value
    w.user_loss.forward = lambda *a: factor * forward(*a)
    w.l_value = lambda c, *rows: factor * value(c, *rows)


@contract('C05', paths=4000)
def displacement(B):
    b = Biased(B, B.choice('post', [True, False]), reductions=('mean',))
    r = b.r
    if not B.symbolic and B.choice('steep', [False, True]):
        steeper(r.w, 1e12)
    ok = B.branch(b.usable())
    s = r.sampler
    x1, y1, z1, w1 = r.dual.displace_samples(r.x, r.y, s.x, s.y)
    sh = (lambda i, k, pos=0: b.shift(i, k, pos)) if ok else (lambda i, k, pos=0: 0.)
    B.ensure_tensor('data moved', x1, (1, r.m, r.d), lambda _, i, k: B.at(r.x, i, k) + sh(i, k))
    B.ensure_tensor('samples moved alike', z1, (r.n, r.m, r.d), lambda j, i, k: B.at(s.x, j, i, k) + sh(i, k))
    if r.w.labels:
        B.ensure_tensor('labels moved', y1, (1, r.m, r.l), lambda _, i, k: B.at(r.y, i, k) + sh(i, k, 1))
        B.ensure_tensor('sampled labels moved alike', w1, (r.n, r.m, r.l), lambda j, i, k: B.at(s.y, j, i, k) + sh(i, k, 1))
    else:
        B.ensure('no labels', y1 is None and w1 is None)


@contract('C05')
def density_at_another_centre(B):
    """log-density of the reference law moved to another centre"""
    S = B.repo('skwdro.base.samplers.torch.cost_samplers')
    C = B.repo('skwdro.base.costs_torch')
    kind = B.choice('labels', ['none', 'fixed', 'weighted', 'infinite'])
    m, d, n = B.dim('m'), B.dim('d'), B.dim('n')
    sigma = B.real('sigma', gt=0)
    x, z = B.tensor('x', (m, d)), B.tensor('zeta', (n, m, d))
    c = B.tensor('centre', (1, m, d))

    def ratio(z, x, c, k):
        """difference of log-densities, recentred minus reference"""
        return (B.pow(z - x, 2) - B.pow(z - c, 2)) / (2 * sigma * sigma)
    if kind == 'none':
        s = S.NoLabelsCostSampler(C.NormCost(2., 2.), x, B.pt.tensor(sigma), 3)
        diff = s.log_prob_recentered(c, None, z, None) - s.log_prob(z, None)
        B.ensure_tensor('recentred density', diff, (n, m, 1),
                        lambda j, i, _: B.sum(d, lambda k: ratio(B.at(z, j, i, k), B.at(x, i, k), B.at(c, 0, i, k), k)))
        return
    l = B.dim('l')
    y = B.tensor('y', (m, l))
    cost = {'fixed': lambda: C.NormCost(2., 2.), 'weighted': lambda: C.NormLabelCost(2., 2., B.real('kappa', lo=0)),
            'infinite': lambda: C.NormLabelCost(2., 2., B.inf)}[kind]()
    s = S.LabeledCostSampler(cost, x, y, B.pt.tensor(sigma), 3)
    if kind == 'weighted':
        w, e = B.tensor('zeta labels', (n, m, l)), B.tensor('label centre', (1, m, l))
    else:
        w, e = y.unsqueeze(0).expand(n, -1, -1), y.unsqueeze(0)
    diff = s.log_prob_recentered(c, e, z, w) - s.log_prob(z, w)

    def spec(j, i, _):
        v = B.sum(d, lambda k: ratio(B.at(z, j, i, k), B.at(x, i, k), B.at(c, 0, i, k), k))
        if kind == 'weighted':
            v = v + B.sum(l, lambda k: ratio(B.at(w, j, i, k), B.at(y, i, k), B.at(e, 0, i, k), k))
        return v
    B.ensure_tensor('recentred density', diff, (n, m, 1), spec)


@contract('C05', paths=2000)
def only_with_squared_euclidean_costs(B):
    """gating in the robustified problem"""
    W = B.repo('skwdro.wrap_problem')
    D = B.repo('skwdro.base.cost_decoder')
    labels = B.choice('labels', [True, False])
    power, pt = B.numeral('power', ['1', '2'], gt=0)
    kind, kt = B.numeral('type', ['1', '2', 'inf'], lo=1)
    code = f't-{"NLC" if labels else "NC"}-{kt}-{pt}'
    if labels:
        k = B.choice('kappa', [None, 'inf', '0', '3.5'])
        code += '' if k is None else '-' + k
    parsed = D.parse_code_torch(code, labels)
    asked = B.choice('asked', [True, False])
    got = W.decide_on_impsamp(asked, parsed)
    squared = B.both(B.eq(kind, 2.), B.eq(power, 2.))
    B.ensure('active exactly when asked for and allowed', B.iff(got, squared if asked else False))


@contract('C05')
def other_costs_refuse(B):
    """a displacement is never made up for other costs"""
    C = B.repo('skwdro.base.costs_torch')
    m, d, l = B.dim('m'), B.dim('d'), B.dim('l')
    p, power = B.choice('p', [1., 2., B.inf, 3.]), B.choice('power', [1., 2., 3.])
    B.assume(not (p == 2 and power == 2))
    lab = B.choice('labels', [True, False])
    c = C.NormLabelCost(p, power, B.real('kappa', gt=0)) if lab and B.choice('labels cost', [True, False]) else C.NormCost(p, power)
    x, g = B.tensor('x', (1, m, d)), B.tensor('g', (1, m, d))
    y, h = (B.tensor('y', (1, m, l)), B.tensor('h', (1, m, l))) if lab else (None, None)
    B.ensure('refused', B.raises(lambda: c.solve_max_series_exp(x, y, g, h)) is not None)
