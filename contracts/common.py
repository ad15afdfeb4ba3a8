"""User losses and models as arbitrary functions of single samples."""


def user_module(B, name, out, width, reduction=None, frozen=False):
    """a torch module with `width` parameters applying an arbitrary function
    row by row; out: number of outputs per row (None: one, without a dimension)"""
    fn = B.rowfn(name)

    class User(B.pt.nn.Module):
        def __init__(self):
            super().__init__()
            self.reduction = reduction
            self.weight = B.param(name + '.w', (width,), live=True) if width is not None else None

        def forward(self, *ts):
            return fn.tensor(out, *ts, params=self.weight)
    m = User()
    w = B.snapshot(m.weight) if width is not None else None

    def value(c, *rows):
        """the same function at one sample; rows: (n, f)"""
        extra = [(width, lambda k: B.at(w, k))] if width is not None else []
        return fn.value(c, *rows, *extra)
    m_value = value
    return m, m_value, w


def user_function(B, name, out, seen=None):
    """a plain function loss(prediction[, target], reduction='none')"""
    fn = B.rowfn(name)

    def loss(*ts, reduction='mean'):
        if reduction == 'none':
            return fn.tensor(out, *ts)
        return fn.tensor(out, *ts).mean()
    return loss, (lambda c, *rows: fn.value(c, *rows))


def squares(B, ws):
    """sum of squares of all entries of rank-1 tensors (width, tensor)"""
    s = 0.
    for n, w in ws:
        s = s + B.sum(n, lambda k: B.at(w, k) * B.at(w, k))
    return s


class Wrapped:
    """a wrapped loss over arbitrary user parts, and its value at one sample"""

    def __init__(self, B, sampler=None, models=('none', 'model'), kinds=('module', 'function'), reg=True, labels=(False, True),
                 reduces=(True, False), l2=None, build=None):
        L = B.repo('skwdro.base.losses_torch.wrapper')
        self.B = B
        self.labels = B.choice('labels', list(labels))
        kind = B.choice('loss kind', list(kinds))
        self.spatial = B.choice('reduce dims', list(reduces))
        model = B.choice('model', list(models))
        self.d = B.dim('d')
        self.l = B.dim('l') if self.labels else None
        self.r = B.dim('r') if self.spatial else None
        self.h = B.dim('h') if model == 'model' else self.d
        ws = []
        if model == 'model':
            t, self.t_value, w = user_module(B, 'user model', self.h, B.dim('tw'))
            ws.append((w.shape[0], w))
        else:
            t, self.t_value = None, None
        if kind == 'module':
            lo, self.l_value, w = user_module(B, 'user loss', self.r, B.dim('lw'), reduction='none')
            ws.insert(0, (w.shape[0], w))
        else:
            lo, self.l_value = user_function(B, 'user loss', self.r)
        self.l2 = None
        if reg and ws:
            how = B.choice('l2reg', ['none', 'zero', 'positive', 'negative'])
            if how == 'zero':
                self.l2 = 0.
            elif how == 'positive':
                self.l2 = B.real('l2reg', gt=0)
            elif how == 'negative':
                self.l2 = B.real('l2reg', lt=0)
            positive = how == 'positive'
        else:
            positive = False
        self.user_loss, self.user_model = lo, t
        self.pen = .5 * self.l2 * squares(B, ws) if positive else 0.
        self.ws = ws
        if build:
            self.loss = build(lo, t, self.l2)
            return
        kw = {}
        if self.l2 is not None:
            kw['l2reg'] = self.l2
        if not self.spatial:
            kw['reduce_spatial_dims'] = False
        self.loss = L.WrappedPrimalLoss(lo, t, sampler, self.labels, **kw)

    def at(self, x, y=None):
        """documented value at one sample: x, y functions of a coordinate"""
        B = self.B
        row = (self.d, x)
        if self.t_value is not None:
            row = (self.h, lambda c: self.t_value(c, (self.d, x)))
        rows = [row] + ([(self.l, y)] if self.labels else [])
        if self.spatial:
            return B.mean(self.r, lambda c: self.l_value(c, *rows)) + self.pen
        return self.l_value(0, *rows) + self.pen


class Squared:
    """the library's squared error, and its value at one sample"""
    labels, l = True, 1

    def __init__(self, B):
        self.B, self.d = B, B.dim('d')
        self.loss = B.repo('skwdro.base.losses_torch').QuadraticLoss(Given(B, 1, self.d, 1), d=self.d, fit_intercept=True)
        self.weight, self.bias = self.loss.linear.weight, self.loss.linear.bias
        with B.pt.no_grad():
            self.weight.copy_(B.tensor('weight', (1, self.d), live=True))
            self.bias.copy_(B.tensor('bias', (1,), live=True))

    def at(self, x, y):
        B = self.B
        e = B.sum(self.d, lambda k: B.at(self.weight, 0, k) * x(k)) + B.at(self.bias, 0) - y(0)
        return e * e


class Given:
    """a sampler that hands out the given samples"""

    def __init__(self, B, m, d, l=None, n=None, name='zeta'):
        self.n = B.dim('n') if n is None else n
        self.x = B.tensor(name, (self.n, m, d))
        self.y = B.tensor(name + ' labels', (self.n, m, l)) if l is not None else None
        self.asked, self.means = [], []

    def sample(self, n):
        self.asked.append(n)
        return self.x, self.y

    def reset_mean(self, *means):
        self.means.append(means)


def rows(B, t, *i):
    """one row of a tensor, as a function of the coordinate"""
    return (lambda k: B.at(t, *i, k)) if t is not None else None


class Costed:
    """one of the library's costs with arbitrary settings, and its value between two points"""

    def __init__(self, B, labels, usual=False):
        self.B, self.labels = B, labels
        if usual:
            self.p, self.power = 2., 2.
        else:
            self.p = B.choice('p', [2., None])
            self.power = B.choice('power', [2., None])
            if self.p is None:
                self.p = B.real('p', lo=1)
            if self.power is None:
                self.power = B.real('power', gt=0)
        C = B.repo('skwdro.base.costs_torch')
        self.kind = B.choice('label cost', ['ignored', 'weighted', 'infinite']) if labels else 'ignored'
        if self.kind == 'ignored':
            self.cost = C.NormCost(p=self.p, power=self.power)
        elif self.kind == 'weighted':
            self.kappa = B.choice('free labels', [None, 0.])
            if self.kappa is None:
                self.kappa = B.real('kappa', gt=0)
            self.cost = C.NormLabelCost(p=self.p, power=self.power, kappa=self.kappa)
        else:
            self.kappa = B.inf
            self.cost = C.NormLabelCost(p=self.p, power=self.power, kappa=B.inf)

    def at(self, d, x, z, l=None, y=None, w=None):
        B = self.B
        c = B.norm(self.p, d, lambda k: x(k) - z(k))
        if self.kind == 'infinite':
            c = B.norm(self.p, l, lambda k: y(k) - w(k))
        if self.kind == 'weighted':
            c = (c + self.kappa * B.norm(self.p, l, lambda k: y(k) - w(k))) / (1. + self.kappa)
        return B.pow(c, self.power)


class Robust:
    """a robust loss over arbitrary parts: user loss and model, cost, samples"""

    def __init__(self, B, post, rho, eps=None, reductions=(None, 'mean', 'sum', 'none'), imp_samp=False, usual=False, labels=(False, True),
                 lam=None, sampler=None, models=('none', 'model'), kinds=('module',), n_iter=None, parts=None, **kw):
        O = B.repo('skwdro.solvers.oracle_torch')
        self.B, self.post = B, post
        self.w = w = Wrapped(B, labels=labels, reg=False, kinds=kinds, models=models, reduces=(False,)) if parts is None else parts
        self.m, self.d, self.l = B.dim('m'), w.d, w.l
        self.x = B.tensor('x', (self.m, self.d))
        self.y = B.tensor('y', (self.m, self.l)) if w.labels else None
        self.c = Costed(B, w.labels, usual)
        self.rho = rho
        self.eps = B.real('epsilon', gt=0) if eps is None else eps
        self.reduction = B.choice('reduction', list(reductions))
        if sampler is None:
            self.sampler = Given(B, self.m, self.d, self.l)
        else:
            self.sampler = sampler(self)
        self.n = self.sampler.n
        w.loss.sampler = self.sampler
        cls = O.DualPostSampledLoss if post else O.DualPreSampledLoss
        if n_iter is not None:
            kw['n_iter'] = n_iter
        self.dual = cls(w.loss, self.c.cost, n_samples=self.n, epsilon_0=B.pt.tensor(self.eps), rho_0=B.pt.tensor(rho), reduction=self.reduction,
                        imp_samp=imp_samp, **kw)
        if lam is not None:
            with B.pt.no_grad():
                self.dual._lam.copy_(lam)
            self.lam = B.val(lam)

    def loss_at(self, i):
        return self.w.at(rows(self.B, self.x, i), rows(self.B, self.y, i))

    def aggregate(self, f):
        """f: value of a data point"""
        B = self.B
        if self.reduction == 'sum':
            return B.sum(self.m, f)
        return B.mean(self.m, f)

    def ensure_aggregated(self, label, out, f, first=0., grad=False):
        B = self.B
        if self.reduction == 'none':
            B.ensure_tensor(label, out, (self.m,), lambda i: first + f(i), grad=grad)
        else:
            B.ensure_tensor(label, out, (), lambda: first + self.aggregate(f), grad=grad)

    def dual_at(self, i, z=None, zy=None, weight=None):
        """epsilon log of the average over the samples of data point i"""
        B = self.B
        z = self.sampler.x if z is None else z
        zy = self.sampler.y if zy is None else zy

        def score(j):
            s = self.w.at(rows(B, z, j, i), rows(B, zy, j, i))
            c = self.c.at(self.d, rows(B, self.x, i), rows(B, z, j, i), self.l, rows(B, self.y, i), rows(B, zy, j, i))
            e = (s - self.lam * c) / self.eps
            return e if weight is None else e + weight(j, i)
        return self.eps * (B.lse(self.n, score) - B.log(self.n))


def sampler_for(B):
    """the library's own reference law, handing out arbitrary samples"""
    S = B.repo('skwdro.base.samplers.torch.cost_samplers')

    def make(r):
        n = B.dim('n')
        z = B.tensor('zeta', (n, r.m, r.d))
        moves = r.c.kind == 'weighted'
        zy = None
        if r.w.labels:
            zy = B.tensor('zeta labels', (n, r.m, r.l)) if moves else r.y.unsqueeze(0).expand(n, -1, -1)
        r.sigma = B.real('sigma', gt=0)
        base = S.LabeledCostSampler if r.w.labels else S.NoLabelsCostSampler

        class Law(base):
            def sample(self, n_samples):
                return z, zy
        args = (r.c.cost, r.x) + ((r.y,) if r.w.labels else ())
        s = Law(*args, B.pt.tensor(r.sigma), 7)
        s.n, s.x, s.y = n, z, zy
        return s
    return make
