import math
from engine import symtensor as S, terms as T, symexec as SE
from engine.symexec import Unsupported
from engine.symtensor import El, Size
from engine.symval import mkint, mkreal, SymReal
from .. import _core as C
from . import constraints

LOG2PI = T.add(T.log(T.P(2)), T.log(T.var('pi', pos=True)))


def const(p):
    return C.Tensor._make((), lambda i: El(p), C.float32)


def _size(s):
    if isinstance(s, Size):
        return s
    return Size(s)


class Distribution:
    has_rsample = False
    has_enumerate_support = False
    _validate_args = True
    arg_constraints = {}
    support = None

    def __init__(self, batch_shape=Size(), event_shape=Size(), validate_args=None):
        self._batch_shape, self._event_shape = _size(batch_shape), _size(event_shape)
        if validate_args is not None:
            self._validate_args = validate_args

    @property
    def batch_shape(self):
        return self._batch_shape

    @property
    def event_shape(self):
        return self._event_shape

    def _extended_shape(self, sample_shape=Size()):
        return Size(tuple(_size(sample_shape)) + tuple(self._batch_shape) + tuple(self._event_shape))

    def sample(self, sample_shape=Size()):
        with C.no_grad():
            return self.rsample(sample_shape)

    def rsample(self, sample_shape=Size()):
        raise NotImplementedError

    def sample_n(self, n):
        return self.sample(Size((n,)))

    def log_prob(self, value):
        raise NotImplementedError

    def expand(self, batch_shape, _instance=None):
        raise NotImplementedError

    def _get_checked_instance(self, cls, _instance=None):
        return type(self).__new__(type(self)) if _instance is None else _instance

    @property
    def mean(self):
        raise NotImplementedError

    @property
    def mode(self):
        raise NotImplementedError

    @property
    def variance(self):
        raise NotImplementedError

    @property
    def stddev(self):
        return C.sqrt(self.variance)

    def _chk(self, name, ok):
        """argument validation"""
        if self._validate_args is not False and not S.bool_item(S.reduce_all(ok)):
            raise ValueError(f'Expected parameter {name} to satisfy its constraint')

    def __repr__(self):
        return type(self).__name__


class ExponentialFamily(Distribution):
    pass


def _bc(*xs):
    ts = [x if isinstance(x, C.Tensor) else C.tensor(float_of(x)) for x in xs]
    return C.broadcast_tensors(*ts)


def float_of(x):
    return x if not isinstance(x, int) else float(x)


class _LocScale(ExponentialFamily):
    has_rsample = True
    noise = 'normal'

    def __init__(self, loc, scale, validate_args=None):
        self.loc, self.scale = _bc(loc, scale)
        super().__init__(self.loc.shape, validate_args=validate_args)
        self._chk('scale', self.scale > 0)

    @property
    def mean(self):
        return self.loc

    @property
    def mode(self):
        return self.loc

    def rsample(self, sample_shape=Size()):
        sh = self._extended_shape(sample_shape)
        eps = C.draw(self.noise, tuple(S.dimp(d) for d in sh))
        return self.loc + eps * self.scale

    def expand(self, batch_shape, _instance=None):
        new = type(self).__new__(type(self))
        new.loc, new.scale = self.loc.expand(batch_shape), self.scale.expand(batch_shape)
        Distribution.__init__(new, _size(batch_shape), validate_args=False)
        return new


class Normal(_LocScale):
    noise = 'normal'

    @property
    def stddev(self):
        return self.scale

    @property
    def variance(self):
        return self.scale ** 2

    def log_prob(self, value):
        return -((value - self.loc) ** 2) / (2 * self.scale ** 2) - C.log(self.scale) - const(T.scale(LOG2PI, T.QH))


class Laplace(_LocScale):
    noise = 'laplace'

    @property
    def variance(self):
        return 2 * self.scale ** 2

    def log_prob(self, value):
        return -C.log(2 * self.scale) - C.abs_(value - self.loc) / self.scale


class Exponential(ExponentialFamily):
    has_rsample = True

    def __init__(self, rate, validate_args=None):
        self.rate, = _bc(rate)
        super().__init__(self.rate.shape)
        self._chk('rate', self.rate > 0)

    @property
    def mean(self):
        return 1 / self.rate

    def rsample(self, sample_shape=Size()):
        sh = self._extended_shape(sample_shape)
        return C.draw('exponential', tuple(S.dimp(d) for d in sh)) / self.rate

    def log_prob(self, v):
        return C.log(self.rate) - self.rate * v


class Uniform(Distribution):
    has_rsample = True

    def __init__(self, low, high, validate_args=None):
        self.low, self.high = _bc(low, high)
        super().__init__(self.low.shape)

    def rsample(self, sample_shape=Size()):
        sh = self._extended_shape(sample_shape)
        return self.low + C.draw('uniform', tuple(S.dimp(d) for d in sh)) * (self.high - self.low)


class LogNormal(Distribution):
    def __init__(self, *a, **k):
        raise Unsupported('LogNormal')


class Categorical(Distribution):
    def __init__(self, *a, **k):
        raise Unsupported('Categorical')


class MultivariateNormal(Distribution):
    """kept through one matrix: its triangular factor L, or the covariance /
    precision it is the factor of (an uninterpreted factor then)"""
    has_rsample = True

    def __init__(self, loc, covariance_matrix=None, precision_matrix=None, scale_tril=None, validate_args=None):
        given = [k for k, v in (('cov', covariance_matrix), ('prec', precision_matrix), ('tril', scale_tril)) if v is not None]
        if len(given) != 1:
            raise ValueError('Exactly one of covariance_matrix or precision_matrix or scale_tril may be specified.')
        if len(loc._shape) < 1:
            raise ValueError('loc must be at least one-dimensional.')
        self.kind = given[0]
        m = {'cov': covariance_matrix, 'prec': precision_matrix, 'tril': scale_tril}[self.kind]
        if len(m._shape) < 2:
            raise ValueError('matrix must be at least two-dimensional')
        bs = S.bshape(m._shape[:-2], loc._shape[:-1])
        if not (S.same_dim(m._shape[-1], loc._shape[-1]) and S.same_dim(m._shape[-2], loc._shape[-1])):
            raise ValueError('event dimension mismatch')
        d = loc._shape[-1]
        self.loc = loc.expand(tuple(mkint(x) for x in bs + (d,)))
        self._m = m.expand(tuple(mkint(x) for x in bs + (d, d)))
        super().__init__(S.mksize(bs), S.mksize((d,)), validate_args)
        setattr(self, {'cov': 'covariance_matrix', 'prec': 'precision_matrix', 'tril': 'scale_tril'}[self.kind], self._m)
        if self.kind == 'tril':
            self._unbroadcasted_scale_tril = m
        else:
            self._unbroadcasted_scale_tril = _mfun({'cov': 'cholesky', 'prec': 'precision_to_tril'}[self.kind], m)

    def __getattr__(self, k):
        if k in ('covariance_matrix', 'scale_tril', 'precision_matrix') and '_m' in self.__dict__:
            if k == 'scale_tril':
                return self._tril()
            if k == 'covariance_matrix' and self.kind == 'tril':
                L = self._m
                return C.matmul(L, L.mT)
            if k == 'precision_matrix' and self.kind == 'tril':
                return _minv(self.covariance_matrix)
            return _minv(self._m)
        raise AttributeError(k)

    def _tril(self):
        if self.kind == 'tril':
            return self._m
        return _mfun({'cov': 'cholesky', 'prec': 'precision_to_tril'}[self.kind], self._m)

    @property
    def mean(self):
        return self.loc

    @property
    def mode(self):
        return self.loc

    @property
    def variance(self):
        L = self._tril()
        return C.square(L).sum(-1)

    def rsample(self, sample_shape=Size()):
        sh = self._extended_shape(sample_shape)
        eps = C.draw('normal', tuple(S.dimp(d) for d in sh))
        L = self._tril()
        return self.loc + S.squeeze(C.matmul(L, S.unsqueeze(eps, -1)), -1)

    def log_prob(self, value):
        diff = value - self.loc
        L = self._tril()
        Ms = _mahalanobis(L, diff)
        hld = C.log(_diag(L)).sum(-1)
        d = mkint(self.loc._shape[-1])
        return -0.5 * (d * const(LOG2PI) + Ms) - hld

    def expand(self, batch_shape, _instance=None):
        new = type(self).__new__(type(self))
        bs = tuple(batch_shape)
        ev = tuple(self._event_shape)
        new.kind = self.kind
        new.loc = self.loc.expand(bs + ev)
        new._m = self._m.expand(bs + ev + ev)
        Distribution.__init__(new, _size(bs), self._event_shape, validate_args=False)
        return new


def _diag(L):
    g = L._numsnap()
    return C.Tensor._make(L._shape[:-1], lambda i: g(i + (i[-1],)), L.dtype, L._leafset())


def scalar_multiple(L):
    """s when L = s * identity syntactically, else None"""
    g = L._numsnap()
    n = len(L._shape)
    i, j = T.fresh_ix(L._shape[-2]), T.fresh_ix(L._shape[-1])
    pre = tuple(T.fresh_ix(d) if d is not T.ONE else T.ZERO for d in L._shape[:-2])
    off = g(pre + (i, j)).v
    m = off.m
    ind = T.ite(T.eq(i, j), T.ONE, T.ZERO)
    ia = ind.m[0][0][0][0] if ind.m and ind.const() is None else None
    if ia is None:
        return None
    for mono, c in m:
        if not any(a is ia for a, e in mono):
            return None
    return lambda idx: g(idx + (T.ZERO, T.ZERO))


def _mahalanobis(L, diff):
    """|L^-1 diff|^2"""
    s = scalar_multiple(L)
    gd = diff._numsnap()
    n = diff._shape[-1]
    shape = diff._shape[:-1]
    nb = len(L._shape) - 2
    lsh = L._shape[:-2]
    gl = L._numsnap()

    def fn(idx):
        bi = S.bidx(idx, lsh, shape)
        if s is not None:
            sc = s(bi)
            f = lambda k: S.e_div(gd(idx + (k,)), sc)
            return El(T.sum_(n, lambda k: T.pow_q(f(k).v, 2)), T.b_and(sc.fin, T.b_not(T.eq0(sc.v)), T.forall(n, lambda k: gd(idx + (k,)).fin)))
        return El(T.row('mahalanobis', (), [(n, lambda k: gd(idx + (k,)).v),
                                            (T.mul(n, n), lambda k: gl(bi + (T.idiv(k, n), T.imod(k, n))).v)], nn=True))
    return C.Tensor._make(shape, fn, diff.dtype, S.leaves_of(diff, L))


def _mfun(name, M):
    """an uninterpreted matrix function (cholesky factor and the like)"""
    g = M._numsnap()
    n, m = M._shape[-2], M._shape[-1]

    def fn(idx):
        b = idx[:-2]
        r = T.row(name, (idx[-2], idx[-1]), [(T.mul(n, m), lambda k: g(b + (T.idiv(k, m), T.imod(k, m))).v)])
        if name in ('cholesky', 'precision_to_tril') and idx[-2] is idx[-1]:
            r.m[0][0][0][0].nn = r.m[0][0][0][0].pos = True      # triangular factors have a positive diagonal
            r._nn = r._pos = None
        return El(r)
    return C.Tensor._make(M._shape, fn, M.dtype, M._leafset())


def _minv(M):
    return _mfun('inverse', M)


class Bernoulli(ExponentialFamily):
    def __init__(self, probs=None, logits=None, validate_args=None):
        if (probs is None) == (logits is None):
            raise ValueError('Either `probs` or `logits` must be specified, but not both.')
        if probs is not None:
            self.probs, = _bc(probs)
        else:
            self.probs = C.sigmoid(_bc(logits)[0])
        super().__init__(self.probs.shape, validate_args=validate_args)
        self._chk('probs', (self.probs >= 0) & (self.probs <= 1))

    @property
    def mean(self):
        return self.probs

    @property
    def variance(self):
        return self.probs * (1 - self.probs)

    def expand(self, batch_shape, _instance=None):
        new = type(self).__new__(type(self))
        new.probs = self.probs.expand(tuple(batch_shape))
        Distribution.__init__(new, _size(tuple(batch_shape)), validate_args=False)
        return new

    def sample(self, sample_shape=Size()):
        sh = self._extended_shape(sample_shape)
        u = C.draw('uniform', tuple(S.dimp(d) for d in sh))
        return (u < self.probs).to(C.float32).detach()

    def log_prob(self, v):
        return v * C.log(self.probs) + (1 - v) * C.log(1 - self.probs)


class TransformedDistribution(Distribution):
    def __init__(self, base_distribution, transforms, validate_args=None):
        self.transforms = list(transforms) if isinstance(transforms, (list, tuple)) else [transforms]
        sh = tuple(S.dimp(d) for d in tuple(base_distribution.batch_shape) + tuple(base_distribution.event_shape))
        full = sh
        for t in self.transforms:
            for x in (getattr(t, 'loc', None), getattr(t, 'scale', None)):
                if isinstance(x, C.Tensor):
                    full = S.bshape(full, x._shape)
        if len(full) != len(sh) or not all(S.same_dim(a, b) for a, b in zip(full, sh)):
            # the base is expanded to the shape its transforms produce
            k = len(full) - len(tuple(base_distribution.event_shape))
            base_distribution = base_distribution.expand(tuple(mkint(d) for d in full[:k]))
        self.base_dist = base_distribution
        super().__init__(base_distribution.batch_shape, base_distribution.event_shape)

    @property
    def has_rsample(self):
        return self.base_dist.has_rsample

    def sample(self, sample_shape=Size()):
        with C.no_grad():
            x = self.base_dist.sample(sample_shape)
            for t in self.transforms:
                x = t(x)
            return x

    def rsample(self, sample_shape=Size()):
        x = self.base_dist.rsample(sample_shape)
        for t in self.transforms:
            x = t(x)
        return x

    def log_prob(self, v):
        lp = 0.0
        y = v
        for t in reversed(self.transforms):
            x = t._inverse(y)
            lp = lp - t.log_abs_det_jacobian(x, y)
            y = x
        return lp + self.base_dist.log_prob(y)


class Independent(Distribution):
    def __init__(self, base_distribution, n, validate_args=None):
        self.base_dist, self.n = base_distribution, n
        sh = tuple(base_distribution.batch_shape) + tuple(base_distribution.event_shape)
        k = len(base_distribution.batch_shape) - n
        super().__init__(Size(sh[:k]), Size(sh[k:]))

    @property
    def mean(self):
        return self.base_dist.mean

    @property
    def variance(self):
        return self.base_dist.variance

    @property
    def has_rsample(self):
        return self.base_dist.has_rsample

    def sample(self, s=Size()):
        return self.base_dist.sample(s)

    def rsample(self, s=Size()):
        return self.base_dist.rsample(s)

    def log_prob(self, v):
        lp = self.base_dist.log_prob(v)
        return lp.sum(tuple(range(-self.n, 0))) if self.n else lp
