"""C01: transport costs equal their documented formula."""
from engine.api import contract

SHAPES = {
    # how (xi, zeta) batch shapes may broadcast; letters are arbitrary sizes
    'post': (('a', 'b', 'd'), ('a', 'b', 'd')),
    'sampled': ((1, 'b', 'd'), ('a', 'b', 'd')),
    'pair': (('b', 'd'), ('b', 'd')),
    'point': (('d',), ('b', 'd')),
    'wide': (('a', 1, 'd'), (1, 'b', 'd')),
}


def norm_order(B, usual):
    """one of the usual orders, or any other real >= 1"""
    p = B.choice('p', usual + [None])
    return B.real('order', gt=1, lt=50) if p is None else p


def positive(B, name, usual):
    q = B.choice(name, usual + [None])
    return B.real(name, gt=0, lt=50) if q is None else q


def shapes(B, key, last='d'):
    dims = {}

    def mk(s):
        return tuple(x if isinstance(x, int) else dims.setdefault(x, B.dim(x if x != 'd' else last)) for x in s)
    sx, sz = SHAPES[key]
    return mk(sx), mk(sz), dims


def bget(B, t, shape, idx):
    """entry of a broadcast operand"""
    idx = idx[len(idx) - len(shape):]
    return B.at(t, *[0 if isinstance(s, int) and s == 1 else i for s, i in zip(shape, idx)])


def full_shape(sx, sz):
    n = max(len(sx), len(sz))
    sx, sz = (1,) * (n - len(sx)) + sx, (1,) * (n - len(sz)) + sz
    return tuple(b if isinstance(a, int) and a == 1 else a for a, b in zip(sx, sz))


def dist(B, p, x, z, sx, sz, d, idx):
    return B.norm(p, d, lambda k: bget(B, x, sx, idx + (k,)) - bget(B, z, sz, idx + (k,)))


@contract('C01')
def norm_cost_value(B):
    C = B.repo('skwdro.base.costs_torch')
    key = B.choice('shape', list(SHAPES))
    p = norm_order(B, [1, 1.0, 2, 2.0, B.inf])
    power = positive(B, 'power', [1, 1.0, 2, 2.0, 0.5])
    sx, sz, dims = shapes(B, key)
    x, z = B.tensor('x', sx), B.tensor('z', sz)
    d = dims['d']
    c = C.NormCost(p, power)
    r = c(x, z) if B.choice('labels', ['omitted', 'none']) == 'omitted' else c(x, z, None, None)
    fs = full_shape(sx, sz)
    B.ensure_tensor('cost is the norm of the difference to the power', r, fs[:-1] + (1,),
                    lambda *i: B.pow(dist(B, p, x, z, sx, sz, d, i[:-1]), power))
    B.ensure_all('cost is not negative', fs[:-1], lambda *i: B.le(0, B.at(r, *i, 0)))
    B.ensure_all('data untouched', sx, lambda *i: B.eq(B.at(x, *i), B.at(x, *i)))


@contract('C01')
def norm_cost_identical_points(B):
    C = B.repo('skwdro.base.costs_torch')
    p = norm_order(B, [1, 2, B.inf])
    power = positive(B, 'power', [1, 2])
    labels = B.choice('cost', ['plain', 'labels'])
    a, b, d, l = B.dim('a'), B.dim('b'), B.dim('d'), B.dim('l')
    x, y = B.tensor('x', (a, b, d)), B.tensor('y', (a, b, l))
    if labels == 'plain':
        r = C.NormCost(p, power)(x, x, None, None)
    else:
        kappa = B.choice('kappa', [None, 0., B.inf])
        if kappa is None:
            kappa = B.real('kappa', lo=0)
        r = C.NormLabelCost(p, power, kappa)(x, x, y, y)
    B.ensure_tensor('zero between identical points', r, (a, b, 1), lambda *i: 0., atol=1e-9)


@contract('C01')
def norm_label_cost_value(B):
    C = B.repo('skwdro.base.costs_torch')
    key = B.choice('shape', ['post', 'sampled', 'pair', 'wide'])
    p = norm_order(B, [1, 2, 2.0, B.inf])
    power = positive(B, 'power', [1, 2, 2.0])
    kk = B.choice('weight', ['finite', 'zero', 'infinite', 'zero int'])
    sx, sz, dims = shapes(B, key)
    d, l = dims['d'], B.dim('l')
    x, z = B.tensor('x', sx), B.tensor('z', sz)
    sxl, szl = sx[:-1] + (l,), sz[:-1] + (l,)
    xl, zl = B.tensor('xl', sxl), B.tensor('zl', szl)
    kappa = {'finite': None, 'zero': 0., 'infinite': B.inf, 'zero int': 0}[kk]
    if kappa is None:
        kappa = B.real('kappa', lo=0)
    c = C.NormLabelCost(p, power, kappa)
    fs = full_shape(sx, sz)

    def spec(*i):
        i = i[:-1]
        dd = dist(B, p, x, z, sx, sz, d, i)
        dl = dist(B, p, xl, zl, sxl, szl, l, i)
        if kk == 'infinite':
            return B.pow(dl, power)
        return B.pow(B.div(dd + kappa * dl, 1 + kappa), power)
    want = B.snapshot(x), B.snapshot(z), B.snapshot(xl), B.snapshot(zl)
    r = c(x, z, xl, zl)
    B.ensure_tensor('cost is the weighted mean distance to the power', r, fs[:-1] + (1,), spec)
    B.ensure_all('cost is not negative', fs[:-1], lambda *i: B.le(0, B.at(r, *i, 0)))
    for nm, t, w, s in (('xi', x, want[0], sx), ('zeta', z, want[1], sz), ('xi labels', xl, want[2], sxl),
                        ('zeta labels', zl, want[3], szl)):
        B.ensure_tensor(f'{nm} untouched', t, s, lambda *i, w=w: B.at(w, *i))


@contract('C01')
def negative_kappa_refused(B):
    C = B.repo('skwdro.base.costs_torch')
    kappa = B.real('kappa', lt=0)
    e = B.raises(lambda: C.NormLabelCost(B.choice('p', [1, 2]), B.choice('power', [1, 2]), kappa), Exception)
    B.ensure('negative kappa refused', e is not None)


@contract('C01')
def nonnegative_kappa_accepted(B):
    C = B.repo('skwdro.base.costs_torch')
    kappa = B.choice('special', [0., B.inf, None])
    if kappa is None:
        kappa = B.real('kappa', lo=0)
    c = C.NormLabelCost(B.choice('p', [1, 2]), B.choice('power', [1, 2]), kappa)
    B.ensure('kappa stored', B.eq(c.kappa, kappa))
