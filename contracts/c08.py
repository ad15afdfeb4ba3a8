"""C08: the point-mass distribution is a point mass."""
from engine.api import contract


def location(B, most=3):
    rank = B.choice('rank', list(range(1, most + 1)))
    shape = tuple(B.dim(f'd{i}') for i in range(rank))
    return shape, B.tensor('loc', shape), B.choice('batch', list(range(rank + 1)))


def sized(B, dims):
    form = B.choice('form', ['tuple', 'list', 'size'])
    return {'tuple': tuple, 'list': list, 'size': B.pt.Size}[form](dims)


def build(B, loc, nb, how=('plain', 'checked', 'unchecked', 'keyword')):
    D = B.repo('skwdro.distributions')
    how = B.choice('construction', how)
    if how == 'keyword':
        return D.Dirac(loc=loc, n_batch_dims=nb) if nb else D.Dirac(loc)
    return D.Dirac(loc, nb) if how == 'plain' else D.Dirac(loc, nb, how == 'checked')


def same_shape(B, label, got, want):
    B.ensure(label, len(got) == len(want) and B.both(*[B.eq(a, b) for a, b in zip(got, want)]))


def point_mass(B, label, dist, shape, nb, entry):
    """dist is the point mass at the tensor of this shape and entries"""
    same_shape(B, f'{label}batch shape', dist.batch_shape, shape[:nb])
    same_shape(B, f'{label}event shape', dist.event_shape, shape[nb:])
    B.ensure_tensor(f'{label}mean is the location', dist.mean, shape, entry)
    B.ensure_tensor(f'{label}mode is the location', dist.mode, shape, entry)
    B.ensure_tensor(f'{label}variance is zero', dist.variance, shape, lambda *i: 0.)
    B.ensure_tensor(f'{label}support is the location', dist.enumerate_support(), (1,) + tuple(shape), lambda j, *i: entry(*i))


@contract('C08', paths=3000)
def moments(B):
    shape, loc, nb = location(B)
    point_mass(B, '', build(B, loc, nb), shape, nb, lambda *i: B.at(loc, *i))


@contract('C08', paths=6000)
def samples(B):
    shape, loc, nb = location(B)
    dist = build(B, loc, nb)
    k = B.choice('sample rank', [None, 0, 1, 2])
    what = B.choice('call', ['sample', 'rsample'])
    f = dist.sample if what == 'sample' else dist.rsample
    if k is None:
        k, s, r = 0, (), f()
    else:
        s = tuple(B.dim(f's{i}') for i in range(k))
        r = f(sized(B, s))
    B.ensure_tensor('samples repeat the location', r, s + shape, lambda *i: B.at(loc, *i[k:]))


@contract('C08', paths=6000)
def log_density(B):
    shape, loc, nb = location(B)
    dist = build(B, loc, nb)
    k = B.choice('sample rank', [0, 1, 2])
    s = tuple(B.dim(f's{i}') for i in range(k))
    if B.choice('value', ['location', 'elsewhere']) == 'location':
        v = loc.expand(s + shape) if B.choice('from', ['location', 'samples']) == 'location' else dist.sample(s)
        want = 0.
    else:
        v = B.tensor('value', s + shape)
        idx = [B.int(f'at{i}', lo=0, hi=n - 1) for i, n in enumerate(s + shape)]
        B.assume(B.neg(B.eq(B.at(v, *idx), B.at(loc, *idx[k:]))))
        want = -B.inf
    r = dist.log_prob(v)
    B.ensure_eq('log-density', r, want)


@contract('C08', paths=6000)
def expansion(B):
    shape, loc, nb = location(B)
    dist = build(B, loc, nb, ['plain'])
    extra = B.choice('extra dims', [0, 1, 2])
    grow = [B.choice(f'grow {i}', [False, True]) for i in range(nb)]
    if any(grow):
        # a batch dimension of size one may be stretched
        shape = tuple(1 if i < nb and grow[i] else n for i, n in enumerate(shape))
        loc = B.tensor('loc1', shape)
        dist = build(B, loc, nb, ['plain'])
    batch = tuple(B.dim(f'e{i}') for i in range(extra)) + tuple(B.dim(f'g{i}') if grow[i] else shape[i] for i in range(nb))
    new = dist.expand(sized(B, batch))
    full = batch + shape[nb:]

    def entry(*i):
        i = i[extra:]
        return B.at(loc, *[0 if j < nb and grow[j] else x for j, x in enumerate(i)])
    point_mass(B, 'expanded: ', new, full, extra + nb, entry)
    m = B.dim('m')
    B.ensure_tensor('expanded: samples repeat the location', new.sample((m,)), (m,) + full, lambda j, *i: entry(*i))
    B.ensure_eq('expanded: log-density at the location', new.log_prob(new.mean), 0.)
    v = B.tensor('value', full)
    idx = [B.int(f'at{i}', lo=0, hi=n - 1) for i, n in enumerate(full)]
    B.assume(B.neg(B.eq(B.at(v, *idx), entry(*idx))))
    B.ensure_eq('expanded: log-density elsewhere', new.log_prob(v), -B.inf)
    point_mass(B, 'after expanding: ', dist, shape, nb, lambda *i: B.at(loc, *i))
