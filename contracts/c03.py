"""C03: the robust loss is the entropic dual formula, and so is its gradient."""
from engine.api import contract
from .common import Robust, Squared


def arbitrary(B, post, **kw):
    r = Robust(B, post, B.real('rho', gt=0), lam=B.tensor('lambda', (), nn=True, live=True), **kw)
    return r, r.lam * B.pow(r.rho, r.c.power)


@contract('C03', paths=4000)
def resampled(B):
    """samples drawn at every evaluation"""
    r, first = arbitrary(B, True)
    again = B.choice('reset_sampler', [None, True, False])
    out = r.dual(r.x, r.y) if again is None else r.dual(r.x, r.y, reset_sampler=again)
    r.ensure_aggregated('robust loss', out, r.dual_at, first, grad=True)
    B.ensure('asked for the configured number of samples', len(r.sampler.asked) == 1 and B.eq(r.sampler.asked[0], r.n))
    B.ensure('sampler centred at the batch', len(r.sampler.means) == (0 if again is False else 1))
    for mean in r.sampler.means:
        B.ensure_tensor('centre', mean[0], (r.m, r.d), lambda i, k: B.at(r.x, i, k))
        if r.w.labels:
            B.ensure_tensor('centre of the labels', mean[1], (r.m, r.l), lambda i, k: B.at(r.y, i, k))
    B.gradient('gradient', lambda: r.dual(r.x, r.y), r.dual)


@contract('C03', paths=4000)
def presampled(B):
    """samples given by the caller, then kept"""
    r, first = arbitrary(B, False)
    s = r.sampler
    out = r.dual(r.x, r.y, s.x, s.y)
    r.ensure_aggregated('robust loss', out, r.dual_at, first, grad=True)
    out = r.dual(r.x, r.y)
    r.ensure_aggregated('robust loss on the kept samples', out, r.dual_at, first, grad=True)
    x, y = r.dual.current_samples
    B.ensure_tensor('kept samples', x, (r.n, r.m, r.d), lambda *i: B.at(s.x, *i))
    if r.w.labels:
        B.ensure_tensor('kept labels', y, (r.n, r.m, r.l), lambda *i: B.at(s.y, *i))
    B.gradient('gradient', lambda: r.dual(r.x, r.y), r.dual)


@contract('C03', paths=1000)
def presampled_afresh(B):
    """newly given samples replace the kept ones"""
    r, first = arbitrary(B, False, usual=True, reductions=('mean',))
    s = r.sampler
    k = B.dim('k')
    old = B.tensor('old samples', (k, r.m, r.d)), B.tensor('old labels', (k, r.m, r.l)) if r.w.labels else None
    r.dual(r.x, r.y, *old)
    out = r.dual(r.x, r.y, s.x, s.y)
    r.ensure_aggregated('robust loss', out, r.dual_at, first, grad=True)
    out = r.dual(r.x, r.y)
    r.ensure_aggregated('robust loss on the kept samples', out, r.dual_at, first, grad=True)


@contract('C03', paths=1000)
def builtin_loss(B):
    """losses of the library take the samples as they are"""
    post = B.choice('post', [True, False])
    r, first = arbitrary(B, post, usual=True, parts=Squared(B))
    out = r.dual(r.x, r.y) if post else r.dual(r.x, r.y, r.sampler.x, r.sampler.y)
    r.ensure_aggregated('robust loss', out, r.dual_at, first, grad=True)
    B.gradient('gradient', lambda: r.dual(r.x, r.y), r.dual)


@contract('C03', paths=1000)
def computed(B):
    """the dual evaluation itself"""
    r, first = arbitrary(B, B.choice('post', [True, False]))
    out = r.dual.compute_dual(r.x, r.y, r.sampler.x, r.sampler.y)
    r.ensure_aggregated('robust loss', out, r.dual_at, first, grad=True)
    B.ensure('no other draw', not r.sampler.asked and not r.sampler.means)


@contract('C03')
def reductions(B):
    r, _ = arbitrary(B, True, usual=True, labels=(False,))
    v = B.tensor('losses', (r.m, 1), live=True)
    out = r.dual.reduce_loss_batch(v)
    r.ensure_aggregated('aggregate', out, lambda i: B.at(v, i, 0), grad=True)


@contract('C03')
def unknown_reduction(B):
    """an aggregate that does not exist is refused"""
    post = B.choice('post', [True, False])

    def go():
        r, _ = arbitrary(B, post, usual=True, labels=(False,), reductions=('max', 'avg', ''))
        return r.dual(r.x, r.y, r.sampler.x, r.sampler.y)
    B.ensure('refused', B.raises(go) is not None)


@contract('C03')
def missing_samples(B):
    """pre-sampled loss without samples refuses"""
    r, _ = arbitrary(B, False, usual=True)
    B.ensure('refused', B.raises(lambda: r.dual(r.x, r.y)) is not None)
