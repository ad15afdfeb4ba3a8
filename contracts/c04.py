"""C04: without robustness the loss is exactly the empirical loss."""
from engine.api import contract
from .common import Robust, Squared


def build(B, post, rho, **kw):
    return Robust(B, post, rho, lam=B.tensor('lambda', (), live=True), **kw)


def evaluate(B, r):
    """every way of asking for the loss"""
    s = r.sampler
    if r.post:
        return [r.dual(r.x, r.y) if B.choice('reset', [True, False]) else r.dual(r.x, r.y, reset_sampler=False)]
    out = r.dual(r.x, r.y, s.x, s.y)
    return [out, r.dual(r.x, r.y)]


@contract('C04', paths=2000)
def zero_radius(B):
    r = build(B, B.choice('post', [True, False]), 0.)
    for out in evaluate(B, r):
        r.ensure_aggregated('plain loss', out, r.loss_at, grad=True)
    B.gradient('gradient', lambda: r.dual(r.x, r.y), r.dual)


@contract('C04', paths=2000)
def non_robust_mode(B):
    r = build(B, B.choice('post', [True, False]), B.real('rho', lo=0))
    r.dual.erm_mode = True
    for out in evaluate(B, r):
        r.ensure_aggregated('plain loss', out, r.loss_at, grad=True)
    B.gradient('gradient', lambda: r.dual(r.x, r.y), r.dual)


@contract('C04', paths=2000)
def non_robust_mode_with_importance_sampling(B):
    r = build(B, B.choice('post', [True, False]), B.real('rho', lo=0), imp_samp=True, usual=True)
    r.dual.erm_mode = True
    for out in evaluate(B, r):
        r.ensure_aggregated('plain loss', out, r.loss_at, grad=True)


@contract('C04', paths=2000)
def builtin_loss(B):
    """losses of the library take the batch as it is"""
    r = build(B, B.choice('post', [True, False]), 0. if B.choice('zero radius', [True, False]) else B.real('rho', lo=0), usual=True, parts=Squared(B))
    if not (isinstance(r.rho, float) and r.rho == 0.):
        r.dual.erm_mode = True
    for out in evaluate(B, r):
        r.ensure_aggregated('plain loss', out, r.loss_at, grad=True)


@contract('C04', paths=2000)
def computed(B):
    """the dual evaluation itself"""
    r = build(B, B.choice('post', [True, False]), B.choice('rho', [0., None]) or B.real('rho', lo=0), imp_samp=B.choice('imp_samp', [True, False]), usual=True)
    r.dual.erm_mode = True
    out = r.dual.compute_dual(r.x, r.y, r.sampler.x, r.sampler.y)
    r.ensure_aggregated('plain loss', out, r.loss_at, grad=True)


@contract('C04')
def negative_radius(B):
    post = B.choice('post', [True, False])
    rho = B.real('rho', lt=0)
    way = B.choice('way', ['first', 'kept', 'computed'])

    def go():
        r = build(B, post, rho, usual=True, imp_samp=B.choice('imp_samp', [True, False]))
        if way == 'computed':
            return r.dual.compute_dual(r.x, r.y, r.sampler.x, r.sampler.y)
        if post:
            return r.dual(r.x, r.y)
        if way == 'kept':
            r.dual.zeta, r.dual.zeta_labels = r.sampler.x, r.sampler.y
            return r.dual(r.x, r.y)
        return r.dual(r.x, r.y, r.sampler.x, r.sampler.y)
    B.ensure('refused', isinstance(B.raises(go), ValueError))


@contract('C04')
def nan_radius(B):
    r = build(B, B.choice('post', [True, False]), B.nan, usual=True, imp_samp=B.choice('imp_samp', [True, False]), reductions=(None, 'mean', 'sum'))
    for out in evaluate(B, r):
        B.ensure_eq('not a number', out, B.nan)


@contract('C04')
def fresh_loss(B):
    """a fresh loss is in its robust mode"""
    r = build(B, B.choice('post', [True, False]), B.real('rho', gt=0), usual=True, reductions=('mean', 'none'))
    B.ensure('robust', r.dual.erm_mode is False)
