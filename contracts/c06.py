"""C06: the dual variable is never negative."""
from engine.api import contract
from .common import Robust, Squared

OPTIMISERS = ['prodigy', 'mechanic', 'plain', 'presampled']


def build(B, rho, optimiser=None, tuned=True, **kw):
    o = B.choice('optimiser', OPTIMISERS) if optimiser is None else optimiser
    # the mechanic tuner needs a gradient for every parameter it is given
    B.assume(o != 'mechanic' or tuned)
    if o != 'presampled':
        kw['adapt'] = None if o == 'plain' else o
    kw.setdefault('reductions', ('mean',))
    return Robust(B, o != 'presampled', rho, n_iter=B.choice('n_iter', [12, (3, 7)]), **kw)


def nonnegative(B, label, r):
    lam = r.dual.lam
    B.ensure(label + ' (finite)', B.finite(lam))
    B.ensure(label, B.le(0., B.val(lam)))


@contract('C06')
def construction(B):
    sign = B.choice('radius', ['positive', 'zero', 'negative'])
    rho = {'positive': lambda: B.real('rho', gt=0), 'zero': lambda: 0., 'negative': lambda: B.real('rho', lt=0)}[sign]()
    r = build(B, rho, usual=True, imp_samp=B.choice('imp_samp', [True, False]))
    nonnegative(B, 'not negative', r)
    if sign != 'positive':
        B.ensure_eq('zero without a radius', r.dual.lam, 0.)
        B.ensure('fixed without a radius', not r.dual._lam.requires_grad)


@contract('C06', paths=4000)
def starting_guess(B):
    r = build(B, B.real('rho', gt=0), B.choice('optimiser', ['plain', 'presampled']), lam=B.tensor('lambda', (), nn=True))
    r.dual.get_initial_guess_at_dual(r.x, r.y)
    nonnegative(B, 'not negative', r)


@contract('C06')
def starting_guess_for_a_builtin_loss(B):
    r = build(B, B.real('rho', gt=0), B.choice('optimiser', ['plain', 'presampled']), lam=B.tensor('lambda', (), nn=True), parts=Squared(B), usual=True)
    r.dual.get_initial_guess_at_dual(r.x, r.y)
    nonnegative(B, 'not negative', r)


@contract('C06')
def starting_guess_with_wild_gradients(B):
    """any gradients, finite or not"""
    r = build(B, B.real('rho', gt=0), B.choice('optimiser', ['plain', 'presampled']), lam=B.tensor('lambda', (), nn=True),
              labels=(False,), models=('none',))
    bad = B.choice('gradients', [B.inf, -B.inf, B.nan, 1e200])
    where = B.int('where', lo=0)
    B.assume(B.lt(where, r.m))

    def gradients(xi, xi_labels):
        g = B.pt.ones_like(xi)
        g[where] = bad
        return g.unsqueeze(0), None
    r.dual.compute_functional_grads = lambda xi, xi_labels: gradients(r.x, r.y)
    r.dual.get_initial_guess_at_dual(r.x, r.y)
    nonnegative(B, 'not negative', r)


@contract('C06')
def starting_guess_without_a_radius(B):
    rho = B.choice('radius', [0., None])
    rho = B.real('rho', lt=0) if rho is None else rho
    r = build(B, rho, B.choice('optimiser', ['plain', 'presampled']), lam=B.tensor('lambda', (), nn=True), usual=True)
    r.dual.get_initial_guess_at_dual(r.x, r.y)
    B.ensure_eq('zero', r.dual.lam, 0.)


@contract('C06', paths=2000)
def after_a_step(B):
    """one step from any state with any gradients"""
    sign = B.choice('radius', ['positive', 'zero'])
    which = B.choice('gradient of the dual variable', ['given', 'missing'])
    r = build(B, B.real('rho', gt=0) if sign == 'positive' else 0., usual=True, labels=(False,), tuned=sign == 'positive' and which == 'given',
              lam=B.tensor('lambda', (), nn=True) if sign == 'positive' else None)
    params = [p for p in r.dual.parameters() if p.requires_grad]
    steps = 1 if B.symbolic else B.choice('steps', [1, 2, 6])
    for t in range(steps):
        size = B.choice('size', [1., 1e3, 1e-4])

        def give():
            for k, p in enumerate(params):
                if p is r.dual._lam and which == 'missing':
                    p.grad = None
                else:
                    p.grad = B.tensor(f'gradient {k} of step {t}', p.shape) * size
            return 1.
        if r.post:
            give()
            r.dual.optimizer.step()
        else:
            r.dual.optimizer.step(give)
        nonnegative(B, 'not negative', r)
        if sign == 'zero':
            B.ensure_eq('zero without a radius', r.dual.lam, 0.)
