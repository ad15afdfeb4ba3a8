"""C10: a wrapped loss evaluates the user loss on every sample, in place."""
from engine.api import contract
from .common import Wrapped, user_module, user_function


def rows(B, t, i):
    return lambda k: B.at(t, *i, k)


@contract('C10', paths=2000)
def sample_batches(B):
    """rank 3 and more: one trailing value"""
    w = Wrapped(B)
    r = B.choice('rank', [3, 4, 5])
    lead = tuple(B.dim(n) for n in ('n', 'm', 'b', 'c')[:r - 1])
    x = B.tensor('x', lead + (w.d,))
    y = B.tensor('y', lead + (w.l,)) if w.labels else None
    x0 = B.snapshot(x)
    out = w.loss(x, y) if B.choice('call', [True, False]) else w.loss.value(x, y)
    B.ensure_tensor('loss of each sample', out, lead + (1,),
                    lambda *i: w.at(rows(B, x, i[:-1]), rows(B, y, i[:-1]) if w.labels else None))
    B.ensure_tensor('data left alone', x, lead + (w.d,), lambda *i: B.at(x0, *i))


@contract('C10', paths=2000)
def matrix_labels(B):
    """a single draw (1, m, d) with labels given as (m, l)"""
    w = Wrapped(B, labels=(True,))
    m = B.dim('m')
    x, y = B.tensor('x', (1, m, w.d)), B.tensor('y', (m, w.l))
    B.ensure_tensor('loss of each sample', w.loss(x, y), (1, m, 1),
                    lambda j, i, _: w.at(rows(B, x, (j, i)), rows(B, y, (i,))))


@contract('C10', paths=2000)
def plain_batches(B):
    """a matrix of samples: one value per sample"""
    w = Wrapped(B)
    m = B.dim('m')
    x = B.tensor('x', (m, w.d))
    y = B.tensor('y', (m, w.l)) if w.labels else None
    out = w.loss(x, y) if w.labels else w.loss.value(x)
    B.ensure_tensor('loss of each sample', out.reshape(-1), (m,),
                    lambda i: w.at(rows(B, x, (i,)), rows(B, y, (i,)) if w.labels else None))


@contract('C10', paths=2000)
def single_point(B):
    w = Wrapped(B)
    x = B.tensor('x', (w.d,))
    y = B.tensor('y', (w.l,)) if w.labels else None
    B.ensure_eq('loss of the point', w.loss.value(x, y), w.at(rows(B, x, ()), rows(B, y, ()) if w.labels else None))


@contract('C10')
def parameters_reported(B):
    """theta: the parameters of the loss, then of the model"""
    w = Wrapped(B, reg=False)
    n = 0
    B.assume(len(w.ws) > 0)
    th = w.loss.theta
    if len(w.ws) == 1:
        B.ensure_tensor('parameters', th, (w.ws[0][0],), lambda k: B.at(w.ws[0][1], k), grad=True)
    else:
        (a, u), (b, v) = w.ws
        B.ensure_shape('all the parameters', th, (a + b,))
        B.ensure_all('loss parameters first', (a,), lambda k: B.eq(B.at(th, k), B.at(u, k)))
        B.ensure_all('then model parameters', (b,), lambda k: B.eq(B.at(th, a + k), B.at(v, k)))


@contract('C10')
def gradient_reaches_the_parameters(B):
    """the value is the user expression of the live parameters"""
    w = Wrapped(B)
    n, m = B.dim('n'), B.dim('m')
    x = B.tensor('x', (n, m, w.d))
    y = B.tensor('y', (n, m, w.l)) if w.labels else None
    B.ensure_tensor('nothing is detached', w.loss(x, y), (n, m, 1),
                    lambda j, i, _: w.at(rows(B, x, (j, i)), rows(B, y, (j, i)) if w.labels else None), grad=True)


@contract('C10')
def aggregating_losses_refused(B):
    W = B.repo('skwdro.base.losses_torch.wrapper').WrappedPrimalLoss
    red = B.choice('reduction', ['mean', 'sum', 'none', None])
    labels = B.choice('labels', [False, True])
    lo, _, _ = user_module(B, 'user loss', B.dim('r'), B.dim('lw'), reduction=red)
    e = B.raises(lambda: W(lo, None, None, labels))
    if red == 'none':
        B.ensure('sample-wise losses are accepted', e is None)
    else:
        B.ensure('aggregating losses are refused', e is not None)


@contract('C10')
def not_callable_refused(B):
    W = B.repo('skwdro.base.losses_torch.wrapper').WrappedPrimalLoss
    e = B.raises(lambda: W(B.choice('loss', ['mse', 3, None]), None, None, B.choice('labels', [False, True])))
    B.ensure('refused', e is not None)


@contract('C10')
def labels_must_match(B):
    w = Wrapped(B)
    r = B.choice('rank', [1, 2, 3])
    lead = tuple(B.dim(n) for n in ('n', 'm')[:r - 1])
    x = B.tensor('x', lead + (w.d,))
    if w.labels:
        e = B.raises(lambda: w.loss.value(x))
    else:
        e = B.raises(lambda: w.loss.value(x, B.tensor('y', lead + (B.dim('l'),))))
    B.ensure('labels given exactly when the loss has them', e is not None)
