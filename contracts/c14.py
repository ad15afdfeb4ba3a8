"""C14: the constrained optimisers keep their constraints."""
from engine.api import contract

KINDS = ['mwu', 'mwu_simplex', 'non_neg', 'max', 'bound', None]
LIMIT = 100.


def rate(B):
    lr = B.real('lr', gt=0)
    return lr if B.symbolic else min(.01 * lr, .02)     # exponentials stay representable


class Groups:
    """an optimiser over one group of parameters per declaration, and a plain one to compare with"""

    def __init__(self, B, kinds, sizes=1, **kw):
        H = B.repo('skwdro.solvers.hybrid_opt')
        self.B, self.kinds = B, kinds
        self.name = B.choice('optimiser', ['SGD', 'Adam'])
        B.deterministic_updates()
        self.lr = rate(B)
        self.params = []
        groups = []
        for kind in kinds:
            ps = []
            for c in range(sizes):
                nm = f'{kind} {c}'
                sign = dict(pos=True) if kind in ('mwu', 'mwu_simplex') else {}
                p = B.pt.nn.Parameter(B.tensor(nm, (B.dim('n ' + nm),), **sign))
                ps.append(p)
                self.params.append((kind, p))
            groups.append(dict({'params': ps}, **({kind: True} if kind else {})))
        self.opt = getattr(H, 'Hybrid' + self.name)(groups, lr=self.lr, **kw)
        self.copies = [B.pt.nn.Parameter(p.detach().clone()) for _, p in self.params]
        self.ref = getattr(B.pt.optim, self.name)(self.copies, lr=self.lr, **kw)

    def step(self, t):
        """one step with arbitrary gradients; returns the values before, the gradients, and what the plain optimiser does
        (from the opposite values for 'max', with clipped gradients for 'bound')"""
        B = self.B
        size = B.choice('size of the gradients', [1., 1e3])
        before, grads = [], []
        with B.pt.no_grad():
            for j, ((kind, p), q) in enumerate(zip(self.params, self.copies)):
                g = B.tensor(f'gradient {j} at step {t}', p.shape) * size
                before.append(B.snapshot(p))
                grads.append(B.snapshot(g))
                p.grad = g.clone()
                q.copy_({'max': lambda v: -v, 'mwu': B.pt.log, 'mwu_simplex': B.pt.log}.get(kind, lambda v: v)(p.detach()))
                q.grad = g.clamp(-LIMIT, LIMIT) if kind == 'bound' else g.clone()
        self.ref.step()
        self.opt.step()
        return before, grads, [B.snapshot(q) for q in self.copies]


def verify(B, kind, p, before, g, plain, lr=None):
    n = before.shape[0]
    at = lambda k: B.at(p, k)
    if kind is None:
        B.ensure_tensor('plain update', p, (n,), lambda k: B.at(plain, k))
    elif kind == 'max':
        B.ensure_tensor('moves up its gradient', p, (n,), lambda k: -B.at(plain, k))
    elif kind == 'bound':
        B.ensure_tensor('clipped gradients', p, (n,), lambda k: B.at(plain, k))
    elif kind == 'non_neg':
        B.ensure_all('non negative', (n,), lambda k: B.le(0., at(k)))
        B.ensure_tensor('projected update', p, (n,), lambda k: B.max2(0., B.at(plain, k)))
    elif not B.symbolic and plain.abs().max() > 300.:
        pass
    elif kind == 'mwu':
        B.ensure_all('positive', (n,), lambda k: B.lt(0., at(k)))
        B.ensure_tensor('multiplicative update', p, (n,), lambda k: B.exp(B.at(plain, k)))
    else:
        B.ensure_all('positive', (n,), lambda k: B.lt(0., at(k)))
        B.ensure_eq('sums to one', B.sum(n, at), 1.)
        B.ensure_tensor('proportional to the multiplicative update', p, (n,),
                        lambda k: B.div(B.exp(B.at(plain, k)), B.sum(n, lambda c: B.exp(B.at(plain, c)))))


@contract('C14', paths=500)
def all_declarations(B):
    """one group per declaration, one and two steps"""
    s = Groups(B, KINDS, sizes=B.choice('parameters per group', [1, 2]))
    steps = B.choice('steps', [1, 2])
    for t in range(steps):
        before, grads, plain = s.step(t)
    for (kind, p), b, g, q in zip(s.params, before, grads, plain):
        verify(B, kind, p, b, g, q)


@contract('C14', paths=500)
def plain_descent(B):
    """the exact updates of gradient descent"""
    H = B.repo('skwdro.solvers.hybrid_opt')
    kind = B.choice('kind', KINDS)
    n, lr = B.dim('n'), rate(B)
    v = B.tensor('value', (n,), **(dict(pos=True) if kind in ('mwu', 'mwu_simplex') else {}))
    p = B.pt.nn.Parameter(v.clone())
    g = B.tensor('gradient', (n,)) * B.choice('size of the gradients', [1., 300.])
    gs = B.snapshot(g)
    p.grad = g
    H.HybridSGD([dict({'params': [p]}, **({kind: True} if kind else {}))], lr=lr).step()
    G, V = (lambda k: B.at(gs, k)), (lambda k: B.at(v, k))
    move = lambda k: V(k) * B.exp(-lr * G(k))
    spec = {None: lambda k: V(k) - lr * G(k), 'max': lambda k: V(k) + lr * G(k), 'non_neg': lambda k: B.max2(0., V(k) - lr * G(k)),
            'bound': lambda k: V(k) - lr * B.max2(-LIMIT, B.min2(LIMIT, G(k))), 'mwu': move,
            'mwu_simplex': lambda k: B.div(move(k), B.sum(n, move))}[kind]
    B.ensure_tensor('update', p, (n,), spec)
