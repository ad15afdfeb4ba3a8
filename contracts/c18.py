"""C18: evaluating the robust loss has no side effect on the model."""
from engine.api import contract
from .common import Robust, sampler_for

PATTERNS = {'all': lambda k: True, 'none': lambda k: False, 'even': lambda k: k % 2 == 0, 'odd': lambda k: k % 2 == 1}


class State:
    """everything an evaluation must leave alone"""

    def __init__(self, B, r):
        self.B, self.r = B, r
        self.params = list(r.dual.named_parameters())
        self.values = [B.snapshot(p) for _, p in self.params]
        self.trainable = [p.requires_grad for _, p in self.params]
        self.grads = [p.grad for _, p in self.params]
        self.buffers = list(r.dual.named_buffers())
        self.buffer_values = [B.snapshot(b) for _, b in self.buffers]
        self.modes = [(m, m.training) for m in r.dual.modules()]
        self.flags = (r.dual.erm_mode, r.dual.imp_samp)
        self.data = [(n, t, B.snapshot(t)) for n, t in (('data', r.x), ('labels', r.y)) if t is not None]

    def same(self, label, t, old):
        self.B.ensure_tensor(label, t, old.shape, lambda *i: self.B.at(old, *i))

    def check(self, dual_variable=True):
        B, r = self.B, self.r
        now = dict(r.dual.named_parameters())
        B.ensure('same parameters', list(now) == [n for n, _ in self.params] and all(now[n] is p for n, p in self.params))
        for (n, p), v, t, g in zip(self.params, self.values, self.trainable, self.grads):
            B.ensure('what is trainable: ' + n, p.requires_grad == t)
            B.ensure('accumulated gradients: ' + n, p.grad is g)
            if dual_variable or p is not r.dual._lam:
                self.same('parameter values: ' + n, p, v)
        for (n, b), v in zip(self.buffers, self.buffer_values):
            self.same('buffers: ' + n, b, v)
        B.ensure('modes', all(m.training == t for m, t in self.modes))
        B.ensure('settings of the robust loss', (r.dual.erm_mode, r.dual.imp_samp) == self.flags)
        for n, t, v in self.data:
            self.same(n, t, v)


def build(B, rho, usual, imp_samp, erm=False, **kw):
    post = B.choice('post', [True, False])
    kw.setdefault('labels', (False, True))
    train, mode, hyper = B.choice('trainable, modes, hypertuning', [
        ('all', 'all', True), ('none', 'none', True), ('even', 'odd', False), ('odd', 'even', True), ('all', 'none', False)])
    r = Robust(B, post, rho, usual=usual, imp_samp=imp_samp, lam=B.tensor('lambda', (), nn=True), reductions=('mean',),
               sampler=sampler_for(B) if imp_samp else None, gradient_hypertuning=hyper, **kw)
    for k, m in enumerate((r.w.user_loss, r.w.user_model)):
        if m is not None:
            m.register_buffer('state', B.tensor(f'state {k}', (B.dim(f'b{k}'),)))
    train, mode = PATTERNS[train], PATTERNS[mode]
    for k, p in enumerate(r.dual.parameters()):
        p.requires_grad_(train(k))
    for k, m in enumerate(r.dual.modules()):
        m.training = mode(k)
    r.dual.erm_mode = erm
    return r


def evaluate(B, r):
    s = r.sampler
    if r.post:
        return r.dual(r.x, r.y, reset_sampler=B.choice('reset', [True, False]))
    if B.choice('samples', ['given', 'kept']) == 'kept':
        r.dual.zeta, r.dual.zeta_labels = s.x, s.y
        return r.dual(r.x, r.y)
    return r.dual(r.x, r.y, s.x, s.y)


@contract('C18', paths=4000)
def plain_evaluation(B):
    erm = B.choice('non-robust', [False, True])
    r = build(B, B.real('rho', gt=0), B.choice('cost', ['squared', 'any']) == 'squared', False, erm, models=('model',))
    st = State(B, r)
    evaluate(B, r)
    st.check()


@contract('C18', paths=4000)
def evaluation_with_importance_sampling(B):
    r = build(B, B.real('rho', gt=0), True, True)
    st = State(B, r)
    evaluate(B, r)
    st.check()


@contract('C18', paths=4000)
def starting_guess(B):
    imp_samp = B.choice('imp_samp', [False, True])
    r = build(B, B.real('rho', gt=0), imp_samp, imp_samp, models=('model',))
    st = State(B, r)
    r.dual.get_initial_guess_at_dual(r.x, r.y)
    st.check(dual_variable=False)


@contract('C18', paths=1000)
def several_evaluations(B):
    """an evaluation after a starting guess"""
    r = build(B, B.real('rho', gt=0), True, True, models=('none',), labels=(False,))
    st = State(B, r)
    r.dual.get_initial_guess_at_dual(r.x, r.y)
    evaluate(B, r)
    st.check(dual_variable=False)
