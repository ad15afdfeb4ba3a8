"""Optimisers.  SGD follows its documented update.  The adaptive ones are only
known to read gradients and to replace the values of parameters that have one
(any value, unless the harness installs a finer contract)."""
from engine import symtensor as S, terms as T, symexec as SE
from engine.symexec import Unsupported
from .. import _core as C
from ..nn.modules import Module
from . import lr_scheduler


class Optimizer:
    def __init__(self, params, defaults):
        self.defaults = dict(defaults)
        self.state = {}
        self.param_groups = []
        self._post, self._pre = [], []
        params = list(params)
        if not params:
            raise ValueError('optimizer got an empty parameter list')
        if not isinstance(params[0], dict):
            params = [{'params': params}]
        for g in params:
            self.add_param_group(dict(g))
        SE.run().ghost.setdefault('optimizers', []).append(self)

    def add_param_group(self, g):
        ps = g['params']
        g['params'] = [ps] if isinstance(ps, C.Tensor) else list(ps)
        seen = set(id(p) for gg in self.param_groups for p in gg['params'])
        for p in g['params']:
            if not isinstance(p, C.Tensor):
                raise TypeError('optimizer can only optimize Tensors')
            if p._leaves:
                raise ValueError("can't optimize a non-leaf Tensor")
            if id(p) in seen:
                raise ValueError('some parameters appear in more than one parameter group')
        for k, v in self.defaults.items():
            g.setdefault(k, v)
        self.param_groups.append(g)

    def zero_grad(self, set_to_none=True):
        SE.run().ghost.setdefault('events', []).append(('zero_grad', self))
        for g in self.param_groups:
            for p in g['params']:
                p.grad = None

    def register_step_post_hook(self, h):
        self._post.append(h)
        return h

    def register_step_pre_hook(self, h):
        self._pre.append(h)
        return h

    def state_dict(self):
        return {'state': dict(self.state), 'param_groups': [{k: v for k, v in g.items() if k != 'params'} for g in self.param_groups]}

    def load_state_dict(self, sd):
        self.state = dict(sd['state'])
        for g, h in zip(self.param_groups, sd['param_groups']):
            g.update(h)

    def _closure(self, closure):
        if closure is None:
            return None
        with C.enable_grad():
            return closure()

    def step(self, closure=None):
        for h in self._pre:
            h(self, (closure,) if closure is not None else (), {})
        loss = self._closure(closure)
        SE.run().ghost.setdefault('events', []).append(('step', self))
        with C.no_grad():
            for g in self.param_groups:
                for p in g['params']:
                    if p.grad is not None:
                        self._update(g, p)
        for h in self._post:
            h(self, (closure,) if closure is not None else (), {})
        return loss

    def _update(self, g, p):
        r = SE.run()
        hook = r.ghost.get('update_hook')
        if hook is not None and hook(self, g, p):
            return
        k = self.state.setdefault(p, {'step': 0})
        k['step'] += 1
        nm = r.name(f'{type(self).__name__}.step[{p._name or "p"}]')
        new = C.symbolic_tensor(nm, p._shape, p.dtype)
        p._write_from(new)

    def __repr__(self):
        return type(self).__name__


class SGD(Optimizer):
    def __init__(self, params, lr=1e-3, momentum=0, dampening=0, weight_decay=0, nesterov=False, *, maximize=False, **k):
        super().__init__(params, dict(lr=lr, momentum=momentum, dampening=dampening, weight_decay=weight_decay,
                                      nesterov=nesterov, maximize=maximize))

    def _update(self, g, p):
        if SE.run().ghost.get('havoc_sgd'):
            return Optimizer._update(self, g, p)
        d = p.grad
        if g['maximize']:
            d = -d
        if g['weight_decay'] != 0:
            d = d + g['weight_decay'] * p
        if g['momentum'] != 0:
            st = self.state.setdefault(p, {})
            if 'buf' not in st:
                st['buf'] = d.clone()
            else:
                st['buf'] = g['momentum'] * st['buf'] + (1 - g['dampening']) * d
            d = d + g['momentum'] * st['buf'] if g['nesterov'] else st['buf']
        p._write_from(p - g['lr'] * d)


class _Adaptive(Optimizer):
    def __init__(self, params, lr=1e-3, **k):
        super().__init__(params, dict(lr=lr, **k))


class Adam(_Adaptive):
    def __init__(self, params, lr=1e-3, betas=(0.9, 0.999), eps=1e-8, weight_decay=0, amsgrad=False, **k):
        Optimizer.__init__(self, params, dict(lr=lr, betas=betas, eps=eps, weight_decay=weight_decay, amsgrad=amsgrad, **k))


class AdamW(Adam):
    def __init__(self, params, lr=1e-3, betas=(0.9, 0.999), eps=1e-8, weight_decay=1e-2, amsgrad=False, **k):
        super().__init__(params, lr, betas, eps, weight_decay, amsgrad, **k)


class RMSprop(_Adaptive):
    pass


class Adagrad(_Adaptive):
    pass


class LBFGS(Optimizer):
    def __init__(self, params, lr=1, max_iter=20, max_eval=None, tolerance_grad=1e-7, tolerance_change=1e-9,
                 history_size=100, line_search_fn=None):
        super().__init__(params, dict(lr=lr, max_iter=max_iter, max_eval=max_eval, tolerance_grad=tolerance_grad,
                                      tolerance_change=tolerance_change, history_size=history_size,
                                      line_search_fn=line_search_fn))
        if len(self.param_groups) != 1:
            raise ValueError("LBFGS doesn't support per-parameter options")

    def step(self, closure):
        for h in self._pre:
            h(self, (closure,), {})
        with C.enable_grad():
            loss = closure()
        SE.run().ghost.setdefault('events', []).append(('step', self))
        with C.no_grad():
            for g in self.param_groups:
                for p in g['params']:
                    if p.grad is not None:
                        self._update(g, p)
        for h in self._post:
            h(self, (closure,), {})
        return loss
