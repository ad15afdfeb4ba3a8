"""Contracts of torch.nn: module bookkeeping and the layers used."""
from collections import OrderedDict
import math
from engine import symtensor as S, terms as T, symexec as SE
from engine.symexec import Unsupported
from engine.symval import mkint, mkreal
from .. import _core as C
from .._core import Tensor, Parameter
from . import functional as F


class Buffer(Tensor):
    pass


class Module:
    training: bool

    def __init__(self, *a, **k):
        object.__setattr__(self, '_parameters', OrderedDict())
        object.__setattr__(self, '_buffers', OrderedDict())
        object.__setattr__(self, '_modules', OrderedDict())
        object.__setattr__(self, '_fwd_pre', [])
        object.__setattr__(self, '_fwd_post', [])
        object.__setattr__(self, 'training', True)

    def __setattr__(self, k, v):
        d = self.__dict__
        if isinstance(v, Parameter):
            if '_parameters' not in d:
                raise AttributeError('cannot assign parameters before Module.__init__() call')
            for o in (d, d['_buffers'], d['_modules']):
                o.pop(k, None)
            d['_parameters'][k] = v
            if v._name is None:
                v._name = k
            return
        if '_parameters' in d and k in d['_parameters']:
            if v is not None:
                raise TypeError(f"cannot assign '{type(v).__name__}' as parameter '{k}' (torch.nn.Parameter or None expected)")
            d['_parameters'][k] = None
            return
        if isinstance(v, Module):
            if '_modules' not in d:
                raise AttributeError('cannot assign module before Module.__init__() call')
            for o in (d, d['_parameters'], d['_buffers']):
                o.pop(k, None)
            d['_modules'][k] = v
            return
        if '_modules' in d and k in d['_modules']:
            if v is not None:
                raise TypeError(f"cannot assign '{type(v).__name__}' as child module '{k}'")
            d['_modules'][k] = None
            return
        if '_buffers' in d and k in d['_buffers']:
            d['_buffers'][k] = v
            return
        object.__setattr__(self, k, v)

    def __getattr__(self, k):
        d = self.__dict__
        for n in ('_parameters', '_buffers', '_modules'):
            o = d.get(n)
            if o is not None and k in o:
                return o[k]
        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{k}'")

    def __delattr__(self, k):
        for n in ('_parameters', '_buffers', '_modules'):
            if k in self.__dict__[n]:
                del self.__dict__[n][k]
                return
        object.__delattr__(self, k)

    def register_parameter(self, k, p):
        self._parameters[k] = p
        if p is not None and p._name is None:
            p._name = k

    def register_buffer(self, k, t, persistent=True):
        self._buffers[k] = t

    def register_module(self, k, m):
        self._modules[k] = m

    add_module = register_module

    def register_forward_pre_hook(self, h, **k):
        self._fwd_pre.append(h)

    def register_forward_hook(self, h, **k):
        self._fwd_post.append(h)

    def __call__(self, *a, **k):
        for h in self._fwd_pre:
            r = h(self, a)
            if r is not None:
                a = r if isinstance(r, tuple) else (r,)
        out = self.forward(*a, **k)
        for h in self._fwd_post:
            r = h(self, a, out)
            if r is not None:
                out = r
        return out

    def forward(self, *a, **k):
        raise NotImplementedError(f'Module [{type(self).__name__}] is missing the required "forward" function')

    def children(self):
        for _, m in self.named_children():
            yield m

    def named_children(self):
        memo = set()
        for k, m in self._modules.items():
            if m is not None and id(m) not in memo:
                memo.add(id(m))
                yield k, m

    def named_modules(self, memo=None, prefix='', remove_duplicate=True):
        memo = set() if memo is None else memo
        if id(self) not in memo:
            memo.add(id(self))
            yield prefix, self
            for k, m in self._modules.items():
                if m is None:
                    continue
                yield from m.named_modules(memo, prefix + ('.' if prefix else '') + k)

    def modules(self):
        for _, m in self.named_modules():
            yield m

    def _named(self, which, prefix='', recurse=True, remove_duplicate=True):
        memo = set()
        mods = self.named_modules(prefix=prefix) if recurse else [(prefix, self)]
        for pre, m in mods:
            for k, v in getattr(m, which).items():
                if v is None or (remove_duplicate and id(v) in memo):
                    continue
                memo.add(id(v))
                yield pre + ('.' if pre else '') + k, v

    def named_parameters(self, prefix='', recurse=True, remove_duplicate=True):
        return self._named('_parameters', prefix, recurse, remove_duplicate)

    def parameters(self, recurse=True):
        for _, p in self.named_parameters(recurse=recurse):
            yield p

    def named_buffers(self, prefix='', recurse=True, remove_duplicate=True):
        return self._named('_buffers', prefix, recurse, remove_duplicate)

    def buffers(self, recurse=True):
        for _, b in self.named_buffers(recurse=recurse):
            yield b

    def train(self, mode=True):
        if not isinstance(mode, bool):
            raise ValueError('training mode is expected to be boolean')
        self.training = mode
        for m in self.children():
            m.train(mode)
        return self

    def eval(self):
        return self.train(False)

    def requires_grad_(self, rg=True):
        for p in self.parameters():
            p.requires_grad_(rg)
        return self

    def zero_grad(self, set_to_none=True):
        for p in self.parameters():
            p.grad = None

    def to(self, *a, **k):
        return self

    def double(self):
        return self

    def float(self):
        return self

    def cpu(self):
        return self

    def apply(self, f):
        for m in self.children():
            m.apply(f)
        f(self)
        return self

    def state_dict(self, *a, **k):
        out = OrderedDict()
        for n, p in self.named_parameters():
            out[n] = p.detach()
        for n, p in self.named_buffers():
            out[n] = p.detach()
        return out

    def load_state_dict(self, sd, strict=True, assign=False):
        mine = dict(self.named_parameters())
        mine.update(dict(self.named_buffers()))
        with C.no_grad():
            for k, v in sd.items():
                mine[k].copy_(v)

    def get_submodule(self, path):
        m = self
        for k in path.split('.') if path else []:
            m = getattr(m, k)
        return m

    def get_parameter(self, path):
        pre, _, k = path.rpartition('.')
        return self.get_submodule(pre)._parameters[k]

    def extra_repr(self):
        return ''

    def _get_name(self):
        return type(self).__name__

    def __repr__(self):
        return f'{type(self).__name__}()'

    def __dir__(self):
        return list(object.__dir__(self)) + list(self._parameters) + list(self._buffers) + list(self._modules)

    def compile(self, *a, **k):
        pass


class Identity(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, x):
        return x


class Sequential(Module):
    def __init__(self, *ms):
        super().__init__()
        if len(ms) == 1 and isinstance(ms[0], OrderedDict):
            for k, m in ms[0].items():
                self._modules[k] = m
        else:
            for i, m in enumerate(ms):
                self._modules[str(i)] = m

    def forward(self, x):
        for m in self._modules.values():
            x = m(x)
        return x

    def __getitem__(self, i):
        return list(self._modules.values())[i]

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())


class ModuleList(Module):
    def __init__(self, ms=()):
        super().__init__()
        for i, m in enumerate(ms):
            self._modules[str(i)] = m

    def __getitem__(self, i):
        return list(self._modules.values())[i]

    def __iter__(self):
        return iter(self._modules.values())

    def __len__(self):
        return len(self._modules)

    def append(self, m):
        self._modules[str(len(self._modules))] = m


class ModuleDict(Module):
    def __init__(self, ms=None):
        super().__init__()
        for k, m in (ms or {}).items():
            self._modules[k] = m

    def __getitem__(self, k):
        return self._modules[k]

    def keys(self):
        return self._modules.keys()

    def values(self):
        return self._modules.values()

    def items(self):
        return self._modules.items()


class ParameterList(Module):
    def __init__(self, ps=()):
        super().__init__()
        for i, p in enumerate(ps):
            self._parameters[str(i)] = p

    def __getitem__(self, i):
        return list(self._parameters.values())[i]

    def __iter__(self):
        return iter(self._parameters.values())

    def __len__(self):
        return len(self._parameters)


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        # initial values are drawn from the global generator
        w = C.draw('linear_weight', (S.dimp(out_features), S.dimp(in_features)))
        self.weight = Parameter(w)
        if bias:
            self.bias = Parameter(C.draw('linear_bias', (S.dimp(out_features),)))
        else:
            self.register_parameter('bias', None)

    def reset_parameters(self):
        raise Unsupported('reset_parameters')

    def forward(self, x):
        return F.linear(x, self.weight, self.bias)


def _act(name, f):
    class A(Module):
        def __init__(self, *a, **k):
            super().__init__()

        def forward(self, x):
            return f(x)
    A.__name__ = A.__qualname__ = name
    return A


Tanh = _act('Tanh', lambda x: C.tanh(x))
ReLU = _act('ReLU', lambda x: C.relu(x))
Sigmoid = _act('Sigmoid', lambda x: C.sigmoid(x))
LogSigmoid = _act('LogSigmoid', lambda x: C.logsigmoid(x))
Softplus = _act('Softplus', lambda x: C.softplus(x))


class Softmax(Module):
    def __init__(self, dim=None):
        super().__init__()
        self.dim = dim

    def forward(self, x):
        return S.softmax(x, self.dim)


class LogSoftmax(Softmax):
    def forward(self, x):
        return S.softmax(x, self.dim, log=True)


class Flatten(Module):
    def __init__(self, start_dim=1, end_dim=-1):
        super().__init__()
        self.s, self.e = start_dim, end_dim

    def forward(self, x):
        return S.flatten(x, self.s, self.e)


class Dropout(Module):
    def __init__(self, p=.5, inplace=False):
        super().__init__()

    def forward(self, x):
        if self.training:
            raise Unsupported('dropout in training mode')
        return x


class _Loss(Module):
    def __init__(self, size_average=None, reduce=None, reduction='mean'):
        super().__init__()
        self.reduction = reduction


class MSELoss(_Loss):
    def forward(self, a, b):
        return F.mse_loss(a, b, reduction=self.reduction)


class L1Loss(_Loss):
    def forward(self, a, b):
        return F.l1_loss(a, b, reduction=self.reduction)


class SoftMarginLoss(_Loss):
    def forward(self, a, b):
        return F.soft_margin_loss(a, b, reduction=self.reduction)


class HuberLoss(_Loss):
    def __init__(self, reduction='mean', delta=1.0):
        super().__init__(reduction=reduction)
        self.delta = delta

    def forward(self, a, b):
        return F.huber_loss(a, b, reduction=self.reduction, delta=self.delta)


class BCEWithLogitsLoss(_Loss):
    def forward(self, a, b):
        return F.binary_cross_entropy_with_logits(a, b, reduction=self.reduction)


class CrossEntropyLoss(_Loss):
    def __init__(self, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction='mean', label_smoothing=0.0):
        super().__init__(reduction=reduction)

    def forward(self, a, b):
        return F.cross_entropy(a, b, reduction=self.reduction)
