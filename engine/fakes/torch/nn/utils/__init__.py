from . import parametrize
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('torch.nn.utils')
from ... import _core as C
from engine import symtensor as S


def parameters_to_vector(ps):
    return C.cat([p.reshape(-1) for p in ps])


def clip_grad_norm_(*a, **k):
    from engine.symexec import Unsupported
    raise Unsupported('clip_grad_norm_')


def clip_grad_value_(params, v, **k):
    params = [params] if isinstance(params, C.Tensor) else list(params)
    for p in params:
        if p.grad is not None:
            p.grad._write_from(C.clamp(p.grad, -v, v))
