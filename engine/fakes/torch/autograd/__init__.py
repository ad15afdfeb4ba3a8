from engine.stubs import module_getattr as _mg
from .._core import no_grad, enable_grad, set_grad_enabled
__getattr__ = _mg('torch.autograd')


class Function:
    @classmethod
    def apply(cls, *a):
        raise_unsupported()


def raise_unsupported():
    from engine.symexec import Unsupported
    raise Unsupported('custom autograd function')
