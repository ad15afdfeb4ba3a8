from ..funcs import functional_call, vmap, grad, jacrev, jacfwd, hessian, grad_and_value
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('torch.func')
