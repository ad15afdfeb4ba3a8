from .._core import sigmoid as expit, logsumexp, log1p, expm1, softmax, log_softmax
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('torch.special')
