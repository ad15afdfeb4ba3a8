from ._core import *
from ._core import (abs_ as abs, float_ as float, int_ as int, bool_ as bool, Tensor, Size, float16, float32, float64,
                    int8, int16, int32, int64, uint8, dtype, device, inf, nan, pi, e, max, min, sum, all, any, pow,
                    set_grad_enabled, no_grad, enable_grad, inference_mode)
FloatTensor = DoubleTensor = Tensor
__version__ = '2.15.0'
from . import nn, optim, distributions, func, linalg, utils, autograd, special, cuda, random
from . import funcs, _functorch
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('torch')
