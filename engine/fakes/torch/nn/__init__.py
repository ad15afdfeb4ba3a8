from .modules import *
from .modules import Module, Parameter
from . import functional, init, utils, modules
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('torch.nn')
