from . import base, utils, exceptions, preprocessing, model_selection, metrics, experimental
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('sklearn')
