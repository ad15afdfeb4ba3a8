from . import validation, multiclass, estimator_checks
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('sklearn.utils')
