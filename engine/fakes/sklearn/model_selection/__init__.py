from engine.stubs import module_getattr as _mg
__getattr__ = _mg('sklearn.model_selection')
