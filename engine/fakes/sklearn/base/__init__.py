import inspect


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        sig = inspect.signature(cls.__init__)
        return sorted(p for p in sig.parameters if p != 'self')

    def get_params(self, deep=True):
        return {k: getattr(self, k) for k in self._get_param_names()}

    def set_params(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        return self


class ClassifierMixin:
    pass


class RegressorMixin:
    pass


class TransformerMixin:
    pass


def clone(e, safe=True):
    return type(e)(**e.get_params())


from engine.stubs import module_getattr as _mg
__getattr__ = _mg('sklearn.base')
