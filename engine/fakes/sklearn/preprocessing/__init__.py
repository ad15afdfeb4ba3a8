"""Encoders of class labels: classes sorted, codes are positions among them (labels come from the harness, with
their codes)."""
import numpy as np
from engine import symtensor as S
from engine.symexec import Unsupported


def _known(y):
    c = getattr(y, '_classes', None)
    if c is None:
        raise Unsupported('encoding of unknown labels')
    return c


class LabelEncoder:
    def fit(self, y):
        self.classes_ = _known(y)[0]
        return self

    def transform(self, y):
        return _known(y)[1]._copy()

    def fit_transform(self, y):
        return self.fit(y).transform(y)

    def inverse_transform(self, y):
        y = S.flatten(np._a(y))
        r = self.classes_[0]
        for k in range(1, len(self.classes_)):
            r = np.where(y == k, self.classes_[k], r)
        return r


class OneHotEncoder:
    def __init__(self, *, categories='auto', drop=None, sparse_output=True, dtype=None, handle_unknown='error'):
        if categories != 'auto' or drop is not None or sparse_output:
            raise Unsupported('options of OneHotEncoder')

    def fit(self, y):
        self.categories_ = [_known(y)[0]]
        return self

    def transform(self, y):
        c, codes = _known(y)
        return np.stack([np.where(codes == k, 1., 0.) for k in range(len(c))], axis=1)

    def fit_transform(self, y):
        return self.fit(y).transform(y)


from engine.stubs import module_getattr as _mg
__getattr__ = _mg('sklearn.preprocessing')
