"""check_X_y / check_array return the validated data unchanged (or refuse it)"""
import numpy as np
from engine import symtensor as S, symexec as SE
from ..._nf import NotFittedError


def check_array(X, **kw):
    if not isinstance(X, np.ndarray):
        X = np.array(X)
    nd = len(X._shape)
    if nd != 2 and kw.get('ensure_2d', True):
        raise ValueError(f'Expected 2D array, got {nd}D array instead')
    if nd >= 3 and not kw.get('allow_nd', False):
        raise ValueError('Found array with dim 3')
    if kw.get('dtype') not in (None, 'numeric') and X.dtype != S.as_dtype(kw['dtype']):
        X = S.cast(X, S.as_dtype(kw['dtype']))
    _finite(X)
    return X


def _finite(X):
    if X.dtype.kind == 'f' and not bool(S.bool_item(S.reduce_all(S.pred(S.e_isfinite, X)))):
        raise ValueError('Input contains NaN or infinity.')


def check_X_y(X, y, **kw):
    multi = kw.pop('multi_output', False)
    ynum = kw.pop('y_numeric', False)
    if y is None:
        raise ValueError('estimator requires y to be passed, but the target y is None')
    X = check_array(X, **kw)
    keep = getattr(y, '_classes', None)
    if not isinstance(y, np.ndarray):
        y = np.array(y)
    if not multi and len(y._shape) == 2:
        y = S.flatten(y)
    _finite(y)
    if keep is not None:
        y._classes = keep
    if not S.same_dim(X._shape[0], y._shape[0]):
        raise ValueError('Found input variables with inconsistent numbers of samples')
    return X, y


def check_is_fitted(est, attributes=None, msg=None, all_or_any=all):
    if attributes is not None:
        attributes = [attributes] if isinstance(attributes, str) else attributes
        fitted = all_or_any([hasattr(est, a) for a in attributes])
    else:
        fitted = any(v.endswith('_') and not v.startswith('__') for v in vars(est))
    if not fitted:
        raise NotFittedError('This estimator is not fitted yet.')


from engine.stubs import module_getattr as _mg
__getattr__ = _mg('sklearn.utils.validation')
