from engine.symexec import Unsupported


def unique_labels(*ys):
    h = getattr(ys[0], '_classes', None)
    if h is None:
        raise Unsupported('unique_labels of unknown labels')
    return h[0]._copy()


from engine.stubs import module_getattr as _mg
__getattr__ = _mg('sklearn.utils.multiclass')
