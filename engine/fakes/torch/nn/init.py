from .. import _core as C
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('torch.nn.init')


def zeros_(t):
    with C.no_grad():
        return t.fill_(0.0)


def ones_(t):
    with C.no_grad():
        return t.fill_(1.0)


def constant_(t, v):
    with C.no_grad():
        return t.fill_(v)


def normal_(t, mean=0., std=1., generator=None):
    with C.no_grad():
        return t.normal_(mean, std)


def uniform_(t, a=0., b=1., generator=None):
    with C.no_grad():
        return t.uniform_(a, b)
