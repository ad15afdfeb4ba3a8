from engine import symexec as SE
from engine.symexec import Unsupported


def seed(s=None):
    import torch
    torch._core.rng('numpy').seed(s)
    SE.run().ghost.setdefault('events', []).append(('np.seed', s))


class RandomState:
    def __init__(self, s=None):
        raise Unsupported('RandomState')


from engine.stubs import module_getattr as _mg
__getattr__ = _mg('numpy.random')
