from .._core import manual_seed, get_rng_state, set_rng_state, seed, initial_seed
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('torch.random')


class fork_rng:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        self.s = get_rng_state()

    def __exit__(self, *a):
        set_rng_state(self.s)
        return False
