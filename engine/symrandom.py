"""The random module for the repository code: seeding with a symbolic number is recorded; draws have no contract."""
import random as _r
from . import symexec as SE


def seed(a=None, version=2):
    SE.run().ghost.setdefault('events', []).append(('python seed', a))


def __getattr__(k):
    f = getattr(_r, k)
    if not callable(f) or isinstance(f, type):
        return f

    def g(*a, **kw):
        raise SE.Unsupported(f'random.{k}')
    return g
