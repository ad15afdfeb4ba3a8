"""Contracts: registry and the part of the harness interface both ways of
running a contract (symbolically, and on the real libraries) share."""
import importlib
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PROPS = ['C%02d' % i for i in range(1, 21)]


class Contract:
    def __init__(self, prop, name, fn, opts):
        self.prop, self.name, self.fn, self.opts = prop, name, fn, opts


REGISTRY = {}


def contract(prop, name=None, **opts):
    """a contract on real code.  opts:
    bounded=True   only checked at run time on the real code (never counted as proved)
    n=..           how many concrete runs in the quick tier
    dtypes=..      torch default dtype of concrete runs
    paths=..       path budget of the symbolic run"""
    def deco(fn):
        nm = name or fn.__name__
        REGISTRY.setdefault(prop, {})[nm] = Contract(prop, nm, fn, opts)
        return fn
    return deco


def load(prop):
    importlib.import_module(f'contracts.{prop.lower()}')
    return REGISTRY[prop]


class Skip(BaseException):
    """the drawn input does not satisfy the precondition"""


class Fail(BaseException):
    """an obligation failed on the real code"""
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail
