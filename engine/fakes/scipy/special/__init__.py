import numpy as np
from engine import symtensor as S


def expit(x):
    """the logistic function"""
    return np._sc(S.unary_f(S.e_fun(S._sigmoid), np._a(x)))


from engine.stubs import module_getattr as _mg
__getattr__ = _mg('scipy.special')
