from ..funcs import functional_call
