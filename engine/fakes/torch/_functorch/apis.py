from ..funcs import vmap, grad, grad_and_value
