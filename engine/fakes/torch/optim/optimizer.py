from . import Optimizer
