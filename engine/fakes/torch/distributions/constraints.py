class Constraint:
    is_discrete = False
    event_dim = 0

    def __init__(self, name='', event_dim=0):
        self.name, self.event_dim = name, event_dim

    def check(self, v):
        import torch
        return torch.isfinite(v) if self.event_dim == 0 else torch.isfinite(v).all(-1)


real = Constraint('real')
real_vector = Constraint('real_vector', 1)
positive = Constraint('positive')
nonnegative = Constraint('nonnegative')
unit_interval = Constraint('unit_interval')
boolean = Constraint('boolean')
positive_definite = Constraint('positive_definite', 2)
lower_cholesky = Constraint('lower_cholesky', 2)
simplex = Constraint('simplex', 1)
dependent = Constraint('dependent')
dependent_property = property


def __getattr__(k):
    if k.startswith('__'):
        raise AttributeError(k)
    return Constraint(k)
