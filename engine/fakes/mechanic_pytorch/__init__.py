def mechanize(base, **kw):
    """an optimiser class that tunes the learning rate of another one"""
    return type('Mechanic' + base.__name__, (base,), {'_update': __import__('torch').optim.Optimizer._update})
