"""Estimators fitted with any outcome of the optimisation: the solver is replaced by one that leaves arbitrary
values in the model's parameters, and records what it was asked to solve."""
from contextlib import contextmanager

MODULES = {'LinearRegression': 'skwdro.linear_models._linear_regression', 'LogisticRegression': 'skwdro.linear_models._logistic_regression',
           'NewsVendor': 'skwdro.operations_research._newsvendor', 'Portfolio': 'skwdro.operations_research._portfolio',
           'Weber': 'skwdro.operations_research._weber'}


class Posed:
    """what the solver was asked to solve, and the values it left"""
    loss = data = rule = None
    draws = 0


@contextmanager
def replaced(B, name, **new):
    """the estimator's module, with functions of the solver modules it uses replaced"""
    m = B.repo(MODULES[name])
    places = [B.repo('skwdro.solvers.entropic_dual_torch'), B.repo('skwdro.solvers.specific_solvers'), m]
    old = [(p, k, getattr(p, k)) for p in places for k in new if hasattr(p, k)]
    for p, k, _ in old:
        setattr(p, k, new[k])
    try:
        yield m
    finally:
        for p, k, f in old:
            setattr(p, k, f)


def training(B, posed):
    res = B.repo('skwdro.solvers.result')

    @res.wrap_solver_result
    def solve_dual_wdro(loss, p_hat, opt):
        posed.loss, posed.data, posed.rule = loss, p_hat, opt
        posed.events = list(B.run.ghost.get('events', ())) if B.symbolic else None
        posed.initial = [B.snapshot(p.detach()) for p in loss.parameters()]
        if posed.draws:
            posed.drawn = [None if z is None else B.snapshot(z.detach()) for _ in range(posed.draws) for z in loss.sampler.sample(3)]
        with B.pt.no_grad():
            for k, p in enumerate(loss.primal_loss.parameters()):
                p.copy_(B.tensor(f'fitted {k}', tuple(p.shape)))
            loss._lam.copy_(B.tensor('fitted dual variable', tuple(loss._lam.shape), nn=True))
        posed.value = B.real('value of the robust problem')
        return B.np.array([0.]), None, loss.lam.detach().numpy().flatten(), posed.value
    return solve_dual_wdro


def fitted(B, name, args, X, y=None, posed=None):
    """an estimator whose training ended with arbitrary parameters"""
    with replaced(B, name, solve_dual_wdro=training(B, posed or Posed())) as m:
        return getattr(m, name)(**args).fit(X, y)
