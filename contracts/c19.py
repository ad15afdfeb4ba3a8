"""C19: the random seed alone determines the randomness of a fit."""
from engine.api import contract
from .c12 import Watched
from .c13 import Training
from .estimators import MODULES, Posed, fitted, replaced, training


def history(B, k):
    """whatever the process did before"""
    B.pt.manual_seed(B.int(f'earlier seed {k}', lo=0, hi=10 ** 6))
    B.pt.rand(3)
    B.pt.randn(2, 2)
    if not B.symbolic:
        import random
        random.seed(B.int(f'earlier python seed {k}', lo=0, hi=10 ** 6))
        B.np.random.rand(B.int(f'earlier draws {k}', lo=0, hi=5))


def data_for(B, name):
    n = B.dim('n', lo=2)
    d = 1 if name == 'NewsVendor' else B.dim('d')
    X = B.array('X', (n, d), nn=name == 'NewsVendor')
    if name == 'LogisticRegression':
        return X, B.class_labels('class', n, 2)[0]
    return X, B.array('y', (n,), nn=True) if name in ('LinearRegression', 'Weber') else None


def same(B, label, a, b):
    B.ensure(label + ' (number)', len(a) == len(b))
    for s, t in zip(a, b):
        B.ensure(label + ' (presence)', (s is None) == (t is None))
        if s is None:
            continue
        if len(s.shape) == 0:
            B.ensure_eq(label, s, B.val(t))
        else:
            B.ensure_tensor(label, s, tuple(t.shape), lambda *i: B.at(t, *i))


@contract('C19')
def starting_point_and_samples(B):
    name = B.choice('estimator', list(MODULES))
    args = {'solver': B.choice('solver', ['entropic_torch', 'entropic_torch_pre', 'entropic_torch_post']),
            'random_state': B.int('random_state', lo=0, hi=10 ** 6)}
    if name in ('LinearRegression', 'LogisticRegression'):
        args['fit_intercept'] = B.choice('fit_intercept', [True, False])
    args['n_zeta_samples'] = B.int('n_zeta_samples', lo=1, hi=5)
    X, y = data_for(B, name)
    again = B.choice('second fit', ['new estimator', 'same estimator'])
    runs = []
    e = None
    for k in range(2):
        history(B, k)
        p = Posed()
        p.draws = 2
        with replaced(B, name, solve_dual_wdro=training(B, p)) as m:
            if e is None or again == 'new estimator':
                e = getattr(m, name)(**args)
            e.fit(X, y)
        runs.append(p)
    same(B, 'same starting point', runs[0].initial, runs[1].initial)
    same(B, 'same samples', runs[0].drawn, runs[1].drawn)


@contract('C19', paths=3000)
def stopping_rules_forget(B):
    """a rule that served in earlier runs decides like a new one (its decisions are compared, and not obeyed)"""
    cond = B.repo('skwdro.solvers.optim_cond').OptCondTorch
    kw = {'metric': B.choice('metric', ['grad', 'param']), 'mode': B.choice('mode', ['rel', 'abs']),
          'monitoring': B.choice('monitoring', ['theta', 'lambda', 'both'])}
    tols = (B.real('tol theta', gt=0), B.real('tol lambda', gt=0))
    looks = []

    class Compared(cond):
        def __call__(rule, loss, it):
            stop = cond.__call__(rule, loss, it)
            looks.append((stop, fresh(loss, it)))
            return False
    rule, fresh = Compared(2, *tols, **kw), cond(2, *tols, **kw)
    w = Watched(B)
    for k in range(3):
        w.look(k)
        cond.__call__(rule, w.dual, k)
    t = Training(B, B.choice('budget', [1, 3]), post=B.choice('post', [True, False]), nan=lambda k: False, stop=None, settings=1)
    t.rule = rule
    t.run()
    B.ensure('the rule looked', len(looks) > 0)
    for a, b in looks:
        B.ensure('decision', B.iff(a, b))


@contract('C19', bounded=True, n=60)
def whole_fits(B):
    """two real fits with different histories end with the same values"""
    name = B.choice('estimator', list(MODULES))
    args = {'solver': B.choice('solver', ['entropic_torch', 'entropic_torch_pre', 'entropic_torch_post', 'dedicated' if name != 'Weber' else 'torch']),
            'random_state': B.int('random_state', lo=0, hi=10 ** 6), 'n_iter': B.int('n_iter', lo=1, hi=12), 'rho': B.real('rho', gt=0, hi=1)}
    X, y = data_for(B, name)
    m = B.repo(MODULES[name])
    e = None
    again = B.choice('second fit', ['new estimator', 'same estimator'])
    runs = []
    for k in range(2):
        history(B, k)
        if e is None or again == 'new estimator':
            e = getattr(m, name)(**args)
        if k and B.choice('other fit in between', [True, False]):
            getattr(m, name)(**dict(args, random_state=args['random_state'] + 1, rho=2.)).fit(X, y)
        e.fit(X, y)
        runs.append([B.np.array(v, dtype=float).flatten() for v in (e.coef_, getattr(e, 'intercept_', None), e.dual_var_) if v is not None])
    B.ensure('same result', all(B.np.array_equal(a, b, equal_nan=True) for a, b in zip(*runs)))
