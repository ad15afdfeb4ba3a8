"""Run-time side of C20: the documented programs, posed anew and solved to high accuracy."""
from contextlib import contextmanager
import math


@contextmanager
def recorded(B):
    """programs handed to cvxpy meanwhile"""
    seen = []
    if B.symbolic:
        yield seen
        return
    import cvxpy as cp
    old = cp.Problem.solve

    def solve(self, *a, **k):
        seen.append(self)
        return old(self, *a, **k)
    cp.Problem.solve = solve
    try:
        yield seen
    finally:
        cp.Problem.solve = old


def optimum(obj, cons):
    import cvxpy as cp
    p = cp.Problem(cp.Minimize(obj), cons)
    return resolve(p)


def resolve(p):
    import cvxpy as cp
    from engine.api import Skip
    try:
        v = p.solve(solver=cp.CLARABEL)
    except cp.SolverError:
        raise Skip('the optimiser gave up')
    if p.status != 'optimal':
        raise Skip('the optimiser gave up')
    return float(v)


def compare(B, seen, best, at, tol=2e-3):
    """the program posed has the documented optimal value, the decision returned is near optimal"""
    B.ensure('the decision is optimal', at <= best + tol * (1. + abs(best)))
    for p in seen or []:
        B.ensure_eq('optimal value of the program posed', resolve(p), best, rtol=1e-4, atol=1e-4)


def logistic(B, seen, X, y, rho, kappa, icpt, w, b, lam, val):
    import cvxpy as cp
    np = B.np
    n, d = X.shape
    W, c, L, s = cp.Variable(d), cp.Variable(), cp.Variable(), cp.Variable(n)
    m = cp.multiply(y, X @ W + c)
    cons = [cp.norm(W, 2) <= L, cp.logistic(m) - kappa * L <= s, cp.logistic(-m) <= s] + ([] if icpt else [c == 0])
    best = optimum(L * rho + cp.sum(s) / n, cons)
    lam, b = B.val(lam), B.val(b)
    mm = y * (X @ w + b)
    at = lam * rho + np.mean(np.maximum(np.logaddexp(0., -mm), np.logaddexp(0., mm) - kappa * lam))
    B.ensure('dual variable bounds the slope', np.linalg.norm(w) <= lam + 2e-3 * (1. + abs(lam)))
    B.ensure_eq('value returned', val, best, rtol=3e-3, atol=3e-3)
    compare(B, seen, best, at, 5e-3)


def regression(B, seen, X, y, rho, icpt, w, b):
    import cvxpy as cp
    np = B.np
    n, d = X.shape
    W, c = cp.Variable(d), cp.Variable()
    best = optimum(cp.norm(X @ W + c - y) / math.sqrt(n) + rho * cp.norm(W), [] if icpt else [c == 0])
    b = B.val(b)
    if not icpt:
        B.ensure_eq('no intercept', b, 0., atol=1e-5)
    compare(B, seen, best, np.linalg.norm(X @ w + b - y) / math.sqrt(n) + rho * np.linalg.norm(w), 1e-4)


def newsvendor(B, seen, z, k, u, rho, theta, value=None):
    np = B.np
    z = z[:, 0]
    t = B.val(theta)

    def cost(th):
        if rho is None:
            return k * th - u * np.mean(np.minimum(th, z))
        ls = np.concatenate([[0., u], u * th / z])
        return min(l * rho + k * th - np.mean(np.minimum(l * z, u * np.minimum(th, z)) if l < u else u * np.minimum(th, z)) for l in ls[ls <= u])
    best = min(cost(x) for x in np.concatenate([[0.], z]))
    B.ensure('an order is not negative', t >= -1e-5 * (1. + z.max()))
    compare(B, seen, best, cost(max(t, 0.)), 1e-4)
    if value is not None:
        B.ensure_eq('value returned', value, best, rtol=1e-4, atol=1e-4)


def portfolio(B, seen, X, C, d, a, b, q, rho, theta, tau, lam, val):
    import cvxpy as cp
    np = B.np
    n, m = X.shape
    d = np.asarray(d).reshape(-1)
    T, t, L, s = cp.Variable(m), cp.Variable(), cp.Variable(), cp.Variable(n)

    def cons(T, t, L, s):
        G = [cp.Variable((n, len(d))), cp.Variable((n, len(d)))]
        out = []
        for k in range(2):
            out += [b[k] * t + a[k] * (X @ T) + cp.sum(cp.multiply(G[k], d[None, :] - X @ C.T), axis=1) <= s, G[k] >= 0]
            out += [cp.norm(C.T @ G[k][i] - a[k] * T, q) <= L for i in range(n)]
        return out
    best = optimum(L * rho + cp.sum(s) / n, [cp.sum(T) == 1, T >= 0, L >= 0] + cons(T, t, L, s))
    lam, tau = B.val(lam), B.val(tau)
    B.ensure_eq('weights sum to one', theta.sum(), 1., atol=1e-5)
    B.ensure('no weight is negative', theta.min() >= -1e-5)
    B.ensure_eq('value returned', val, best, rtol=1e-4, atol=1e-4)
    th = np.maximum(theta, 0.)
    at = optimum(L * rho + cp.sum(s) / n, cons(th / th.sum(), tau, L, s) + [L <= lam * (1 + 1e-4) + 1e-4])
    compare(B, seen, best, at, 1e-3)
