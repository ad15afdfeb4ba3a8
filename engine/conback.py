"""Harness interface, run-time side: the same contracts, executed on the real
libraries with concrete inputs (cross-check of the proofs, replay of
counterexamples, and the labelled stand-in where no proof is available)."""
import importlib
import math
import random as _random
import numpy as np
import torch
from .api import Fail, Skip

RTOL, ATOL = 2e-5, 2e-7


class RowFn:
    """a fixed smooth function of whole rows, standing for a user's loss or model"""

    def __init__(self, B, name, nn=False):
        self.B, self.name, self.nn = B, name, nn
        self.h = sum((i + 1) * ord(ch) for i, ch in enumerate(name)) % 97

    def _s(self, m, c, j, xs):
        """per input score; xs list of numbers or tensors"""
        h = self.h
        s = 0.
        for k, x in enumerate(xs):
            a = .3 + ((h + 7 * j + 3 * k + 5 * c) % 11) / 10.
            s = s + a * m.sin(x * (1. + .1 * k) + .1 * h + .7 * c) + .2 * x
        return s

    def _mix(self, ss):
        out = 0.
        for j, s in enumerate(ss):
            out = out + (1. + .3 * j) * s + .25 * s * ss[(j + 1) % len(ss)]
        return out * out if self.nn else out

    def value(self, c, *rows):
        return self._mix([self._s(math, int(c), j, [float(f(k)) for k in range(int(n))]) for j, (n, f) in enumerate(rows)])

    def tensor(self, out, *ts, params=None):
        ts = [t for t in ts if t is not None]
        for t in ts:
            if t.shape[:-1] != ts[0].shape[:-1]:
                raise RuntimeError('user function: inputs disagree on their leading dimensions')

        def col(c):
            ss = [self._s(torch, c, j, [t[..., k] for k in range(t.shape[-1])]) for j, t in enumerate(ts)]
            if params is not None:
                ss.append(self._s(torch, c, len(ts), [params[k] for k in range(params.shape[0])]))
            return self._mix(ss)
        return col(0) if out is None else torch.stack([col(c) for c in range(int(out))], dim=-1)


class ConB:
    symbolic = False
    inf, nan = math.inf, math.nan

    def __init__(self, seed, opts=None, override=None, tier='quick'):
        self.opts = opts or {}
        self.r = _random.Random(seed)
        self.np_r = np.random.RandomState(self.r.randrange(2 ** 31))
        self.over = override or {}
        self.scal = self.over.get('scalars', {})
        self.choices_over = self.over.get('choices', {})
        self.entries = {}
        for k, v in self.over.get('entries', []):
            self.entries.setdefault(k[0].rstrip("'"), {})[tuple(k[1:])] = v
        self.used = {}
        self.labels = {}
        self.tier = tier
        self.pt, self.np = torch, np
        torch.manual_seed(self.r.randrange(2 ** 31))
        np.random.seed(self.r.randrange(2 ** 31))
        self.scale = self.r.choice([1., 1., 1., .1, 3.])
        # a tenth of the runs use small whole numbers only: ties, cancellations
        self.grid = self.r.random() < .1
        self.zero_rate = self.r.choice([0., 0., 0., .1, .5])

    # ---- inputs
    def _rec(self, name, v):
        self.used[name] = v
        return v

    def dim(self, name, lo=1):
        if name in self.scal:
            v = int(self.scal[name])
            if v > 9:
                raise Skip('dimension too large to replay')
            return self._rec(name, max(v, lo))
        return self._rec(name, max(lo, self.r.choice([1, 2, 2, 3, 3, 4, 5])))

    def int(self, name, lo=None, hi=None):
        if name in self.scal:
            return self._rec(name, int(self.scal[name]))
        l = -4 if lo is None else lo
        h = l + 8 if hi is None else min(hi, l + 8)
        return self._rec(name, self.r.randint(l, h))

    def real(self, name, lo=None, hi=None, gt=None, lt=None, live=False, wide=False):
        if name in self.scal and abs(self.scal[name]) < 1e14:
            v = float(self.scal[name])
        else:
            v = None
            for _ in range(50):
                m = self.r.random()
                x = self.r.gauss(0, 1) * (10 if m < .1 else .1 if m < .25 else 1)
                if m > .97:
                    x = 0.
                elif wide and m > .75:
                    x *= self.r.choice([1e-12, 1e-9, 1e-7, 1e-5, 1e4, 1e8])
                elif self.grid:
                    x = float(round(2 * x))
                if (lo is not None and lo >= 0) or (gt is not None and gt >= 0):
                    x = abs(x) + max(lo or 0., gt or 0.) * self.r.choice([0, 1])
                if hi is not None and lo is not None or (gt is not None and lt is not None) or (gt is not None and hi is not None):
                    a = lo if lo is not None else gt
                    b = hi if hi is not None else lt
                    x = a + (b - a) * self.r.random()
                if self._ok(x, lo, hi, gt, lt):
                    v = x
                    break
            if v is None:
                raise Skip(name)
        if not self._ok(v, lo, hi, gt, lt):
            raise Skip(name)
        return self._rec(name, v)

    @staticmethod
    def _ok(x, lo, hi, gt, lt):
        return ((lo is None or x >= lo) and (hi is None or x <= hi) and (gt is None or x > gt) and (lt is None or x < lt))

    def numeral(self, name, usual=(), **bounds):
        u = self.choice('numeral ' + name, list(usual) + [None])
        if u is not None:
            return float(u), u
        v = round(self.real(name, **bounds), 6)
        if not self._ok(v, *[bounds.get(k) for k in ('lo', 'hi', 'gt', 'lt')]):
            raise Skip(name)
        t = f'{v:.6f}'
        self.used[name] = v
        return float(t), t

    def bool(self, name):
        for k in (name, (name,), f'{name}'):
            if k in self.scal:
                return self._rec(name, bool(self.scal[k]))
        return self._rec(name, self.r.random() < .5)

    def choice(self, name, values):
        values = list(values)
        if name in self.choices_over:
            k = self.choices_over[name]
        else:
            k = self.r.randrange(len(values))
        self.used['choice:' + name] = k
        return values[k]

    def _entries(self, name, shape, nn=False, pos=False, lo=None, hi=None):
        shape = tuple(int(d) for d in shape)
        a = np.asarray(self.np_r.randn(*shape)) * self.scale
        if self.r.random() < .15 and a.size:
            a = np.where(self.np_r.rand(*shape) < .4, 0., a)
        if self.grid:
            a = self.np_r.randint(-1, 2, size=shape) * 1.
        elif self.r.random() < .1 and a.size:
            a = np.round(a)
        if self.r.random() < self.zero_rate:
            a = a * 0.
        if nn or pos:
            a = np.abs(a)
        if pos:
            a = a + .05
        if lo is not None and hi is not None:
            a = lo + (hi - lo) * self.np_r.rand(*shape)
        elif lo is not None:
            a = lo + np.abs(a)
        elif hi is not None:
            a = hi - np.abs(a)
        a = np.asarray(a, dtype=float)
        for k, v in self.entries.get(name, {}).items():
            try:
                if abs(v) < 1e12 and len(k) == a.ndim and all(0 <= i < d for i, d in zip(k, shape)):
                    a[tuple(int(i) for i in k)] = v
            except TypeError:
                pass
        self.used[name] = a.tolist()
        return a

    def tensor(self, name, shape, nn=False, pos=False, lo=None, hi=None, requires_grad=False, live=False, dtype=None):
        t = torch.tensor(self._entries(name, shape, nn, pos, lo, hi), dtype=torch.get_default_dtype())
        t = t.reshape(tuple(int(d) for d in shape))
        if requires_grad:
            t.requires_grad_()
        return t

    def int_tensor(self, name, shape, lo=None, hi=None):
        shape = tuple(int(d) for d in shape)
        a = self.np_r.randint(lo if lo is not None else -3, (hi if hi is not None else 3) + 1, size=shape)
        for k, v in self.entries.get(name, {}).items():
            if len(k) == a.ndim and all(0 <= i < d for i, d in zip(k, shape)):
                a[tuple(int(i) for i in k)] = int(v)
        self.used[name] = a.tolist()
        return torch.tensor(a)

    def array(self, name, shape, nn=False, pos=False, lo=None, hi=None):
        return self._entries(name, shape, nn, pos, lo, hi)

    def class_labels(self, name, n, classes):
        cs = sorted(self.int(f'{name} {k}', lo=-9, hi=9) for k in range(classes))
        if any(a == b for a, b in zip(cs, cs[1:])):
            raise Skip('labels')
        c = self.np_r.randint(0, classes, size=int(n))
        if n < classes:
            raise Skip('labels')
        c[self.np_r.permutation(int(n))[:classes]] = range(classes)
        self.used[name] = c.tolist()
        return np.array(cs)[c], (lambda i: int(c[int(i)])), cs

    def sign_tensor(self, name, shape):
        shape = tuple(int(d) for d in shape)
        a = self.np_r.choice([-1., 1.], size=shape)
        self.used[name] = a.tolist()
        return torch.tensor(a, dtype=torch.get_default_dtype())

    def param(self, name, shape, live=True, **kw):
        return torch.nn.Parameter(self.tensor(name, shape, **kw))

    def deterministic_updates(self):
        """nothing to install: the real optimisers run"""

    def loop_rule(self, havoc, done):
        """loops simply run"""

    def each_rule(self):
        """loops simply run"""

    def sorted_column(self, name, n, pos=False):
        return np.sort(self.array(name, (n, 1), pos=pos), axis=0)

    def gradient(self, label, f, module):
        """back-propagation agrees with finite differences of the value"""
        self._lab(label)
        if self.grid:
            return      # likely to sit on a kink
        ps = [p for p in module.parameters() if p.requires_grad]
        for p in ps:
            p.grad = None
        f().sum().backward()
        for p in ps:
            g = torch.zeros_like(p) if p.grad is None else p.grad.clone()
            for k in range(p.numel()):
                ds, top = [], 0.
                for h in (1e-5, 4e-6, 2.3e-5):
                    v = []
                    for s in (h, -h):
                        with torch.no_grad():
                            old = p.flatten()[k].item()
                            p.view(-1)[k] = old + s
                            v.append(f().sum().item())
                            p.view(-1)[k] = old
                    ds.append((v[0] - v[1]) / (2 * h))
                    top = max(top, abs(v[0]), abs(v[1]))
                if not all(map(math.isfinite, ds)):
                    continue
                d, got = ds[0], g.flatten()[k].item()
                if max(abs(d), abs(got), top) > 1e5:
                    continue    # differences say nothing at this scale
                # how far the differences can be trusted: their spread, and rounding of the value
                doubt = 10 * (max(ds) - min(ds)) + 1e-9 * top
                if abs(d - got) > 1e-3 + 1e-3 * abs(d) + doubt:
                    raise Fail(label, f'derivative {got!r}, finite difference {d!r}')
            p.grad = None

    def frozen(self, x):
        return x

    def derivative(self, f, pos, *rows):
        pt = [[float(g(k)) for k in range(int(n))] for n, g in rows]

        def at(k, h):
            q = [list(r) for r in pt]
            q[pos][int(k)] += h
            return float(f(*[lambda j, r=r: r[int(j)] for r in q]))

        def val(k):
            h = 1e-3
            return (8 * (at(k, h) - at(k, -h)) - (at(k, 2 * h) - at(k, -2 * h))) / (12 * h)
        return val, lambda k: math.isfinite(val(k))

    def index(self, name, n):
        if name in self.scal:
            return self._rec(name, min(int(self.scal[name]), int(n) - 1))
        return self._rec(name, self.r.randrange(int(n)))

    def same_state(self, label, a, b):
        self._lab(label)

    def spd(self, name, d):
        a = self.np_r.randn(int(d), int(d))
        a = a @ a.T + .5 * np.eye(int(d))
        self.used[name] = a.tolist()
        return torch.tensor(a, dtype=torch.get_default_dtype())

    def tril(self, name, d):
        a = np.tril(self.np_r.randn(int(d), int(d)), -1) + np.diag(.2 + self.np_r.rand(int(d)))
        self.used[name] = a.tolist()
        return torch.tensor(a, dtype=torch.get_default_dtype())

    def rowfn(self, name, nn=False):
        return RowFn(self, name, nn)

    def repo(self, mod):
        return importlib.import_module(mod)

    # ---- assumptions, obligations
    def assume(self, c):
        if not c:
            raise Skip('precondition')

    def branch(self, c):
        return bool(c)

    def _lab(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def many(self, name, lo=1):
        return self._rec(name, 3000)

    def ensure_law(self, label, t, shape, law, loc, scale=None, mix=None, p=None):
        """statistical test at seven standard errors"""
        self.ensure_shape(label + ' (shape)', t, shape)
        self._lab(label)
        a = t.detach().cpu().numpy().astype(float)
        n = a.shape[0]
        se = 7. / math.sqrt(n)
        m = np.array([[[float(loc(0, i, k)) for k in range(a.shape[2])] for i in range(a.shape[1])]]).reshape((1,) + a.shape[1:])
        if law == 'flip':
            ok = np.isclose(a, m) | np.isclose(a, -m)
            if not ok.all():
                raise Fail(label, 'a label that is neither kept nor flipped')
            nz = np.abs(m[0]) > 1e-9
            f = np.isclose(a, m).mean(0)
            if (np.abs(f - p)[nz] > se * .5 + 1e-9).any():
                raise Fail(label, f'labels kept with frequency {f.tolist()}, expected {p}')
            z = (np.isclose(a, m) - p)[:, nz] / max(math.sqrt(p * (1 - p)), 1e-9)
            if min(p, 1 - p) < 1e-3:
                return a
        else:
            if mix is not None:
                L = np.array([[float(mix(0, 0, k, c)) for c in range(a.shape[2])] for k in range(a.shape[2])])
                z = np.einsum('kc,jic->jik', np.linalg.inv(L), a - m)
            else:
                s = np.array([[[float(scale(0, i, k)) for k in range(a.shape[2])] for i in range(a.shape[1])]])
                z = (a - m) / s
            lap = law == 'laplace'
            sd = math.sqrt(2.) if lap else 1.
            if (np.abs(z.mean(0)) > se * sd).any():
                raise Fail(label, f'not centred: mean offset {z.mean(0).tolist()} spreads')
            if not isinstance(law, tuple):
                if (np.abs(z.std(0) / sd - 1.) > se * (1.2 if lap else .75)).any():
                    raise Fail(label, f'spread ratio {(z.std(0) / sd).tolist()}, expected 1')
                if (np.abs(np.abs(z).mean(0) - (1. if lap else .79788)) > se).any():
                    raise Fail(label, 'wrong family of distributions')
            z = z.reshape(n, -1) / sd
        if z.shape[1] > 1:
            c = np.abs(z.T @ z / n - np.diag((z * z).mean(0)))
            if (c > se * 1.5).any():
                raise Fail(label, 'entries are correlated: not independent draws')
        if z.shape[1] and (np.abs((z[1:] * z[:-1]).mean(0)) > se * 1.5).any():
            raise Fail(label, 'successive draws are correlated')
        return z

    def ensure_apart(self, label, a, b):
        self._lab(label)
        if a.shape[1:] and b.shape[1:] and (np.abs(a.reshape(len(a), -1).T @ b.reshape(len(b), -1)) / len(a) > 10. / math.sqrt(len(a))).any():
            raise Fail(label, 'the two are correlated')

    def ensure(self, label, c, grad=False, soft=False):
        self._lab(label)
        if not bool(c):
            raise Fail(label, 'condition is false')

    def close(self, a, b, rtol=RTOL, atol=ATOL):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))

    def ensure_eq(self, label, a, b, grad=False, rtol=RTOL, atol=ATOL):
        self._lab(label)
        a, b = self.val(a), self.val(b)
        if not self.close(a, b, rtol, atol):
            raise Fail(label, f'got {a!r}, expected {b!r}')

    def ensure_shape(self, label, t, shape):
        self._lab(label)
        sh = tuple(getattr(t, 'shape', ('no shape', type(t).__name__)))
        if sh != tuple(int(d) for d in shape):
            raise Fail(label, f'shape {sh}, expected {tuple(shape)}')

    def ensure_tensor(self, label, t, shape, fn, grad=False, rtol=RTOL, atol=ATOL):
        self.ensure_shape(label + ' (shape)', t, shape)
        self._lab(label)
        a = t.detach().cpu().numpy() if isinstance(t, torch.Tensor) else np.asarray(t)
        a = a.astype(float)
        for idx in np.ndindex(*a.shape):
            w = self.val(fn(*idx))
            if not self.close(a[idx], w, rtol, atol):
                raise Fail(label, f'entry {idx}: got {a[idx]!r}, expected {w!r}')

    def ensure_all(self, label, shape, fn):
        self._lab(label)
        for idx in np.ndindex(*[int(d) for d in shape]):
            if not fn(*idx):
                raise Fail(label, f'fails at index {idx}')

    def raises(self, fn, *excs):
        try:
            fn()
        except excs or (Exception,) as e:
            return e
        return None

    def unreachable(self, label, detail=''):
        self._lab(label)
        raise Fail(label, detail)

    # ---- reading
    def at(self, t, *idx):
        return float(t[tuple(int(i) for i in idx)]) if idx else float(t)

    def val(self, x):
        if isinstance(x, torch.Tensor):
            return float(x.detach().reshape(()).item()) if x.numel() == 1 else math.nan
        if isinstance(x, np.ndarray):
            return float(x.reshape(()).item()) if x.size == 1 else math.nan
        return float(x)

    def finite(self, x):
        return math.isfinite(float(x))

    def snapshot(self, t):
        return t.detach().clone() if isinstance(t, torch.Tensor) else np.array(t)

    # ---- specification arithmetic
    def sum(self, n, f):
        return math.fsum(float(f(k)) for k in range(int(n)))

    def mean(self, n, f):
        return self.sum(n, f) / int(n)

    def maxof(self, n, f):
        return max(float(f(k)) for k in range(int(n)))

    def norm(self, p, n, f):
        v = [abs(float(f(k))) for k in range(int(n))]
        if p == math.inf:
            return max(v)
        if p == 2:
            return math.sqrt(math.fsum(x * x for x in v))
        return math.fsum(x ** p for x in v) ** (1. / p)

    def lse(self, n, f):
        v = [float(f(k)) for k in range(int(n))]
        m = max(v)
        if math.isinf(m) or math.isnan(m):
            return m
        return m + math.log(math.fsum(math.exp(x - m) for x in v))

    def pow(self, a, b):
        return float(a) ** b

    def exp(self, a):
        try:
            return math.exp(a)
        except OverflowError:
            return math.inf

    def log(self, a):
        return math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan)

    def sqrt(self, a):
        return math.sqrt(a)

    def floor(self, a):
        return math.floor(a + 1e-9)

    def abs(self, a):
        return abs(a)

    def max2(self, a, b):
        return max(a, b)

    def min2(self, a, b):
        return min(a, b)

    def div(self, a, b):
        if b == 0:
            return math.nan if a == 0 else math.copysign(math.inf, a)
        return a / b

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return self.close(self.val(a), self.val(b))

    def le(self, a, b):
        return float(a) <= float(b) + ATOL + RTOL * abs(float(b))

    def lt(self, a, b):
        return float(a) < float(b)

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def neg(self, a):
        return not a

    def forall(self, n, f):
        return all(bool(f(k)) for k in range(int(n)))

    def logsigmoid(self, a):
        return -math.log1p(math.exp(-a)) if a > -30 else a - math.log1p(math.exp(a))

    def sigmoid(self, a):
        return 1. / (1. + math.exp(-a)) if a > -700 else 0.
