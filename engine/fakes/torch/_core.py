"""The tensor type and tensor functions of the stand-in torch: each is the
assumed contract of the torch function of the same name (exact real
arithmetic)."""
import math
from engine import symtensor as S
from engine import terms as T
from engine import symexec as SE
from engine.symexec import Unsupported
from engine.symval import Sym, SymBool, SymInt, SymNum, SymReal, mkbool, mkint, mkreal, poly, special
from engine.symtensor import (Arr, El, Size, dtype, float16, float32, float64, int8, int16, int32, int64, uint8,
                              bool_, NOLEAVES)

inf, nan, pi, e = math.inf, math.nan, math.pi, math.e
half = float16
float_ = float32
double = float64
long = int64
int_ = int32


class device:
    def __init__(self, name='cpu', index=None):
        self.type = str(name).split(':')[0]

    def __repr__(self):
        return f"device(type='{self.type}')"

    def __eq__(self, o):
        return isinstance(o, device) and o.type == self.type or o == self.type

    def __hash__(self):
        return hash(self.type)


CPU = device('cpu')


class _TMeta(type):
    def __instancecheck__(cls, x):
        if cls.__name__ == 'Parameter':
            return type.__instancecheck__(cls, x) or (type.__instancecheck__(Tensor, x) and getattr(x, '_is_param', False))
        return type.__instancecheck__(cls, x)


class Tensor(Arr, metaclass=_TMeta):
    _rank = 2
    _default_float = float32
    _shape_error = RuntimeError
    _empty_error = IndexError
    _is_param = False

    def __new__(cls, *a, **k):
        if a and cls is Tensor and not (len(a) == 1 and isinstance(a[0], (list, tuple, Arr))):
            return zeros(*a)
        if a and cls is Tensor:
            return S.from_py(Tensor, a[0], float32)
        return object.__new__(cls)

    def __init__(self, *a, **k):
        pass

    @classmethod
    def _cls(cls):
        return Tensor

    # ---- autograd attributes
    @property
    def requires_grad(self):
        return self._rg or bool(self._leaves)

    @requires_grad.setter
    def requires_grad(self, v):
        self.requires_grad_(v)

    def requires_grad_(self, v=True):
        v = bool(v)
        if self._leaves:
            if not v:
                raise RuntimeError('you can only change requires_grad flags of leaf variables.')
            return self
        if v and self.dtype.kind != 'f':
            raise RuntimeError('only Tensors of floating point dtype can require gradients')
        self._rg = v
        return self

    @property
    def is_leaf(self):
        return not self._leaves

    @property
    def grad_fn(self):
        return None if not self._leaves else 'grad_fn'

    def retain_grad(self):
        pass

    @property
    def device(self):
        return CPU

    @property
    def data(self):
        return self._detached()

    @data.setter
    def data(self, v):
        g = v._numsnap() if self.dtype.kind != 'b' else v._snap()
        if SE.run().ghost.get('live') and self._rg:
            raise Unsupported('assignment to .data of a tracked parameter')
        self._shape = v._shape
        self._st = v._st
        self._frozen = v._frozen
        self._to, self._from = v._to, v._from

    def detach(self):
        return self._detached()

    def detach_(self):
        d = self._detached()
        self._st, self._to, self._from, self._leaves, self._rg = d._st, d._to, d._from, NOLEAVES, False
        self._frozen = d._frozen
        return self

    def numpy(self, force=False):
        if self.requires_grad and not force:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        import numpy as np
        r = np.ndarray.__new__(np.ndarray)
        r._shape, r._st, r._to, r._from = self._shape, self._st, self._to, self._from
        r.dtype, r._frozen = self.dtype, self._frozen
        r._leaves, r._rg, r.grad, r._name, r._parent = NOLEAVES, False, None, None, None
        return r

    def __array__(self, dt=None):
        raise Unsupported('implicit conversion to a numpy array')

    def cpu(self):
        return self

    def cuda(self, *a):
        return self

    def contiguous(self, *a, **k):
        return self

    def clone(self, *a, **k):
        return self._copy()

    def __deepcopy__(self, memo):
        r = self._copy()
        r._leaves = NOLEAVES
        r._rg = self._rg
        if self._is_param:
            r = Parameter(r, self._rg)
        memo[id(self)] = r
        return r

    def to(self, *args, **kw):
        dt = kw.get('dtype')
        for a in args:
            if isinstance(a, Arr):
                dt = a.dtype
            elif isinstance(a, dtype) or a in (float, int, bool):
                dt = a
        if dt is None:
            return self
        dt = S.as_dtype(dt)
        if dt == self.dtype:
            return self
        return S.cast(self, dt)

    def type(self, dt=None, *a):
        if dt is None:
            return 'torch.FloatTensor'
        return self.to(S.as_dtype(dt))

    def type_as(self, o):
        return self.to(o.dtype)

    def float(self):
        return self.to(float32)

    def double(self):
        return self.to(float64)

    def half(self):
        return self.to(float16)

    def long(self):
        return self.to(int64)

    def int(self):
        return self.to(int32)

    def bool(self):
        return self.to(bool_)

    def is_floating_point(self):
        return self.dtype.kind == 'f'

    def backward(self, gradient=None, retain_graph=None, create_graph=False, inputs=None):
        if not self.requires_grad:
            raise RuntimeError('element 0 of tensors does not require grad and does not have a grad_fn')
        if len(self._shape) and gradient is None:
            for d in self._shape:
                if not S.decide(T.eq(d, T.ONE)):
                    raise RuntimeError('grad can be implicitly created only for scalar outputs')
        r = SE.run()
        k = r.ghost['nback'] = r.ghost.get('nback', 0) + 1
        r.ghost.setdefault('events', []).append(('backward', self))
        for p in sorted(self._leafset(), key=lambda p: getattr(p, '_serial', 0)):
            if not p._rg:
                continue
            nm = r.name(f'grad{k}[{p._name or "p"}]')
            g = symbolic_tensor(nm, p._shape, p.dtype)
            g._grad_of = (self, p)
            hook = r.ghost.get('grad_hook')
            if hook is not None:
                g2 = hook(self, p, g)
                g = g if g2 is None else g2
            if p.grad is None:
                p.grad = g
            else:
                acc = p.grad
                s = S.binary(S.e_add, acc, g)
                s._leaves = NOLEAVES
                # accumulation happens in place
                acc._write_from(s)

    def _write_from(self, s):
        g = s._snap()
        self._write(lambda idx, old: g(idx))

    # ---- shape
    def view(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], dtype):
            return S.cast(self, sizes[0])
        return S.reshape(self, _sizes(sizes))

    def reshape(self, *sizes):
        return S.reshape(self, _sizes(sizes))

    def view_as(self, o):
        return S.reshape(self, tuple(mkint(d) for d in o._shape))
    reshape_as = view_as

    def flatten(self, start_dim=0, end_dim=-1):
        return S.flatten(self, start_dim, end_dim)

    def ravel(self):
        return S.flatten(self)

    def unflatten(self, dim, sizes):
        d = S.normdim(dim, len(self._shape))
        pre = tuple(mkint(x) for x in self._shape[:d])
        post = tuple(mkint(x) for x in self._shape[d + 1:])
        sizes = tuple(sizes)
        if -1 in [s for s in sizes if isinstance(s, int)]:
            k = [i for i, s in enumerate(sizes) if isinstance(s, int) and s == -1][0]
            known = S.prod([S.dimp(s) for i, s in enumerate(sizes) if i != k])
            q = S.div_exact(self._shape[d], known)
            if q is None:
                raise Unsupported('unflatten')
            sizes = sizes[:k] + (mkint(q),) + sizes[k + 1:]
        return S.reshape(self, pre + sizes + post)

    def unsqueeze(self, dim):
        return S.unsqueeze(self, dim)

    def squeeze(self, dim=None):
        return S.squeeze(self, dim)

    def squeeze_(self, dim=None):
        return self._become(S.squeeze(self, dim))

    def unsqueeze_(self, dim):
        return self._become(S.unsqueeze(self, dim))

    def _become(self, v):
        self._shape, self._to, self._from = v._shape, v._to, v._from
        return self

    def expand(self, *sizes):
        return S.expand(self, _sizes(sizes))

    def expand_as(self, o):
        return S.expand(self, tuple(mkint(d) for d in o._shape))

    def broadcast_to(self, size):
        return S.expand(self, tuple(size))

    def repeat(self, *reps):
        return S.repeat(self, _sizes(reps))

    def tile(self, *reps):
        reps = _sizes(reps)
        n = len(self._shape)
        return S.repeat(self, (1,) * (n - len(reps)) + tuple(reps))

    def permute(self, *p):
        return S.permute(self, _sizes(p))

    def transpose(self, a, b):
        return S.transpose(self, a, b)
    swapaxes = transpose

    def movedim(self, a, b):
        n = len(self._shape)
        a, b = S.normdim(a, n), S.normdim(b, n)
        o = [i for i in range(n) if i != a]
        o.insert(b, a)
        return S.permute(self, o)
    moveaxis = movedim

    def t(self):
        return self if len(self._shape) < 2 else S.transpose(self, 0, 1)

    def element_size(self):
        return 4

    def nelement(self):
        return self.numel()

    def new_zeros(self, *s, **k):
        return zeros(*s, dtype=self.dtype)

    def new_ones(self, *s, **k):
        return ones(*s, dtype=self.dtype)

    def new_full(self, s, v, **k):
        return full(s, v, dtype=self.dtype)

    def new_tensor(self, x, **k):
        return S.from_py(Tensor, x, self.dtype)

    def new_empty(self, *s, **k):
        return empty(*s, dtype=self.dtype)

    def numel(self):
        return mkint(S.prod(self._shape))

    def size(self, dim=None):
        return Arr.size(self, dim)

    # ---- in place
    def copy_(self, o, *a):
        self._guard()
        return self._set_from(o)

    def _guard(self):
        if self._rg and not self._leaves and S.grad_enabled():
            raise RuntimeError('a leaf Variable that requires grad is being used in an in-place operation.')

    def fill_(self, v):
        self._guard()
        if isinstance(v, Arr):
            v = v.item()
        return self._set_from(v)

    def zero_(self):
        return self.fill_(0.0)

    def add_(self, o, alpha=1):
        return self._ip(S.e_add, o if alpha == 1 else o * alpha)

    def sub_(self, o, alpha=1):
        return self._ip(S.e_sub, o if alpha == 1 else o * alpha)

    def mul_(self, o):
        return self._ip(S.e_mul, o)

    def div_(self, o):
        return self._ip(S.e_div, o)

    def pow_(self, o):
        return self._ip(S.e_pow, o)

    def _ipu(self, r):
        self._guard()
        return self._replace(r)

    def neg_(self):
        return self._ipu(-self)

    def exp_(self):
        return self._ipu(exp(self))

    def abs_(self):
        return self._ipu(abs_(self))

    def log_(self):
        return self._ipu(log(self))

    def sqrt_(self):
        return self._ipu(sqrt(self))

    def clamp_(self, min=None, max=None):
        return self._ipu(clamp(self, min, max))
    clip_ = clamp_

    def clamp_min_(self, v):
        return self._ipu(clamp(self, v, None))

    def clamp_max_(self, v):
        return self._ipu(clamp(self, None, v))

    def relu_(self):
        return self._ipu(relu(self))

    def addcmul_(self, a, b, value=1):
        return self._ipu(self + value * a * b)

    def addcdiv_(self, a, b, value=1):
        return self._ipu(self + value * a / b)

    def normal_(self, mean=0., std=1.):
        n = draw('normal', self._shape)
        return self._ipu(n * std + mean)

    def uniform_(self, a=0., b=1.):
        n = draw('uniform', self._shape)
        return self._ipu(n * (b - a) + a)

    def masked_fill(self, mask, v):
        return where(mask, S.from_py(Tensor, v) if not isinstance(v, Arr) else v, self)

    def masked_fill_(self, mask, v):
        return self._ipu(self.masked_fill(mask, v))

    def masked_select(self, mask):
        raise Unsupported('masked_select')

    def index_select(self, dim, ix):
        return S.take(self, ix, S.normdim(dim, len(self._shape)))

    def gather(self, dim, ix):
        d = S.normdim(dim, len(self._shape))
        g, gi = self._snap(), ix._snap()
        return Tensor._make(ix._shape, lambda idx: g(idx[:d] + (gi(idx).v,) + idx[d + 1:]), self.dtype, self._leafset())

    def narrow(self, dim, start, length):
        d = S.normdim(dim, len(self._shape))
        return self[(slice(None),) * d + (slice(start, start + length),)]

    def select(self, dim, i):
        d = S.normdim(dim, len(self._shape))
        return self[(slice(None),) * d + (i,)]

    def unbind(self, dim=0):
        d = S.normdim(dim, len(self._shape))
        n = self._shape[d].const()
        if n is None:
            raise Unsupported('unbind of symbolic dimension')
        return tuple(self.select(d, i) for i in range(int_of(n)))

    def split(self, size, dim=0):
        d = S.normdim(dim, len(self._shape))
        n = self._shape[d].const()
        if isinstance(size, (list, tuple)):
            out, st = [], 0
            for s in size:
                out.append(self.narrow(d, st, s))
                st = st + s
            return tuple(out)
        if n is None:
            raise Unsupported('split of symbolic dimension')
        n = int_of(n)
        return tuple(self.narrow(d, i, min(size, n - i)) for i in range(0, n, size))

    def chunk(self, k, dim=0):
        d = S.normdim(dim, len(self._shape))
        n = self._shape[d]
        q = S.div_exact(n, T.P(k))
        if q is None:
            raise Unsupported('chunk')
        return tuple(self.narrow(d, mkint(T.scale(q, i)), mkint(q)) for i in range(k))

    def equal(self, o):
        return equal(self, o)

    def allclose(self, o, rtol=1e-5, atol=1e-8, equal_nan=False):
        return allclose(self, o, rtol, atol)

    def where(self, c, o):
        return where(c, self, o)

    def register_hook(self, h):
        raise Unsupported('tensor hook')

    def storage(self):
        return self._st

    def untyped_storage(self):
        return self._st

    def data_ptr(self):
        return id(self._st)

    def is_shared(self):
        return False


def int_of(c):
    return c.numerator


def _sizes(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        return tuple(s[0])
    return tuple(s)


_serial = [0]


class Parameter(Tensor):
    _is_param = True

    def __new__(cls, data=None, requires_grad=True):
        if data is None:
            data = S.full(Tensor, (0,), 0.)
        p = object.__new__(cls)
        if isinstance(data, (list, float)):
            data = tensor(data)
        p._shape, p._st, p._to, p._from, p.dtype = data._shape, data._st, data._to, data._from, data.dtype
        p._frozen = data._frozen
        p._leaves, p._rg, p.grad, p._name, p._parent = NOLEAVES, bool(requires_grad), None, getattr(data, '_name', None), None
        _serial[0] += 1
        p._serial = _serial[0]
        p._is_param = True
        return p

    def __init__(self, *a, **k):
        pass


def symbolic_tensor(name, shape, dt=float64, nn=False, pos=False):
    """an arbitrary tensor of the given (Poly) shape"""
    shape = tuple(S.dimp(d) for d in shape)
    sort = 'I' if dt.kind == 'i' else 'R'

    def fn(idx):
        if dt.kind == 'b':
            return T.bvar(name, *idx)
        return El(T.elt(name, idx, sort=sort, nn=nn, pos=pos))
    t = Tensor._make(shape, fn, dt)
    t._name = name
    return t


# ------------------------------------------------------------------ creation

def tensor(x, dtype=None, device=None, requires_grad=False, pin_memory=False):
    if isinstance(x, Arr):
        r = x._copy(Tensor)
        r._leaves = NOLEAVES
        if SE.run().ghost.get('live'):
            r = r._detached() if not x._leafset() else x._detached()._copy(Tensor)
        if dtype is not None:
            r = S.cast(r, S.as_dtype(dtype))
    else:
        r = S.from_py(Tensor, x, dtype)
        if r._leaves:
            r = r._detached()
            r._leaves = NOLEAVES
    if requires_grad:
        r.requires_grad_()
    return r


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, Tensor):
        return x if dtype is None else x.to(S.as_dtype(dtype))
    if isinstance(x, Arr):
        r = from_numpy(x)
        return r if dtype is None else r.to(S.as_dtype(dtype))
    return tensor(x, dtype)


asarray = as_tensor


def from_numpy(x):
    if not isinstance(x, Arr) or isinstance(x, Tensor):
        raise TypeError('expected np.ndarray')
    r = object.__new__(Tensor)
    r._shape, r._st, r._to, r._from, r.dtype = x._shape, x._st, x._to, x._from, x.dtype
    r._frozen = x._frozen
    r._leaves, r._rg, r.grad, r._name, r._parent = NOLEAVES, False, None, getattr(x, '_name', None), None
    return r


def _mk(shape, val, dtype, requires_grad=False):
    r = S.full(Tensor, _sizes(shape), val, S.as_dtype(dtype))
    if requires_grad:
        r.requires_grad_()
    return r


def zeros(*s, dtype=None, device=None, requires_grad=False, out=None, size=None, layout=None):
    return _mk(s if size is None else (size,), 0.0, dtype, requires_grad)


def ones(*s, dtype=None, device=None, requires_grad=False, out=None, size=None, layout=None):
    return _mk(s if size is None else (size,), 1.0, dtype, requires_grad)


def full(size, fill_value, dtype=None, device=None, requires_grad=False):
    return _mk((tuple(size),), fill_value, dtype, requires_grad)


def empty(*s, dtype=None, device=None, requires_grad=False, size=None):
    s = _sizes(s if size is None else (size,))
    r = symbolic_tensor(SE.run().name('uninitialised'), s, S.as_dtype(dtype) or float32)
    if requires_grad:
        r.requires_grad_()
    return r


def _like(t, val, dtype, requires_grad=False):
    return _mk((tuple(t._shape),), val, S.as_dtype(dtype) or t.dtype, requires_grad)


def zeros_like(t, dtype=None, device=None, requires_grad=False, memory_format=None):
    return _like(t, 0.0, dtype, requires_grad)


def ones_like(t, dtype=None, device=None, requires_grad=False, memory_format=None):
    return _like(t, 1.0, dtype, requires_grad)


def full_like(t, v, dtype=None, device=None, requires_grad=False):
    return _like(t, v, dtype, requires_grad)


def empty_like(t, dtype=None, device=None, requires_grad=False):
    return empty(tuple(t._shape), dtype=dtype or t.dtype)


def eye(n, m=None, dtype=None, device=None, requires_grad=False):
    return S.eye(Tensor, n, m, S.as_dtype(dtype))


def arange(*a, dtype=None, device=None):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a + (1,))[:3]
    return S.arange(Tensor, lo, hi, st, S.as_dtype(dtype))


def linspace(a, b, n, dtype=None, device=None):
    ap, bp, np_ = poly(a), poly(b), S.dimp(n)
    return Tensor._make((np_,), lambda i: El(T.add(ap, T.div(T.mul(i[0], T.sub(bp, ap)), T.sub(np_, T.ONE)))), float32)


# ------------------------------------------------------------------ randomness

class Rng:
    """ghost generator state: who seeded it last and how many draws since"""
    def __init__(self, which):
        self.which, self.base, self.count, self.log = which, ('unseeded', which), 0, []

    def seed(self, s):
        self.base, self.count = ('seed', s), 0

    def draw(self, kind, shape):
        k = self.count
        self.count += 1
        b = self.base
        tag = 'unseeded' if b[0] == 'unseeded' else f'seed({b[1]!r})'
        name = f'{kind}<{self.which}:{tag}#{k}>'
        self.log.append((b, k, kind))
        return name


def rng(which='torch'):
    g = SE.run().ghost
    key = 'rng:' + which
    if key not in g:
        g[key] = Rng(which)
    return g[key]


def draw(kind, shape, dt=float32):
    nm = rng().draw(kind, shape)
    nm = nm + shape_tag(shape)
    t = symbolic_tensor(nm, shape, dt, pos=kind == 'uniform')
    SE.run().ghost.setdefault('noise', {})[nm] = t
    if kind == 'uniform':
        g = t._snap()

        def fn(idx):
            e = g(idx)
            return e
        return t
    return t


def shape_tag(shape):
    return ''


def manual_seed(s):
    rng().seed(s)
    SE.run().ghost.setdefault('events', []).append(('seed', s))
    return Generator()


def seed():
    rng().seed(('fresh', SE.run().name('entropy')))


def initial_seed():
    return 0


class Generator:
    def __init__(self, device=None):
        pass

    def manual_seed(self, s):
        raise Unsupported('private generator')


def rand(*s, dtype=None, device=None, generator=None, requires_grad=False):
    return draw('uniform', tuple(S.dimp(d) for d in _sizes(s)))


def randn(*s, dtype=None, device=None, generator=None, requires_grad=False):
    return draw('normal', tuple(S.dimp(d) for d in _sizes(s)))


def rand_like(t, **k):
    return draw('uniform', t._shape)


def randn_like(t, **k):
    return draw('normal', t._shape)


def normal(mean, std, size=None, **k):
    if size is not None:
        return draw('normal', tuple(S.dimp(d) for d in size)) * std + mean
    m = mean if isinstance(mean, Arr) else std
    return draw('normal', m._shape) * std + mean


def randperm(n, **k):
    return symbolic_tensor(rng().draw('perm', ()), (S.dimp(n),), int64, nn=True)


def get_rng_state():
    r = rng()
    return ('rngstate', r.base, r.count)


def set_rng_state(s):
    if not (isinstance(s, tuple) and s and s[0] == 'rngstate'):
        raise Unsupported('rng state')
    r = rng()
    r.base, r.count = s[1], s[2]


# ----------------------------------------------------------- functions

def _t(x):
    return x if isinstance(x, Arr) else S.from_py(Tensor, x)


def add(a, b, alpha=1):
    return _t(a) + (b if alpha == 1 else b * alpha)


def sub(a, b, alpha=1):
    return _t(a) - (b if alpha == 1 else b * alpha)


subtract = sub


def mul(a, b):
    return _t(a) * b


multiply = mul


def div(a, b, rounding_mode=None):
    r = _t(a) / b
    if rounding_mode == 'floor':
        return S.unary(S.e_floor, r)
    if rounding_mode == 'trunc':
        return S.unary(S.e_trunc, r)
    return r


divide = true_divide = div


def pow(a, b):
    return _t(a) ** b


float_power = pow


def neg(a):
    return -a


negative = neg


def _uf(f):
    def g(a, *, out=None):
        return S.unary_f(f, a)
    return g


exp = _uf(S.e_exp)
log = _uf(S.e_log)
log1p = _uf(S.e_log1p)
expm1 = _uf(S.e_expm1)
sqrt = _uf(S.e_sqrt)
rsqrt = _uf(lambda a: S.e_div(El(T.ONE), S.e_sqrt(a)))
reciprocal = _uf(lambda a: S.e_div(El(T.ONE), a))
sigmoid = _uf(S.e_sigmoid)
tanh = _uf(S.e_tanh)
log2 = _uf(lambda a: S.e_div(S.e_log(a), El(T.log(T.P(2)))))
log10 = _uf(lambda a: S.e_div(S.e_log(a), El(T.log(T.P(10)))))
exp2 = _uf(lambda a: S.e_pow(El(T.P(2)), a))


def abs_(a):
    return S.unary(S.e_abs, a)


absolute = abs_


def square(a):
    return S.unary(lambda x: S.e_mul(x, x), a)


def sign(a):
    return S.unary(S.e_sign, a)


sgn = sign


def floor(a):
    return S.unary(S.e_floor, a)


def ceil(a):
    return -S.unary(S.e_floor, -a)


def trunc(a):
    return S.unary(S.e_trunc, a)


def relu(a):
    return S.unary(lambda x: S.e_max(x, El(T.ZERO)), a)


def softplus(a, beta=1, threshold=20):
    if beta == 1:
        return S.unary_f(S.e_softplus, a)
    return S.unary_f(S.e_softplus, a * beta) / beta


def logsigmoid(a):
    return S.unary_f(S.e_logsigmoid, a)


def clamp(a, min=None, max=None, out=None):
    return S.clamp(a, min, max)


clip = clamp


def clamp_min(a, min):
    return S.clamp(a, min, None)


def clamp_max(a, max):
    return S.clamp(a, None, max)


def maximum(a, b):
    return S.binary(S.e_max, a, b)


def minimum(a, b):
    return S.binary(S.e_min, a, b)


def fmax(a, b):
    return where(isnan(a), b, where(isnan(b), a, maximum(a, b)))


def fmin(a, b):
    return where(isnan(a), b, where(isnan(b), a, minimum(a, b)))


def where(c, a=None, b=None):
    if a is None and b is None:
        raise Unsupported('where with one argument')
    return S.where(c, a, b)


def isfinite(a):
    return S.pred(S.e_isfinite, a)


def isnan(a):
    return S.pred(S.e_isnan, a)


def isinf(a):
    return S.pred(S.e_isinf, a)


def nan_to_num(a, nan=0.0, posinf=None, neginf=None):
    g = a._numsnap()
    v = El(poly(nan))

    def fn(idx):
        x = g(idx)
        if x.fin is T.TRUE:
            return x
        other = El(T.P(T.atom('undef', ('bigfloat', x.v))))
        return S.e_ite(x.fin, El(x.v), S.e_ite(S.e_isnan(x), v, other))
    return Tensor._make(a._shape, fn, a.dtype, a._leafset())


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return S.isclose(a, b, rtol, atol)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return S.bool_item(S.reduce_all(S.isclose(a, b, rtol, atol)))


def equal(a, b):
    if len(a._shape) != len(b._shape):
        return False
    for x, y in zip(a._shape, b._shape):
        if not S.same_dim(x, y):
            return False
    return S.bool_item(S.reduce_all(a == b))


def eq(a, b):
    return _t(a) == b


def ne(a, b):
    return _t(a) != b


not_equal = ne


def lt(a, b):
    return _t(a) < b


def le(a, b):
    return _t(a) <= b


def gt(a, b):
    return _t(a) > b


def ge(a, b):
    return _t(a) >= b


less, less_equal, greater, greater_equal = lt, le, gt, ge


def logical_not(a):
    return S.unary_b(T.b_not, a)


def logical_and(a, b):
    return S.binary_b(T.b_and, a, b)


def logical_or(a, b):
    return S.binary_b(T.b_or, a, b)


def logical_xor(a, b):
    return S.binary_b(lambda x, y: T.b_not(T.b_iff(x, y)), a, b)


bitwise_and, bitwise_or, bitwise_not = logical_and, logical_or, logical_not


def _da(dim, axis):
    return axis if dim is None else dim


def sum(a, dim=None, keepdim=False, dtype=None, axis=None, out=None):
    return S.reduce_sum(a, _da(dim, axis), keepdim, S.as_dtype(dtype))


def nansum(a, dim=None, keepdim=False):
    return S.reduce_sum(where(isnan(a), zeros_like(a), a), dim, keepdim)


def mean(a, dim=None, keepdim=False, dtype=None, axis=None):
    if a.dtype.kind != 'f' and dtype is None:
        raise RuntimeError('mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.')
    return S.reduce_mean(a, _da(dim, axis), keepdim)


def var(a, dim=None, unbiased=True, keepdim=False, correction=None):
    if isinstance(dim, bool):
        unbiased, dim = dim, None
    corr = (1 if unbiased else 0) if correction is None else correction
    m = S.reduce_mean(a, dim, True)
    s = S.reduce_sum(square(a - m), dim, keepdim)
    n = S.prod([a._shape[d] for d in S.dims_arg(dim, len(a._shape))])
    return s / mkint(T.sub(n, T.P(corr)))


def std(a, dim=None, unbiased=True, keepdim=False, correction=None):
    return sqrt(var(a, dim, unbiased, keepdim, correction))


class _ret(tuple):
    def __new__(cls, values, indices):
        return tuple.__new__(cls, (values, indices))
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def max(a, dim=None, keepdim=False, axis=None):
    dim = _da(dim, axis)
    if isinstance(dim, Arr):
        return maximum(a, dim)
    r = S.reduce_max(a, dim, keepdim)
    return r if dim is None else _ret(r, S.argext(a, dim, keepdim, 1))


def min(a, dim=None, keepdim=False, axis=None):
    dim = _da(dim, axis)
    if isinstance(dim, Arr):
        return minimum(a, dim)
    r = S.reduce_max(a, dim, keepdim, -1)
    return r if dim is None else _ret(r, S.argext(a, dim, keepdim, -1))


def amax(a, dim=None, keepdim=False):
    return S.reduce_max(a, dim, keepdim)


def amin(a, dim=None, keepdim=False):
    return S.reduce_max(a, dim, keepdim, -1)


def argmax(a, dim=None, keepdim=False):
    return S.argext(a, dim, keepdim, 1)


def argmin(a, dim=None, keepdim=False):
    return S.argext(a, dim, keepdim, -1)


def all(a, dim=None, keepdim=False):
    return S.reduce_all(a, dim, keepdim)


def any(a, dim=None, keepdim=False):
    return S.reduce_all(a, dim, keepdim, neg=True)


def count_nonzero(a, dim=None):
    return S.reduce_sum(S.cast(a != 0, int64), dim)


def prod(a, dim=None, keepdim=False, dtype=None):
    ds, shape, place = S._red_setup(a, dim, keepdim)
    g = a._numsnap()
    ns = [a._shape[d] for d in ds]
    if builtins_any(n.const() is None for n in ns):
        raise Unsupported('product over a symbolic dimension')
    import itertools
    rngs = [range(int_of(n.const())) for n in ns]

    def fn(idx):
        r = El(T.ONE)
        for ks in itertools.product(*rngs):
            r = S.e_mul(r, g(place(idx, tuple(T.P(k) for k in ks))))
        return r
    return Tensor._make(shape, fn, a.dtype, a._leafset())


import builtins as _bi
builtins_any = _bi.any


def norm(a, p='fro', dim=None, keepdim=False, dtype=None, out=None):
    return S.norm(a, p, dim, keepdim)


def logsumexp(a, dim, keepdim=False):
    return S.logsumexp(a, dim, keepdim)


def softmax(a, dim, dtype=None):
    return S.softmax(a, dim)


def log_softmax(a, dim, dtype=None):
    return S.softmax(a, dim, log=True)


def logaddexp(a, b):
    m = S.binary(lambda x, y: S.e_log(S.e_add(S.e_exp(x), S.e_exp(y))), a, b)
    return m


def cumsum(a, dim):
    return S.cumsum(a, dim)


def flatten(a, start_dim=0, end_dim=-1):
    return S.flatten(a, start_dim, end_dim)


def ravel(a):
    return S.flatten(a)


def reshape(a, shape):
    return S.reshape(a, tuple(shape))


def unsqueeze(a, dim):
    return S.unsqueeze(a, dim)


def squeeze(a, dim=None):
    return S.squeeze(a, dim)


def transpose(a, i, j):
    return S.transpose(a, i, j)


swapaxes = transpose


def permute(a, p):
    return S.permute(a, p)


def movedim(a, i, j):
    return a.movedim(i, j)


def broadcast_to(a, size):
    return S.expand(a, tuple(size))


def expand_copy(a, size):
    return S.expand(a, tuple(size)).clone()


def broadcast_tensors(*ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    sh = S.bshape(*[t._shape for t in ts])
    return tuple(S.expand(t, tuple(mkint(d) for d in sh)) for t in ts)


def broadcast_shapes(*shapes):
    return S.mksize(S.bshape(*[tuple(S.dimp(d) for d in (s if isinstance(s, (tuple, list)) else (s,))) for s in shapes]))


def cat(ts, dim=0, axis=None, out=None):
    return S.cat(ts, dim if axis is None else axis)


concat = concatenate = cat


def stack(ts, dim=0, out=None):
    return S.stack(ts, dim)


def _atleast2(t):
    if len(t._shape) == 0:
        return S.reshape(t, (1, 1))
    return S.unsqueeze(t, 0) if len(t._shape) == 1 else t


def vstack(ts):
    return S.cat([_atleast2(t) for t in ts], 0)


row_stack = vstack


def hstack(ts):
    ts = [S.reshape(t, (1,)) if not t._shape else t for t in ts]
    return S.cat(ts, 0 if len(ts[0]._shape) == 1 else 1)


def column_stack(ts):
    return S.cat([S.unsqueeze(t, 1) if len(t._shape) == 1 else t for t in ts], 1)


def matmul(a, b):
    return S.matmul(a, b)


def mm(a, b):
    return S.matmul(a, b)


def mv(a, b):
    return S.matmul(a, b)


def bmm(a, b):
    return S.matmul(a, b)


def dot(a, b):
    if len(a._shape) != 1 or len(b._shape) != 1:
        raise RuntimeError('1D tensors expected')
    return S.matmul(a, b)


def inner(a, b):
    return S.matmul(a, b if len(b._shape) < 2 else S.transpose(b, len(b._shape) - 1, len(b._shape) - 2))


def vdot(a, b):
    return dot(a, b)


def outer(a, b):
    return S.unsqueeze(a, 1) * S.unsqueeze(b, 0)


def addcmul(c, a, b, value=1):
    return c + value * a * b


def addcdiv(c, a, b, value=1):
    return c + value * a / b


def float_power(a, b):
    return _t(a) ** b


def isposinf(a):
    return logical_and(isinf(a), a > 0)


def isneginf(a):
    return logical_and(isinf(a), a < 0)


def fmod(a, b):
    raise Unsupported('fmod')


def addmm(c, a, b, beta=1, alpha=1):
    return beta * c + alpha * S.matmul(a, b)


def einsum(eq, *ops):
    return S.einsum(eq, *ops)


def diag(a, k=0):
    if len(a._shape) == 2:
        return S.diag_part(a)
    g = a._numsnap()
    n = a._shape[0]

    def fn(idx):
        return S.e_ite(T.eq(idx[0], idx[1]), g((idx[0],)), El(T.ZERO))
    return Tensor._make((n, n), fn, a.dtype, a._leafset())


diag_embed = diag


def diagonal(a, *k):
    return S.diag_part(a)


def trace(a):
    return S.reduce_sum(S.diag_part(a))


def cov(a, **k):
    m = S.reduce_mean(a, 1, True)
    d = a - m
    return S.matmul(d, d.T) / mkint(T.sub(a._shape[1], T.ONE))


def sort(a, dim=-1, descending=False, stable=False):
    if descending:
        return _ret(-S.sort_values(-a, dim), None)
    return _ret(S.sort_values(a, dim), None)


def quantile(a, q, dim=None, keepdim=False, interpolation='linear'):
    return S.quantile(a, q, dim, keepdim)


def median(a, *k, **kw):
    raise Unsupported('median')


def lerp(a, b, w):
    return a + w * (b - a)


def numel(a):
    return a.numel()


def is_tensor(x):
    return isinstance(x, Tensor)


def is_floating_point(x):
    return x.dtype.kind == 'f'


def clone(a):
    return a.clone()


def detach(a):
    return a.detach()


def gather(a, dim, ix):
    return a.gather(dim, ix)


def index_select(a, dim, ix):
    return a.index_select(dim, ix)


def unbind(a, dim=0):
    return a.unbind(dim)


def split(a, size, dim=0):
    return a.split(size, dim)


def chunk(a, k, dim=0):
    return a.chunk(k, dim)


def tile(a, reps):
    return a.tile(*reps)


def repeat_interleave(a, k, dim=None):
    if dim is None:
        a = S.flatten(a)
        dim = 0
    d = S.normdim(dim, len(a._shape))
    kp = S.dimp(k)
    g = a._snap()
    sh = a._shape[:d] + (T.mul(a._shape[d], kp),) + a._shape[d + 1:]
    return Tensor._make(sh, lambda i: g(i[:d] + (T.idiv(i[d], kp),) + i[d + 1:]), a.dtype, a._leafset())


def flip(a, dims):
    dims = dims if isinstance(dims, (tuple, list)) else (dims,)
    n = len(a._shape)
    ds = [S.normdim(d, n) for d in dims]
    g = a._snap()
    sh = a._shape
    return Tensor._make(sh, lambda i: g(tuple(T.sub(T.sub(sh[j], T.ONE), x) if j in ds else x for j, x in enumerate(i))),
                        a.dtype, a._leafset())


def meshgrid(*a, **k):
    raise Unsupported('meshgrid')


def tril(a, k=0):
    g = a._numsnap()
    return Tensor._make(a._shape, lambda i: S.e_ite(T.le(T.sub(i[-1], i[-2]), T.P(k)), g(i), El(T.ZERO)), a.dtype, a._leafset())


def triu(a, k=0):
    g = a._numsnap()
    return Tensor._make(a._shape, lambda i: S.e_ite(T.le(T.P(k), T.sub(i[-1], i[-2])), g(i), El(T.ZERO)), a.dtype, a._leafset())


def cdist(a, b, p=2.0):
    return S.norm(S.unsqueeze(a, -2) - S.unsqueeze(b, -3), p, -1)


def dist(a, b, p=2):
    return S.norm(a - b, p)


def heaviside(a, v):
    return where(a > 0, ones_like(a), where(a == 0, v, zeros_like(a)))


def nonzero(a, **k):
    raise Unsupported('nonzero')


def unique(a, **k):
    raise Unsupported('unique')


def _alias(f):
    import functools

    @functools.wraps(f)
    def w(*a, **k):
        if 'keepdims' in k:
            k['keepdim'] = k.pop('keepdims')
        if 'axis' in k:
            k['dim'] = k.pop('axis')
        return f(*a, **k)
    return w


for _m in ('sum nansum mean var std max min amax amin argmax argmin all any prod norm logsumexp softmax log_softmax '
           'cumsum squeeze unsqueeze cat stack').split():
    globals()[_m] = _alias(globals()[_m])
concat = concatenate = cat


# methods from functions
_METHODS = '''exp log log1p expm1 sqrt rsqrt reciprocal sigmoid tanh square sign sgn floor ceil trunc relu
clamp clip clamp_min clamp_max maximum minimum isfinite isnan isinf nan_to_num isclose eq ne lt le gt ge
logical_not logical_and logical_or sum nansum mean var std max min amax amin argmax argmin all any prod norm logsumexp
softmax log_softmax cumsum matmul mm mv bmm dot inner outer diag diagonal trace sort quantile add sub mul div pow neg
multiply subtract divide repeat_interleave flip tril triu lerp dist count_nonzero logaddexp log2 log10 cov vdot
negative true_divide less less_equal greater greater_equal not_equal logical_xor fmax fmin addcmul addcdiv addmm float_power
isposinf isneginf fmod'''.split()
for _m in _METHODS:
    if _m not in Tensor.__dict__:
        setattr(Tensor, _m, globals()[_m])
Tensor.abs = abs_
Tensor.absolute = abs_
Tensor.multiply_, Tensor.divide_, Tensor.true_divide_, Tensor.subtract_ = Tensor.mul_, Tensor.div_, Tensor.div_, Tensor.sub_
Tensor.absolute_, Tensor.negative_ = Tensor.abs_, Tensor.neg_
Tensor.swapdims = Tensor.transpose
Tensor.ndimension = Tensor.dim
Tensor.square_ = lambda self: self._ipu(square(self))
Tensor.sigmoid_ = lambda self: self._ipu(sigmoid(self))
Tensor.nan_to_num_ = lambda self, *a, **k: self._ipu(nan_to_num(self, *a, **k))
Tensor.logical_not_ = lambda self: self._ipu(logical_not(self))
Tensor.positive = lambda self: self


# ------------------------------------------------------------------ autograd modes

class _GradMode:
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        g = SE.run().ghost
        g.setdefault('gradstack', []).append(g.get('nograd', 0))
        g['nograd'] = 0 if self.on else 1
        return self

    def __exit__(self, *a):
        g = SE.run().ghost
        g['nograd'] = g['gradstack'].pop()
        return False

    def __call__(self, f):
        import functools

        @functools.wraps(f)
        def w(*a, **k):
            with _GradMode(self.on):
                return f(*a, **k)
        return w


def no_grad(f=None):
    m = _GradMode(False)
    return m if f is None else m(f)


def enable_grad(f=None):
    m = _GradMode(True)
    return m if f is None else m(f)


def inference_mode(mode=True):
    if callable(mode):
        return _GradMode(False)(mode)
    return _GradMode(not mode)


class set_grad_enabled(_GradMode):
    def __init__(self, on):
        super().__init__(bool(on))


def is_grad_enabled():
    return S.grad_enabled()


def get_default_dtype():
    return Tensor._default_float


def set_default_dtype(d):
    Tensor._default_float = d


def set_printoptions(**k):
    pass


def use_deterministic_algorithms(*a, **k):
    pass


def compile(f=None, **k):
    return f if f is not None else (lambda g: g)


class finfo:
    def __init__(self, d=None):
        self.eps = 1.1920928955078125e-07 if (d is None or d.bits == 32) else 2.220446049250313e-16
        self.tiny = 1.1754943508222875e-38
        self.max = 3.4028234663852886e+38
        self.min = -self.max
