from engine import symtensor as S, terms as T
from engine.symexec import Unsupported
from engine.symtensor import El
from .. import _core as C
from engine.stubs import module_getattr as _mg
__getattr__ = _mg('torch.nn.functional')

relu = C.relu
logsigmoid = C.logsigmoid
softplus = C.softplus
sigmoid = C.sigmoid
tanh = C.tanh
softmax = C.softmax
log_softmax = C.log_softmax


def linear(x, w, b=None):
    if not S.same_dim(x._shape[-1], w._shape[-1]):
        raise RuntimeError('mat1 and mat2 shapes cannot be multiplied')
    wt = w.T if len(w._shape) == 2 else w
    y = S.matmul(x, wt)
    return y if b is None else y + b


def _reduce(x, reduction):
    if reduction == 'none':
        return x
    if reduction == 'mean':
        return S.reduce_mean(x)
    if reduction == 'sum':
        return S.reduce_sum(x)
    raise ValueError(f'{reduction} is not a valid value for reduction')


def mse_loss(a, b, size_average=None, reduce=None, reduction='mean', weight=None):
    return _reduce(C.square(a - b), reduction)


def l1_loss(a, b, size_average=None, reduce=None, reduction='mean'):
    return _reduce(C.abs_(a - b), reduction)


def soft_margin_loss(a, b, size_average=None, reduce=None, reduction='mean'):
    return _reduce(-C.logsigmoid(a * b), reduction)


def huber_loss(a, b, reduction='mean', delta=1.0):
    d = C.abs_(a - b)
    return _reduce(C.where(d <= delta, 0.5 * d * d, delta * (d - 0.5 * delta)), reduction)


def binary_cross_entropy_with_logits(a, b, weight=None, size_average=None, reduce=None, reduction='mean', pos_weight=None):
    return _reduce(C.softplus(a) - b * a, reduction)


def cross_entropy(a, b, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction='mean', label_smoothing=0.0):
    dim = 1 if len(a._shape) > 1 else 0
    lp = S.softmax(a, dim, log=True)
    if b.dtype.kind == 'f':
        if len(b._shape) != len(a._shape):
            raise RuntimeError('expected same shape for class probabilities')
        return _reduce(-S.reduce_sum(lp * b, dim), reduction)
    g, gi = lp._snap(), b._snap()
    r = C.Tensor._make(b._shape, lambda idx: S.e_neg(g(idx[:dim] + (gi(idx).v,) + idx[dim:])), a.dtype, a._leafset())
    return _reduce(r, reduction)


def normalize(x, p=2.0, dim=1, eps=1e-12):
    n = S.norm(x, p, dim, True)
    return x / S.clamp(n, eps, None)


def one_hot(x, num_classes=-1):
    if num_classes == -1:
        raise Unsupported('one_hot')
    g = x._snap()
    k = S.dimp(num_classes)
    return C.Tensor._make(x._shape + (k,), lambda i: El(T.ite(T.eq(g(i[:-1]).v, i[-1]), T.ONE, T.ZERO)), C.int64)


def pairwise_distance(a, b, p=2.0, eps=1e-6, keepdim=False):
    return S.norm(a - b + eps, p, -1, keepdim)


def cosine_similarity(a, b, dim=1, eps=1e-8):
    raise Unsupported('cosine_similarity')
