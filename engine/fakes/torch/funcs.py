"""functional_call, vmap and grad"""
from engine import symtensor as S, terms as T, symexec as SE
from engine.symexec import Unsupported
from engine.symtensor import El
from engine.symval import mkint
from . import _core as C


def functional_call(module, parameter_and_buffer_dicts, args=None, kwargs=None, *, tie_weights=True, strict=False):
    dicts = parameter_and_buffer_dicts if isinstance(parameter_and_buffer_dicts, (tuple, list)) else (parameter_and_buffer_dicts,)
    new = {}
    for d in dicts:
        new.update(d)
    saved = []
    mods = dict(module.named_modules())
    try:
        for k, v in new.items():
            pre, _, n = k.rpartition('.')
            m = mods[pre]
            store = m._parameters if n in m._parameters else m._buffers
            if n not in store:
                raise KeyError(k)
            saved.append((store, n, store[n]))
            store[n] = v
        a = args if isinstance(args, tuple) else (() if args is None else (args,))
        return module(*a, **(kwargs or {}))
    finally:
        for store, n, v in reversed(saved):
            store[n] = v


def _sub_el(e, mp):
    if isinstance(e, El):
        return El(T.subst(e.v, mp), T.subst(e.fin, mp), e.sp)
    return T.subst(e, mp)


def _tree(f, x):
    if isinstance(x, (tuple, list)):
        return type(x)(_tree(f, y) for y in x)
    if isinstance(x, dict):
        return {k: _tree(f, v) for k, v in x.items()}
    return f(x)


def vmap(func, in_dims=0, out_dims=0, randomness='error', *, chunk_size=None):
    def g(*args):
        dims = in_dims if isinstance(in_dims, (tuple, list)) else (in_dims,) * len(args)
        n = [None]
        for a, d in zip(args, dims):
            if d is not None and isinstance(a, C.Tensor):
                s = a._shape[d]
                if n[0] is None:
                    n[0] = s
                elif not S.same_dim(n[0], s):
                    raise ValueError('vmap: inconsistent sizes')
        if n[0] is None:
            raise ValueError('vmap: no mapped input')
        k = T.fresh_ix(n[0], 'vmap')

        def pick(a, d):
            if d is None:
                return a
            if isinstance(a, (dict, tuple, list)):
                return _tree(lambda x: pick(x, d), a)
            if not isinstance(a, C.Tensor):
                raise ValueError('vmap: in_dims given for a non-tensor input')
            d = S.normdim(d, len(a._shape))
            sn = a._snap()
            return C.Tensor._make(a._shape[:d] + a._shape[d + 1:], lambda i: sn(i[:d] + (k,) + i[d:]), a.dtype, a._leafset())
        nh = len(SE.run().hyps)
        out = func(*[pick(a, d) for a, d in zip(args, dims)])
        ka = k.m[0][0][0][0]
        for h in SE.run().hyps[nh:]:
            if ka in h.fv if hasattr(h, 'fv') else False:
                raise Unsupported('control flow on mapped values inside vmap')

        def lift(o):
            if not isinstance(o, C.Tensor):
                raise ValueError('vmap: non-tensor output')
            sn = o._snap()
            od = out_dims if isinstance(out_dims, int) else out_dims[0]
            od = S.normdim(od, len(o._shape) + 1)
            return C.Tensor._make(o._shape[:od] + (n[0],) + o._shape[od:],
                                  lambda i: _sub_el(sn(i[:od] + i[od + 1:]), {ka: i[od]}), o.dtype, o._leafset())
        return _tree(lift, out)
    return g


DEPTH = [0]


def grad_and_value(func, argnums=0, has_aux=False):
    nums = (argnums,) if isinstance(argnums, int) else tuple(argnums)

    def g(*args):
        DEPTH[0] += 1
        try:
            body_args = list(args)
            names = []
            for j in nums:
                x = args[j]
                if not isinstance(x, C.Tensor):
                    raise Unsupported('grad with respect to a non-tensor')
                nm = f'diff{DEPTH[0]}.{j}'
                names.append(nm)
                body_args[j] = C.Tensor._make(x._shape, (lambda nm: lambda i: El(T.elt(nm, i)))(nm), x.dtype)
            out = func(*body_args)
            aux = None
            if has_aux:
                out, aux = out
            if not isinstance(out, C.Tensor):
                raise RuntimeError('grad: the function should return a tensor')
            if len(out._shape) != 0:
                if not all(d is T.ONE or S.decide(T.eq(d, T.ONE)) for d in out._shape) or len(out._shape):
                    raise RuntimeError('grad requires a scalar output')
            body = out._numsnap()(())
        finally:
            DEPTH[0] -= 1
        rows = []
        fins = []
        for j in nums:
            x = args[j]
            sn = x._numsnap()
            rows.append(flat_row(x._shape, sn))
        res = []
        for pos, j in enumerate(nums):
            x = args[j]

            def fn(idx, pos=pos):
                # any function may have points without a (finite) gradient
                return El(T.row('grad', (T.P(pos), body.v) + tuple(idx), rows),
                          T.lt(T.ZERO, T.row('grad is finite', (T.P(pos), body.v) + tuple(idx), rows)))
            res.append(C.Tensor._make(x._shape, fn, x.dtype))
        r = res[0] if isinstance(argnums, int) else tuple(res)
        val = C.Tensor._make((), lambda i: body, out.dtype)
        return r, ((val, aux) if has_aux else val)
    return g


def flat_row(shape, sn):
    n = S.prod(shape)
    if len(shape) == 0:
        return (T.ONE, lambda k: sn(()).v)
    if len(shape) == 1:
        return (n, lambda k: sn((k,)).v)

    def at(k):
        idx = []
        for d in reversed(shape[1:]):
            idx.append(T.imod(k, d))
            k = T.idiv(k, d)
        idx.append(k)
        return sn(tuple(reversed(idx))).v
    return (n, at)


def grad(func, argnums=0, has_aux=False):
    gv = grad_and_value(func, argnums, has_aux)

    def g(*args):
        r, v = gv(*args)
        return (r, v[1]) if has_aux else r
    return g


def jacrev(*a, **k):
    raise Unsupported('jacrev')


def jacfwd(*a, **k):
    raise Unsupported('jacfwd')


def hessian(*a, **k):
    raise Unsupported('hessian')
