from .. import _core as C


class Transform:
    bijective = True
    event_dim = 0

    def __call__(self, x):
        return self._call(x)

    def inv_call(self, y):
        return self._inverse(y)


class AffineTransform(Transform):
    def __init__(self, loc, scale, event_dim=0, cache_size=0):
        self.loc, self.scale, self.event_dim = loc, scale, event_dim

    def _call(self, x):
        return self.loc + self.scale * x

    def _inverse(self, y):
        return (y - self.loc) / self.scale

    def log_abs_det_jacobian(self, x, y):
        s = self.scale if isinstance(self.scale, C.Tensor) else C.tensor(self.scale)
        return C.log(C.abs_(s)) + x * 0


class ExpTransform(Transform):
    def _call(self, x):
        return C.exp(x)

    def _inverse(self, y):
        return C.log(y)

    def log_abs_det_jacobian(self, x, y):
        return x
