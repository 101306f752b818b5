"""Second-order forward-mode automatic differentiation in three variables.

The reference for every derivative: independent of the code under observation,
vectorised over a batch, exact to round-off."""

import numpy as np


class Jet:
    __slots__ = ("v", "g", "h")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    @staticmethod
    def variables(a, b, c):
        a, b, c = np.broadcast_arrays(*(np.asarray(x, dtype=float) for x in (a, b, c)))
        out = []
        for i, x in enumerate((a, b, c)):
            g = np.zeros((3, *x.shape))
            g[i] = 1.0
            out.append(Jet(x.copy(), g, np.zeros((3, 3, *x.shape))))
        return out

    def _unary(self, f, df, ddf):
        gg = self.g[:, None] * self.g[None, :]
        return Jet(f, df * self.g, df * self.h + ddf * gg)

    def __add__(self, o):
        if isinstance(o, Jet):
            return Jet(self.v + o.v, self.g + o.g, self.h + o.h)
        return Jet(self.v + o, self.g, self.h)

    __radd__ = __add__

    def __neg__(self):
        return Jet(-self.v, -self.g, -self.h)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Jet):
            cross = self.g[:, None] * o.g[None, :]
            return Jet(
                self.v * o.v,
                self.v * o.g + o.v * self.g,
                self.v * o.h + o.v * self.h + cross + np.swapaxes(cross, 0, 1),
            )
        return Jet(self.v * o, self.g * o, self.h * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Jet):
            return self * o.reciprocal()
        return self * (1.0 / o)

    def __rtruediv__(self, o):
        return self.reciprocal() * o

    def reciprocal(self):
        r = 1.0 / self.v
        return self._unary(r, -(r**2), 2 * r**3)

    def __pow__(self, k):
        if isinstance(k, Jet):
            return exp(log(self) * k)
        v = self.v
        if k == 0:
            return Jet(np.ones_like(v), np.zeros_like(self.g), np.zeros_like(self.h))
        if k == 1:
            return self
        if k == 2:
            return self * self
        if k == 3:
            return self._unary(v * v * v, 3 * v * v, 6 * v)
        if float(k).is_integer() and k > 0:
            k = int(k)
            return self._unary(v**k, k * v ** (k - 1), k * (k - 1) * v ** (k - 2))
        k = float(k)
        return self._unary(v**k, k * v ** (k - 1), k * (k - 1) * v ** (k - 2))


def _torch(x):
    return type(x).__module__.split(".")[0] == "torch"


def log(x):
    if isinstance(x, Jet):
        r = 1.0 / x.v
        return x._unary(np.log(x.v), r, -(r**2))
    if _torch(x):
        import torch

        return torch.log(x)
    return np.log(x)


def exp(x):
    if isinstance(x, Jet):
        e = np.exp(x.v)
        return x._unary(e, e, e)
    if _torch(x):
        import torch

        return torch.exp(x)
    return np.exp(x)


def sqrt(x):
    if isinstance(x, Jet):
        s = np.sqrt(x.v)
        return x._unary(s, 0.5 / s, -0.25 / (s * x.v))
    if _torch(x):
        import torch

        return torch.sqrt(x)
    return np.sqrt(x)


def full(x, like):
    "The jet of ``x`` even if ``x`` is a plain number."
    if isinstance(x, Jet):
        return x
    z = like.v * 0.0
    return Jet(z + x, np.zeros_like(like.g), np.zeros_like(like.h))
