"""Observation points: wrappers put on instances (never on the source)."""

import copy
import functools
import threading

import numpy as np


class Recorder:
    """Records every outermost gradient/hessian call on one material: a copy of the
    input before the call, a copy of the output after it, the calling thread."""

    def __init__(self, space, names=("gradient", "hessian"), limit=10_000):
        self.space = space
        self.events = []
        self.limit = limit
        self.depth = threading.local()
        for name in names:
            self._wrap(name)

    def _wrap(self, name):
        fun = getattr(self.space, name)

        @functools.wraps(fun)
        def observed(*args, **kwargs):
            d = getattr(self.depth, "n", 0)
            self.depth.n = d + 1
            try:
                if d:
                    return fun(*args, **kwargs)
                x = args[0] if args else kwargs["x"]
                before = [np.array(a, copy=True) if a is not None else None for a in x]
                out = fun(*args, **kwargs)
                if len(self.events) < self.limit:
                    self.events.append(
                        {
                            "name": name,
                            "x": before,
                            "out": [
                                np.array(a, copy=True) if isinstance(a, np.ndarray) else a
                                for a in out
                            ],
                            "thread": threading.get_ident(),
                            "mutated": any(
                                a is not None
                                and not np.array_equal(a, b, equal_nan=True)
                                for a, b in zip(before, x)
                            ),
                        }
                    )
                return out
            finally:
                self.depth.n = d

        setattr(self.space, name, observed)


class Watch:
    "Remembers arrays and their values; tells which changed later."

    def __init__(self):
        self.items = []

    def add(self, label, *arrays):
        for a in arrays:
            if isinstance(a, np.ndarray):
                self.items.append((label, a, a.copy()))

    def changed(self):
        return [
            lab for lab, a, c in self.items if not np.array_equal(a, c, equal_nan=True)
        ]


class Keeps:
    """A user model that keeps what it returns and returns the same arrays again: what it
    hands out stays its own (a stored stiffness, a constant derivative, a cache)."""

    def __init__(self, inner, readonly=False):
        self.inner, self.readonly, self.kept = inner, readonly, {}
        if hasattr(inner, "x"):
            self.x = inner.x

    def _own(self, out):
        if isinstance(out, np.ndarray):
            a = out.copy()
            a.flags.writeable = not self.readonly
            return a
        if isinstance(out, (list, tuple)):
            return type(out)(self._own(a) for a in out)
        return out

    def _keep(self, name, args, make):
        key = (name, *((np.asarray(a).tobytes(), np.shape(a)) for a in args if a is not None))
        if key not in self.kept:
            own = self._own(make())
            self.kept[key] = own, copy.deepcopy(own)
        return self.kept[key][0]

    def gradient(self, *args):
        *args, statevars = args
        out = self._keep("gradient", args, lambda: self.inner.gradient(*args, statevars)[:-1])
        return (*out, statevars)

    def hessian(self, *args):
        return self._keep("hessian", args[:-1], lambda: self.inner.hessian(*args))

    def changed(self):
        return sum(not _equal(a, b) for a, b in self.kept.values())


def _equal(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(_equal, a, b))
    if a is None or b is None:
        return a is b
    return np.array_equal(a, b, equal_nan=True)
