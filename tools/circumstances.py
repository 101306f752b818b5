"""Blind spots of histories, parameters, operands and settings (a development tool, like
conditions.py): a function of a scratch copy of /repo gives a slightly wrong result only in rare
circumstances; lists the pairs that the check does not report.

tools/circumstances.py [--only history,...] [--scale 1e-3] [-j N]"""

import argparse
import concurrent.futures
import os
import pathlib
import re
import shutil
import subprocess
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser()
ap.add_argument("--only", default="")
ap.add_argument("--names", default="")
ap.add_argument("--scale", default="1e-3")
ap.add_argument("--seed", default="1")
ap.add_argument("-j", type=int, default=3)
args = ap.parse_args()

COMMON = r'''

import numpy as _np


def _scaled(y, s):
    if isinstance(y, (tuple, list)):
        return type(y)(None if v is None else _scaled(v, s) if isinstance(v, (tuple, list)) else v * (1 + s) if isinstance(v, (float, _np.ndarray)) and _np.asarray(v).dtype.kind == "f" else v for v in y)
    return y * (1 + s)


def _first(y, s):
    "the stress or elasticity, not the state variables after it"
    if isinstance(y, tuple):
        return (_scaled(y[0], s), *y[1:])
    out = list(y)
    out[0] = out[0] * (1 + s)
    return out
'''

# circumstances of an evaluation of a space: h is the list of earlier evaluations of the object
# (name, shape, F, id), w the one now
HISTORY = {
    "third": "len(h) == 2", "fifth": "len(h) == 4", "tenth": "len(h) == 9", "hundredth": "len(h) == 99",
    "from100": "len(h) > 100", "from1000": "len(h) > 1000",
    "again": "h and h[-1][0] == w[0] and h[-1][1] == w[1] and (h[-1][2] == w[2]).all()",
    "again_other_name": "h and h[-1][0] != w[0] and h[-1][1] == w[1] and (h[-1][2] == w[2]).all() and w[0] == 'gradient'",
    "smaller": "h and _np.prod(h[-1][1]) > _np.prod(w[1]) and w[0] == 'hessian'",
    "larger": "h and _np.prod(h[-1][1]) < _np.prod(w[1])",
    "same_size": "h and h[-1][1] != w[1] and _np.prod(h[-1][1]) == _np.prod(w[1])",
    "same_shape_other_values": "h and h[-1][1] == w[1] and not (h[-1][2] == w[2]).all() and w[0] == 'hessian' and h[-1][0] == 'gradient'",
    "after_hessian": "h and h[-1][0] == 'hessian' and w[0] == 'gradient'",
    "hessian_first": "not h and w[0] == 'hessian'",
    "hessians": "len(h) > 1 and h[-1][0] == h[-2][0] == w[0] == 'hessian' and not (h[-1][1] == w[1] and (h[-1][2] == w[2]).all())",
    "same_id": "h and h[-1][3] == w[3] and h[-1][1] == w[1] and not (h[-1][2] == w[2]).all()",
    "returned": "len(h) > 1 and h[-2][0] == w[0] and h[-2][1] == w[1] and (h[-2][2] == w[2]).all() and not (h[-1][1] == w[1] and (h[-1][2] == w[2]).all())",
    "close": "h and h[-1][1] == w[1] and h[-1][2].size and 0 < _np.abs(h[-1][2] - w[2]).max() < 1e-7",
    "close5": "h and h[-1][1] == w[1] and h[-1][2].size and 1e-7 < _np.abs(h[-1][2] - w[2]).max() < 1e-4",
    "same_trace": "h and h[-1][1] == w[1] and h[-1][2].size and not (h[-1][2] == w[2]).all() and _np.allclose(_np.sum(h[-1][2]**2, axis=(0, 1)), _np.sum(w[2]**2, axis=(0, 1)), rtol=1e-12)",
    "same_first_point": "h and h[-1][1] == w[1] and w[2].size > 9 and not (h[-1][2] == w[2]).all() and (h[-1][2].reshape(9, -1)[:, 0] == w[2].reshape(9, -1)[:, 0]).all()",
    "same_sum": "h and h[-1][1] == w[1] and w[2].size > 9 and not (h[-1][2] == w[2]).all() and _np.allclose(h[-1][2].sum(), w[2].sum(), rtol=1e-13)",
    "after_rest": "h and h[-1][2].size and (h[-1][2] == _np.eye(3).reshape(3, 3, *[1] * (h[-1][2].ndim - 2))).all()",
    "after_empty": "h and not h[-1][2].size",
    "after_failure": "h and h[-1][4]",
    "after_failed_hessian": "h and h[-1][4] and h[-1][0] == 'hessian'",
    "after_nan": "h and not _np.isfinite(h[-1][2]).all()",
    "after_large": "h and h[-1][2].size > 9 * 500",
    "after_single": "h and h[-1][1] == () and w[1] != ()",
    "single_after_batch": "h and h[-1][1] != () and w[1] == ()",
    "more_axes": "h and len(h[-1][1]) > len(w[1]) + 1",
    "unloaded": "h and h[-1][2].size and w[2].size and _np.linalg.norm(h[-1][2] - _np.eye(3).reshape(3, 3, *[1] * (h[-1][2].ndim - 2))) > 2 * _np.linalg.norm(w[2] - _np.eye(3).reshape(3, 3, *[1] * (w[2].ndim - 2))) and h[-1][1] == w[1] and w[0] == 'hessian' and h[-1][0] == 'gradient'",
    "other_state": "h and h[-1][1] == w[1] and (h[-1][2] == w[2]).all() and h[-1][5] is not w[5] and w[5] is not None and h[-1][5] is not None and not _np.array_equal(h[-1][5], w[5])",
    "same_state_object": "h and w[5] is not None and h[-1][5] is w[5] and not (h[-1][1] == w[1] and (h[-1][2] == w[2]).all())",
    "state_appears": "h and h[-1][5] is None and w[5] is not None", "state_vanishes": "h and h[-1][5] is not None and w[5] is None",
    "float32_after": "h and w[6] == 'float32' and h[-1][6] == 'float64'", "after_float32": "h and h[-1][6] == 'float32' and w[6] == 'float64'",
    "after_int": "h and h[-1][6].startswith('int') and w[6] == 'float64'", "int": "w[6].startswith('int')", "float32": "w[6] == 'float32'",
}
HISTORY_TEXT = COMMON + r'''

def _wrap(cls, name):
    real = getattr(cls, name)

    def method(self, x, *a, **k):
        F = _np.asarray(x[0])
        h = self.__dict__.setdefault("_h", [])
        G = _np.array(F, dtype=float)
        w = [name, F.shape[2:], G, id(x[0]), False, x[-1], str(F.dtype)]
        try:
            hit = bool({condition})
        except Exception:
            hit = False
        if len(h) > 3:
            h[:-3] = [None] * (len(h) - 3)
        h.append(w)
        w[4] = True
        n = len(h)
        try:
            y = real(self, x, *a, **k)
        finally:
            del h[n:]
        w[4] = False
        return _first(y, {scale}) if hit else y

    setattr(cls, name, method)


_wrap({cls}, "gradient")
_wrap({cls}, "hessian")
'''

# parameters: self is the model
TOD = {
    "C10<0": "self.C10 < 0", "C01 only": "self.C01 != 0 == self.C10 == self.C11 == self.C20 == self.C30", "C11 only": "self.C11 != 0 == self.C10 == self.C01 == self.C20 == self.C30",
    "C20 only": "self.C20 != 0 == self.C10 == self.C01 == self.C11 == self.C30", "C30 only": "self.C30 != 0 == self.C10 == self.C01 == self.C11 == self.C20",
    "C11 and C30": "self.C11 != 0 and self.C30 != 0 and self.C20 == 0", "C11 C01": "self.C11 != 0 and self.C01 != 0 and self.C10 == 0", "all": "all([self.C10, self.C01, self.C11, self.C20, self.C30])",
    "small": "0 < abs(self.C10) < 1e-8", "large": "abs(self.C10) > 1e6", "equal": "self.C10 == self.C01 != 0", "opposite": "self.C10 == -self.C01 != 0", "C20=C30": "self.C20 == self.C30 != 0", "C20=-C30": "self.C20 == -self.C30 != 0",
    "sum": "abs(self.C10 + self.C01 + self.C11 + self.C20 + self.C30) < 1e-14 and self.C10 != 0", "integer": "isinstance(self.C10, int) and self.C10 != 0", "one": "self.C10 == 1", "npint": "isinstance(self.C20, _np.integer)", "nparray": "isinstance(self.C10, _np.ndarray)",
    "I1<3": "_np.min(I1, initial=9) < 2.9", "I2<3": "_np.min(I2, initial=9) < 2.9", "I1>50": "_np.max(I1, initial=0) > 50", "I2>100": "_np.max(I2, initial=0) > 100", "I1<0": "_np.min(I1, initial=9) < 0",
    "I1=3": "_np.size(I1) and _np.all(_np.asarray(I1) == 3)", "I1==I2": "_np.size(I1) and _np.all(_np.asarray(I1) == I2)", "scalar": "_np.ndim(I1) == 0", "float": "isinstance(I1, float)", "int arguments": "_np.asarray(I1).dtype.kind == 'i'", "float32": "_np.asarray(I1).dtype == _np.float32", "4 axes": "_np.ndim(I1) > 3", "many": "_np.size(I1) > 200",
    "mixed shapes": "_np.shape(I1) != _np.shape(I2)", "state": "statevars is not None", "list": "isinstance(I1, list)",
}
OGD = {
    "one term": "len(self.mu) == 1", "4 terms": "len(self.mu) == 4", "6 terms": "len(self.mu) >= 6", "empty": "len(self.mu) == 0", "alpha<0": "_np.size(self.alpha) and _np.min(self.alpha) < 0", "all alpha<0": "_np.size(self.alpha) and _np.max(self.alpha) < 0",
    "alpha 1": "1 in list(self.alpha)", "alpha -1": "-1 in list(self.alpha)", "alpha 2": "2 in list(self.alpha)", "alpha 3": "3 in list(self.alpha)", "alpha>8": "_np.size(self.alpha) and _np.max(_np.abs(self.alpha)) > 8", "alpha<0.1": "_np.size(self.alpha) and _np.min(_np.abs(self.alpha)) < 0.1",
    "integer alpha": "any(isinstance(a, (int, _np.integer)) for a in self.alpha)", "mu<0": "_np.size(self.mu) and _np.min(self.mu) < 0", "mu sum": "len(self.mu) > 1 and abs(_np.sum(self.mu)) < 1e-14", "mu 0": "0 in list(self.mu)", "equal alphas": "len(set(self.alpha)) < len(self.alpha)", "opposite alphas": "len(self.alpha) > 1 and -self.alpha[0] == self.alpha[1]",
    "unsorted": "list(self.alpha) != sorted(self.alpha)", "tuple": "isinstance(self.mu, tuple)", "array": "isinstance(self.mu, _np.ndarray)", "int array": "isinstance(self.mu, _np.ndarray) and self.mu.dtype.kind == 'i'", "equal stretches": "_np.size(stretches) and _np.all(_np.asarray(stretches)[0] == _np.asarray(stretches)[2])", "small stretch": "_np.size(stretches) and _np.min(stretches) < 0.2",
    "large stretch": "_np.size(stretches) and _np.max(stretches) > 5", "scalar": "_np.ndim(stretches) == 1", "4 axes": "_np.ndim(stretches) > 4", "list": "isinstance(stretches, list)", "int": "_np.asarray(stretches).dtype.kind == 'i'", "unsorted stretches": "_np.size(stretches) and _np.any(_np.diff(_np.asarray(stretches), axis=0) < 0)", "state": "statevars is not None",
}
GIM = {
    "k<0": "k < 0", "k>3": "k > 3", "k<0.5": "abs(k) < 0.5", "k<0.05": "abs(k) < 0.05", "k=1": "k == 1", "k=2": "k == 2", "k=-2": "k == -2", "k=4": "k == 4", "integer": "isinstance(k, int)", "k=-1": "k == -1", "k near 2": "0 < abs(k - 2) < 1e-3", "k near 1": "0 < abs(k - 1) < 1e-3", "k=0.5": "k == 0.5", "k=3": "k == 3",
    "strain k<0": "self.strain.__name__ == 'strain' and k < 0", "deformation k<0": "self.strain.__name__ == 'deformation' and k < 0", "user": "self.strain.__name__ not in ('strain', 'deformation')", "strain k=1": "self.strain.__name__ == 'strain' and k == 1",
    "scalar": "_np.ndim(stretches) == 1", "4 axes": "_np.ndim(stretches) > 4", "equal": "_np.size(stretches) and _np.all(_np.asarray(stretches)[0] == _np.asarray(stretches)[2])", "state": "statevars is not None", "small": "_np.size(stretches) and _np.min(stretches) < 0.3", "large": "_np.size(stretches) and _np.max(stretches) > 3",
    "user inner": "type(self.material).__name__ not in ('ThirdOrderDeformation',)", "undeformed": "_np.size(stretches) and _np.all(_np.asarray(stretches) == 1)", "keywords": "len(self.kwargs) > 1", "no keywords": "len(self.kwargs) == 0",
}
MODEL_TEXT = COMMON + r'''

def _wrap(cls, name):
    real = getattr(cls, name)

    def method(self, *a, **kw):
        y = real(self, *a, **kw)
        try:
            {names} = a[:-1]
            statevars = a[-1]
            {pre}
            hit = bool({condition})
        except Exception:
            hit = False
        if not hit:
            return y
        if name == "gradient":
            return (*_scaled(tuple(y[:-1]), {scale}), y[-1]) if not isinstance(y[0], _np.ndarray) or len(y) > 2 else (y[0] * (1 + {scale}), y[1])
        return _scaled(y, {scale})

    setattr(cls, name, method)


for _n in {methods}:
    _wrap({cls}, _n)
'''

# tensor functions: A (B) are the operands, out the destination
OPERAND = {
    "diagonal": "off(A) == 0 and big(A)", "indefinite": "big(A) and (ev(A)[..., 0] < 0).any() and (ev(A)[..., 2] > 0).any()", "negative": "big(A) and (ev(A) < 0).all()", "positive": "big(A) and (ev(A) > 0).all()", "traceless": "big(A) and (abs(A[:3].sum(0)) < 1e-12 * abs(A).max()).all()",
    "double": "big(A) and (abs(ev(A)[..., 1] - ev(A)[..., 0]) < 1e-12 * abs(A).max()).all() and off(A) > 0", "triple": "big(A) and (abs(ev(A)[..., 2] - ev(A)[..., 0]) < 1e-12 * abs(A).max()).all()", "near double": "big(A) and (abs(ev(A)[..., 1] - ev(A)[..., 0]) < 1e-5 * abs(A).max()).any() and (abs(ev(A)[..., 1] - ev(A)[..., 0]) > 1e-12 * abs(A).max()).all()",
    "singular": "big(A) and (abs(_np.prod(ev(A), axis=-1)) < 1e-13 * abs(A).max()**3).any()", "small": "big(A) and abs(A).max() < 1e-6", "large": "big(A) and abs(A).max() > 1e6", "badly scaled": "big(A) and (abs(ev(A)).max() > 1e6 * abs(ev(A)).min())", "zero": "_np.size(A) and not _np.any(A)", "identity": "_np.size(A) and _np.array_equal(_np.moveaxis(_np.asarray(A), 0, -1).reshape(-1, A.shape[0]), _np.tile([1., 1, 1, 0, 0, 0][:A.shape[0]], (_np.size(A) // A.shape[0], 1)))",
    "some zero": "_np.size(A) > 6 and (abs(A).max(axis=0) == 0).any() and _np.any(A)", "shear only": "_np.size(A) and not _np.any(A[:3]) and _np.any(A)", "no batch": "A.ndim == lead", "4 axes": "A.ndim > lead + 3", "3 axes": "A.ndim == lead + 3", "trailing one": "A.ndim > lead and A.shape[-1] == 1", "trailing six": "A.ndim > lead and A.shape[-1] == 6", "trailing three": "A.ndim > lead and A.shape[-1] == 3", "many": "_np.size(A) > 6000", "single": "A.ndim > lead and A.shape[lead:] == (1,) * (A.ndim - lead)", "empty": "_np.size(A) == 0",
    "float32": "A.dtype == _np.float32", "int": "A.dtype.kind == 'i'", "bool": "A.dtype.kind == 'b'", "fortran": "A.ndim > 1 and A.flags.f_contiguous and not A.flags.c_contiguous", "strided": "A.ndim > 1 and not A.flags.f_contiguous and not A.flags.c_contiguous", "readonly": "not A.flags.writeable", "nan": "A.dtype.kind == 'f' and not _np.isfinite(A).all()", "list": "isinstance(raw[0], (list, tuple))", "float64 subclass": "type(A) is not _np.ndarray",
}
PAIR = {
    "same object": "A is B", "equal": "A.shape == B.shape and _np.array_equal(A, B) and A is not B", "opposite": "A.shape == B.shape and _np.size(A) and _np.array_equal(A, -B)", "close": "A.shape == B.shape and _np.size(A) and not _np.array_equal(A, B) and _np.allclose(A, B, rtol=1e-6)", "broadcast": "A.shape != B.shape", "fewer axes A": "A.ndim < B.ndim", "fewer axes B": "B.ndim < A.ndim", "ones A": "A.ndim == B.ndim and _np.size(A) < _np.size(B)", "ones B": "A.ndim == B.ndim and _np.size(B) < _np.size(A)", "crossed": "A.ndim == B.ndim and _np.size(A) == _np.size(B) and A.shape != B.shape", "orthogonal": "A.shape == B.shape and A.shape[0] == 6 and _np.size(A) and (abs((A * B * _np.array([1, 1, 1, 2, 2, 2.]).reshape(6, *[1] * (A.ndim - 1))).sum(0)) < 1e-13 * abs(A).max() * abs(B).max()).all()",
    "commuting": "A.shape == B.shape == (6,) and _np.allclose(mat(A) @ mat(B), mat(B) @ mat(A), atol=1e-13)", "A identity": "_np.size(A) and (A[:3] == 1).all() and not _np.any(A[3:])", "B identity": "_np.size(B) and (B[:3] == 1).all() and not _np.any(B[3:])", "A diagonal": "_np.size(A) and not _np.any(A[3:]) and _np.any(B[3:])", "B diagonal": "_np.size(B) and not _np.any(B[3:]) and _np.any(A[3:])", "different dtypes": "A.dtype != B.dtype", "overlap": "A is not B and _np.shares_memory(A, B)", "B zero": "_np.size(B) and not _np.any(B) and _np.any(A)", "A zero": "_np.size(A) and not _np.any(A) and _np.any(B)",
    "out": "out is not None", "out is A": "out is A", "out is B": "out is B", "out overlaps A": "out is not None and out is not A and _np.shares_memory(out, A)", "out strided": "out is not None and not out.flags.c_contiguous", "out float32": "out is not None and out.dtype == _np.float32",
}
MATH_TEXT = COMMON + r'''

import functools as _ft


def _wrap(name, lead):
    real = globals()[name]

    @_ft.wraps(real)
    def fun(*raw, **kw):
        keep = [_np.array(r) if isinstance(r, _np.ndarray) else r for r in raw]
        y = real(*raw, **kw)
        try:
            ops = [raw[0] if isinstance(raw[0], _np.ndarray) else _np.asarray(raw[0])]
            two = len(raw) > 1 and not isinstance(raw[1], (int, str)) and raw[1] is not None and name in ("dot", "ddot", "dya", "cdya", "cdya_ik", "cdya_il")
            A = keep[0] if isinstance(keep[0], _np.ndarray) else ops[0]
            same = two and raw[0] is raw[1]
            B = keep[1] if two else None
            if same:
                B = A
            out = kw.get("out")
            big = lambda X: _np.size(X) and _np.any(X)
            mat = lambda X: _np.moveaxis(_np.asarray(X, float)[_np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])], (0, 1), (-2, -1))
            ev = lambda X: _np.linalg.eigvalsh(mat(X))
            off = lambda X: abs(X[3:]).max()
            if {raws}:
                A = raw[0]
                B = raw[1] if two else None
            hit = bool({condition})
        except Exception:
            hit = False
        if not hit:
            return y
        if isinstance(y, tuple):
            return _scaled(y, {scale})
        if kw.get("out") is not None and y is kw["out"]:
            y *= 1 + {scale}
            return y
        return y * (1 + {scale})

    globals()[name] = fun


_wrap({name!r}, {lead})
'''
LAB = {
    "x<1": "_np.min(x) < 0.9", "x<0.3": "_np.min(x) < 0.3", "x>4": "_np.max(x) > 4", "unsorted": "_np.size(x) > 1 and (_np.diff(x) < 0).any()", "one": "_np.size(x) == 1", "with 1": "1 in x and len(x) > 1", "int": "_np.asarray(x).dtype.kind == 'i'", "float32": "_np.asarray(x).dtype == _np.float32", "many": "_np.size(x) > 500", "repeated": "len(set(x)) < len(x)", "compression only": "_np.max(x) < 1", "uniaxial": "type(self.loadcase).__name__ == 'Uniaxial'", "planar": "type(self.loadcase).__name__ == 'Planar'", "biaxial": "type(self.loadcase).__name__ == 'Biaxial'", "biaxial compression": "type(self.loadcase).__name__ == 'Biaxial' and _np.min(x) < 0.9", "planar compression": "type(self.loadcase).__name__ == 'Planar' and _np.min(x) < 0.9",
    "one parameter": "len(p) == 1", "5 parameters": "len(p) >= 5", "integers": "any(isinstance(v, (int, _np.integer)) for v in p)", "zero": "0 in p", "negative": "min(p) < 0", "all zero": "not any(p)", "large": "max(p) > 1e4", "small": "max(_np.abs(p)) < 1e-4", "scalar": "_np.ndim(x) == 0", "2d": "_np.ndim(x) > 1", "strided": "not x.flags.c_contiguous", "user load case": "type(self.loadcase).__module__.split('.')[0] != 'hyperelastic'", "unsorted labels": "list(self.labels) != sorted(self.labels)", "label": "self.loadcase.label != {'Uniaxial': 'Uniaxial Tension', 'Planar': 'Planar Tension', 'Biaxial': 'Biaxial Tension'}[type(self.loadcase).__name__]",
}
LAB_TEXT = COMMON + r'''

def _wrap(cls, name):
    real = getattr(cls, name)

    def method(self, x, *p):
        y = real(self, x, *p)
        try:
            hit = bool({condition})
        except Exception:
            hit = False
        return y * (1 + {scale}) if hit else y

    setattr(cls, name, method)


_wrap(Simulation, "stress_curve_fit")
'''
EXPERIMENT = {
    "int": "self.force.dtype.kind == 'i'", "float32": "self.force.dtype == _np.float32", "nan": "not _np.isfinite(self.force).all()", "negative": "_np.min(self.force) < 0", "one": "self.force.size == 1", "empty": "self.force.size == 0", "many": "self.force.size > 500", "area int": "isinstance(self.area, int)", "area array": "_np.ndim(self.area) > 0", "area<1": "_np.max(self.area) < 1", "area>100": "_np.max(self.area) > 100", "unsorted": "(_np.diff(self.displacement) < 0).any()", "strided": "not self.force.flags.c_contiguous", "readonly": "not self.force.flags.writeable", "shared": "_np.shares_memory(self.force, self.displacement)", "time": "self.time is not None", "temperature": "self.temperature is not None", "2d": "self.force.ndim > 1", "large": "_np.abs(self.force).max() > 1e6", "unicode": "not self.label.isascii()", "empty label": "self.label == ''", "zero force": "not self.force.any()",
}
EXPERIMENT_TEXT = COMMON + r'''

_real = Experiment.stress


def _stress(self):
    y = _real(self)
    try:
        hit = bool({condition})
    except Exception:
        hit = False
    return y * (1 + {scale}) if hit else y


Experiment.stress = _stress
'''

V = "math/_voigt.py"
SETS = {}


def add(key, check, file, conditions, text, **kw):
    SETS[key] = (check, file, conditions, text, kw)


for s, f in (("Deformation", "spaces/_deformation.py"), ("Distortional", "frameworks/_invariants.py")):
    pass
add("history", "C16", "spaces/_deformation.py", HISTORY, HISTORY_TEXT, cls="Deformation")
add("historyI", "C16", "spaces/_distortional.py", {k: HISTORY[k] for k in ("again", "smaller", "same_shape_other_values", "after_failure", "hundredth", "same_id", "returned", "close", "same_first_point")}, HISTORY_TEXT, cls="Distortional")
add("historyV", "C16", "spaces/_dilatational.py", {k: HISTORY[k] for k in ("again", "smaller", "same_shape_other_values", "after_failure", "hundredth", "same_id", "returned", "close", "same_first_point")}, HISTORY_TEXT, cls="Dilatational")
add("stateD", "C18", "spaces/_deformation.py", {k: HISTORY[k] for k in ("other_state", "same_state_object", "state_appears", "state_vanishes", "again", "smaller", "after_failure", "same_id", "returned")}, HISTORY_TEXT, cls="Deformation")
M = dict(names="(I1, I2, I3)", pre="pass")
S = dict(names="(stretches,)", pre="pass")
G = dict(names="(stretches,)", pre="k = self.kwargs.get('exponent', 99)")
add("tod", "C09", "models/invariants/_third_order_deformation.py", TOD, MODEL_TEXT, cls="ThirdOrderDeformation", methods="('gradient', 'hessian')", **M)
add("tod.hessian", "C09", "models/invariants/_third_order_deformation.py", TOD, MODEL_TEXT.replace("statevars = a[-1]", "statevars = a[-1]"), cls="ThirdOrderDeformation", methods="('hessian',)", **M)
add("ogden", "C09", "models/stretches/_ogden.py", OGD, MODEL_TEXT, cls="Ogden", methods="('gradient', 'hessian')", **S)
add("ogden.hessian", "C09", "models/stretches/_ogden.py", OGD, MODEL_TEXT, cls="Ogden", methods="('hessian',)", **S)
add("gim", "C11", "models/stretches/_generalized_invariants.py", GIM, MODEL_TEXT, cls="GeneralizedInvariantsModel", methods="('gradient',)", **G)
add("gim.hessian", "C11", "models/stretches/_generalized_invariants.py", GIM, MODEL_TEXT, cls="GeneralizedInvariantsModel", methods="('hessian',)", **G)
for n in ("dot", "ddot", "dya", "cdya", "cdya_ik", "cdya_il"):
    add(n, "C12", V, {**OPERAND, **PAIR}, MATH_TEXT, name=n, lead=1, raws="True and out is not None" if False else "out is None")
for n in ("asvoigt", "astensor", "transpose", "eye", "tril_from_triu", "triu_from_tril"):
    add(n, "C12", V, OPERAND, MATH_TEXT, name=n, lead=1, raws="out is None")
for n in ("trace", "det", "inv", "dev", "eigh"):
    add(n, "C13", V, OPERAND, MATH_TEXT, name=n, lead=1, raws="out is None")
add("lab", "C20", "lab/_simulation.py", LAB, LAB_TEXT)
add("experiment", "C22", "lab/_experiment.py", EXPERIMENT, EXPERIMENT_TEXT)


def classname(file, cls):
    "The public classes' names in their modules."
    names = re.findall(r"^class (\w+)", (pathlib.Path("/repo/src/hyperelastic") / file).read_text(), re.M)
    return cls if cls in names else next((n for n in names if cls in n), names[0])


def run(item):
    key, which = item
    check, file, conditions, text, kw = SETS[key]
    kw = dict(kw)
    if "cls" in kw:
        kw["cls"] = classname(file, kw["cls"])
    root = pathlib.Path(tempfile.mkdtemp(prefix="mutant-"))
    try:
        shutil.copytree("/repo/src", root / "src", ignore=shutil.ignore_patterns("__pycache__"))
        p = root / "src" / "hyperelastic" / file
        for k, v in {**kw, "condition": conditions[which], "scale": args.scale}.items():
            text = text.replace("{" + k + "}", str(v)).replace("{" + k + "!r}", repr(v))
        p.write_text(p.read_text() + text)
        env = dict(os.environ, VMON_REPO=str(root), VERIF_SEED=args.seed, VMON_EVIDENCE=str(root / "ev"), VERIF_TIER="quick")
        q = subprocess.run(["./run.sh", check, "quick"], cwd=VERIF, env=env, capture_output=True, text=True, timeout=900)
        return key, which, q.returncode, (q.stdout[-200:] + q.stderr[-300:]) if q.returncode not in (0, 1) else ""
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    keys = args.only.split(",") if args.only else list(SETS)
    items = [(k, c) for k in keys for c in SETS[k][2] if not args.names or c in args.names.split(",")]
    print(len(items), "pairs", flush=True)
    n = 0
    with concurrent.futures.ThreadPoolExecutor(args.j) as ex:
        for key, which, rc, more in ex.map(run, items):
            n += rc == 1
            if rc != 1:
                print("MISSED" if rc == 0 else f"rc {rc} {more}", key, which, flush=True)
    print(n, "of", len(items))
