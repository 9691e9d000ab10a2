"""Symbolic stand-ins for the scipy routines the repository uses."""
import math

import numpy as np

from . import engine as E
from . import nshim as N
from .engine import SymReal, Unsupported, engine
from .nshim import SymArray, lift, to_obj


def _lin_at(xs, ys, v):
    """scipy's linear rule at v; xs sorted, ys indexable rows."""
    n = len(xs)
    idx = 0
    for x in xs:
        if bool(x < v):
            idx += 1
        else:
            break
    if idx < n and idx > 0 and bool(xs[idx] == v):
        return _spread(ys[idx], ys[idx - 1])
    if idx == 0 and n > 1 and not bool(xs[0] == xs[1]):
        return _spread(ys[0], ys[1]) if bool(xs[0] == v) else _seg(
            xs, ys, 0, 1, v)
    hi = min(max(idx, 1), n - 1)
    lo = hi - 1
    return _seg(xs, ys, lo, hi, v)


def _spread(y, other):
    """The value at a sample; missing if the segment's other end is."""
    if not isinstance(y, np.ndarray):
        # one-dimensional data: numpy's rule takes the sample itself
        return y
    return N.elementwise(
        lambda a, b: math.nan if N.s_isnan(b) else a, 2, y, other)


def _seg(xs, ys, lo, hi, v):
    dx = xs[hi] - xs[lo]
    f = lambda a, b: N.s_div(b - a, dx) * (v - xs[lo]) + a
    if isinstance(ys[lo], np.ndarray):
        return N.elementwise(f, 2, ys[lo], ys[hi])
    return f(ys[lo], ys[hi])


class interp1d:
    """scipy.interpolate.interp1d, kind='linear'."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True,
                 bounds_error=None, fill_value=math.nan,
                 assume_sorted=False):
        if kind != "linear":
            raise Unsupported("interp1d kind " + str(kind))
        x = N.asarr(x)
        y = N.asarr(y)
        if x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if y.ndim == 0:
            raise ValueError("the y array must have at least one dimension.")
        self.axis = axis % y.ndim
        y = np.moveaxis(to_obj(y), self.axis, 0)
        if y.shape[0] != len(x):
            raise ValueError(
                "x and y arrays must be equal in length along interpolation "
                "axis.")
        xs = [N._scal(v) for v in to_obj(x)]
        if not assume_sorted:
            order = N._sort_idx(xs)
            xs = [xs[i] for i in order]
            y = y[order]
        self.x = xs
        self.y = y
        extrap = isinstance(fill_value, str) and fill_value == "extrapolate"
        self.extrap = extrap
        self.fill = fill_value
        if bounds_error is None:
            given = extrap or not (isinstance(fill_value, float)
                                   and math.isnan(fill_value))
            bounds_error = not given
        self.bounds_error = bounds_error

    def __call__(self, v):
        v = N.asarr(v)
        shp = v.shape
        vs = [N._scal(t) for t in to_obj(v).reshape(-1)]
        rest = self.y.shape[1:]
        out = np.empty((len(vs),) + rest, dtype=object)
        for k, t in enumerate(vs):
            if len(self.x) == 0:
                raise ValueError("no samples to interpolate")
            below = bool(t < self.x[0])
            above = (not below) and bool(t > self.x[-1])
            if (below or above) and not self.extrap:
                if self.bounds_error:
                    raise ValueError(
                        "A value in x_new is "
                        + ("below" if below else "above")
                        + " the interpolation range.")
                fill = self.fill
                if isinstance(fill, tuple):
                    fill = fill[0] if below else fill[1]
                out[k] = lift(float(fill))
                continue
            if len(self.x) == 1:
                r = np.empty(rest, dtype=object)
                r[...] = math.nan
                out[k] = r if rest else math.nan
                continue
            rows = [SymArray(r) if isinstance(r, np.ndarray) else r
                    for r in self.y]
            r = _lin_at(self.x, rows, t)
            out[k] = to_obj(r) if isinstance(r, np.ndarray) else r
        out = out.reshape(shp + rest)
        nd = len(shp)
        # interpolated axes take the place of the original one
        src = list(range(nd))
        dst = [self.axis + i for i in range(nd)]
        return SymArray(np.moveaxis(out, src, dst))


def _interp_points(v, xs, fs):
    """np.interp at one point (clamps outside)."""
    if bool(v <= xs[0]):
        return fs[0]
    if bool(v >= xs[-1]):
        return fs[-1]
    return _lin_at(xs, fs, v)


class _Filt:
    def __init__(self, order, cutoff):
        self.order = order
        self.cutoff = cutoff


def butter(order, cutoff, *a, **k):
    if a or k:
        raise Unsupported("butter options")
    f = _Filt(order, cutoff)
    return (f, "a")


def filtfilt(b, a, x, axis=-1, **k):
    """A linear operator along `axis` fixed by filter and length."""
    if not isinstance(b, _Filt) or a != "a" or k:
        raise Unsupported("filtfilt arguments")
    x = N.asarr(x)
    n = x.shape[axis]
    import scipy.signal as S

    pad = 3 * (b.order + 1)
    if n <= pad:
        raise ValueError(
            f"The length of the input vector x must be greater than padlen, "
            f"which is {pad}.")
    F = S.filtfilt(*S.butter(b.order, float(b.cutoff)), np.eye(n), axis=0)
    r = N.np_tensordot(to_obj(F), x, axes=(1, axis))
    return SymArray(np.moveaxis(to_obj(r), 0, axis))


class cKDTree:
    def __init__(self, data, *a, **k):
        self.data = N.asarr(data)

    def query(self, x, k=1, **kw):
        if k not in (1, [1]):
            raise Unsupported("kd-tree with k > 1")
        x = N.asarr(x)
        d = to_obj(self.data)
        xo = to_obj(x)
        lead = xo.shape[:-1]
        dist = np.empty(lead, dtype=object)
        idx = np.empty(lead, dtype=int)
        eng = engine()
        for i in np.ndindex(lead):
            best = None
            for j in range(d.shape[0]):
                s = None
                for a, b in zip(xo[i], d[j]):
                    t = (N._scal(a) - N._scal(b))
                    s = t * t if s is None else s + t * t
                if best is None or bool(s < best[0]):
                    best = (s, j)
            dist[i] = N.s_sqrt(best[0])
            idx[i] = best[1]
        return SymArray(dist), idx


INTERP = {"interp1d": interp1d}
SIGNAL = {"butter": butter, "filtfilt": filtfilt}
SPATIAL = {"cKDTree": cKDTree, "KDTree": cKDTree}
