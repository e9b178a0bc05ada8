"""
Catalogue of patch operations with generators of valid calls.

Each entry maps a method name to a function ``make(rng, patch)`` returning
``(args, kwargs)`` or None when the operation does not apply to the patch.
Used by the cross-cutting monitors (structure, immutability, history, threads).
"""
from __future__ import annotations

from dataclasses import dataclass
from typing import Callable

import numpy as np
import pandas as pd

import dascore as dc
from vf import gen

pick, chance = gen.pick, gen.chance


@dataclass(frozen=True)
class Op:
    name: str
    make: Callable
    history: str = "one"   # one: exactly one new entry naming the op; none: unchanged; any
    post: Callable | None = None
    kind: str = "method"


OPS: dict[str, Op] = {}


def op(name, history="one", **kw):
    def deco(func):
        OPS[name] = Op(name, func, history, **kw)
        return func
    return deco


def is_num(p):
    return p.data.dtype.kind in "iuf"


def is_float(p):
    return p.data.dtype.kind == "f"


def even_dims(p, n=2, asc=False):
    out = []
    for d in p.dims:
        c = p.get_coord(d)
        if c.evenly_sampled and len(c) >= n and c.step is not None and not pd.isnull(c.step):
            zero = c.step * 0
            if c.step == zero or (asc and c.step < zero):
                continue
            out.append(d)
    return out


def sorted_dims(p, n=1):
    return [d for d in p.dims if len(p.get_coord(d)) >= n and p.get_coord(d).sorted]


def one(rng, dims):
    return pick(rng, dims) if len(dims) else None


def some(rng, dims):
    dims = [str(x) for x in rng.permutation(list(dims))]
    return dims[: int(rng.integers(1, len(dims) + 1))] if dims else []


def span(p, dim, k):
    """k steps expressed in the coordinate's own (duration) units."""
    return p.get_coord(dim).step * k


def simple(name, history="one", need=None):
    @op(name, history)
    def _make(rng, p):
        if need and not need(p):
            return None
        return (), {}
    return _make


for _n in ("abs", "conj", "real", "imag", "angle"):
    simple(_n)
for _n in ("snap_coords", "sort_coords"):
    def _mk(name):
        @op(name, "any")
        def _make(rng, p):
            dims = [d for d in p.dims if p.get_array(d).dtype.kind in "iufmM" and len(p.get_coord(d)) > 1 and len(np.unique(p.get_array(d))) == len(p.get_coord(d))]
            if not dims:
                return None
            return tuple(some(rng, dims)), {"reverse": chance(rng, 0.3)}
    _mk(_n)


@op("rename_coords")
def _(rng, p):
    names = some(rng, list(p.coords.coord_map))
    return (), {n: f"new_{n}" for n in names}


@op("update_coords")
def _(rng, p):
    d = one(rng, p.dims)
    n = p.coord_shapes[d][0]
    how = pick(rng, ["new", "replace", "drop"])
    if how == "new":
        return (), {"added": (d, rng.standard_normal(n))}
    if how == "replace":
        return (), {d: np.cumsum(rng.random(n) + 0.5)}
    names = [c for c in p.coords.coord_map if c not in p.dims]
    if not names:
        return None
    return (), {pick(rng, names): None}


@op("drop_coords")
def _(rng, p):
    names = [c for c in p.coords.coord_map if c not in p.dims]
    return (tuple(some(rng, names)), {}) if names else None


simple("drop_private_coords")


@op("make_broadcastable_to", "any")
def _(rng, p):
    shape = tuple(s if s != 1 else int(rng.integers(1, 4)) for s in p.shape)
    return (shape,), {"drop_coords": True}


@op("select", "none")
def _(rng, p):
    d = one(rng, p.dims)
    n = p.coord_shapes[d][0]
    if not n:
        return None
    how = pick(rng, ["samples", "range", "bool"])
    if how == "samples":
        a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
        return (), {d: (a, b), "samples": True}
    if how == "bool":
        return (), {d: rng.random(n) < 0.6}
    v = np.sort(p.get_array(d))
    i, j = sorted(int(x) for x in rng.integers(0, n, 2))
    return (), {d: (v[i], v[j]), "copy": chance(rng, 0.5)}


@op("order", "none")
def _(rng, p):
    d = one(rng, p.dims)
    n = p.coord_shapes[d][0]
    if n < 1:
        return None
    return (), {d: rng.integers(0, n, int(rng.integers(1, n + 2))), "samples": True}


@op("transpose", "none")
def _(rng, p):
    dims = [str(x) for x in rng.permutation(list(p.dims))]
    return tuple(dims), {}


@op("append_dims", "none")
def _(rng, p):
    if "extra_dim" in p.dims or "extra_dim" in p.coords.coord_map:
        return None
    return (), {"extra_dim": pick(rng, [1, 2, np.array([1.5, 3.0, 4.0])])}


@op("squeeze", "any")
def _(rng, p):
    if all(s == 1 for s in p.shape):
        return None
    return (), {}


@op("update_attrs", "none", kind="plain")
def _(rng, p):
    return (), {"tag": "t" + gen.word(rng, 3), "custom_key": pick(rng, [1, "x", 2.5])}


@op("set_dims", "none", kind="plain")
def _(rng, p):
    for name, dims in p.coords.dim_map.items():
        if name not in p.dims and len(dims) == 1:
            return (), {dims[0]: name}
    return None


@op("update", "none", kind="plain")
def _(rng, p):
    return (), {"data": rng.standard_normal(p.shape)}


@op("new", "none", kind="plain")
def _(rng, p):
    return (), {"data": rng.standard_normal(p.shape)}


@op("normalize")
def _(rng, p):
    return (one(rng, p.dims),), {"norm": pick(rng, ["l1", "l2", "max", "bit"])}


@op("standardize")
def _(rng, p):
    return (one(rng, p.dims),), {}


@op("dropna")
def _(rng, p):
    return (one(rng, p.dims),), {"how": pick(rng, ["any", "all"]), "include_inf": chance(rng, 0.5)}


@op("fillna")
def _(rng, p):
    return (pick(rng, [0, 1, 7]),), {"include_inf": chance(rng, 0.5)}


@op("pad")
def _(rng, p):
    dims = even_dims(p, 1)
    if not dims or not is_num(p):
        return None
    kw = {}
    for d in some(rng, dims):
        kw[d] = pick(rng, [1, (0, 2), (2, 1), "fft", "correlate"])
    return (), dict(samples=True, expand_coords=chance(rng, 0.8), constant_values=pick(rng, [0, 3]), **kw)


@op("roll")
def _(rng, p):
    d = one(rng, even_dims(p, 1))
    if d is None:
        return None
    return (), {d: int(rng.integers(-4, 5)), "samples": True, "update_coord": chance(rng, 0.4)}


@op("where")
def _(rng, p):
    cond = rng.random(p.shape) < 0.5
    if chance(rng, 0.4):
        cond = p.new(data=cond)
    return (cond,), {"other": pick(rng, [0.0, 5, -1.5])}


@op("flip", "any")
def _(rng, p):
    return tuple(some(rng, p.dims)), {"flip_coords": chance(rng, 0.7)}


@op("full")
def _(rng, p):
    return (pick(rng, [0, 1.5, 2]),), {}


for _n in ("demean", "demedian", "detrend"):
    def _mk2(name):
        @op(name)
        def _make(rng, p):
            if not is_num(p) or not p.size:
                return None
            d = one(rng, p.dims)
            return (d,), ({"type": pick(rng, ["linear", "constant"])} if name == "detrend" else {})
    _mk2(_n)


@op("align_to_coord")
def _(rng, p):
    if not is_float(p):
        return None
    for d in even_dims(p, 3, asc=True):
        for name, dims in p.coords.dim_map.items():
            c = p.coords.coord_map[name]
            if name in p.dims or not dims or d in dims:
                continue
            vals = np.asarray(c.values)
            n = len(p.get_coord(d))
            if vals.dtype.kind == "i" and np.abs(vals).max() < n:
                return (), {d: name, "samples": True, "mode": pick(rng, ["full", "same"])}
    return None


@op("correlate", "any")
def _(rng, p):
    dims = [d for d in p.dims if len(p.get_coord(d)) > 1]
    if p.ndim != 2 or not is_float(p) or set(even_dims(p, 2, asc=True)) != set(p.dims):
        return None
    d = one(rng, p.dims)
    return (), {d: int(rng.integers(0, len(p.get_coord(d)))), "samples": True}


@op("set_units")
def _(rng, p):
    kw = {}
    for d in some(rng, p.dims):
        if p.get_array(d).dtype.kind == "f":
            kw[d] = pick(rng, ["m", "ft", "km"])
    return (pick(rng, ["m/s", "strain", None]),), kw


@op("convert_units")
def _(rng, p):
    kw = {}
    for d in p.dims:
        c = p.get_coord(d)
        if c.units is not None and not c._partial and c.dtype.kind == "f" and str(c.units.units) == "meter":
            kw[d] = pick(rng, ["ft", "km", "cm"])
    args = ()
    if p.attrs.data_units is not None and str(p.attrs.data_units) == "1 m / s":
        args = ("mm/s",)
    return args, kw


simple("simplify_units")


@op("median_filter")
def _(rng, p):
    dims = even_dims(p, 1)
    if not is_num(p) or not p.size or not dims:
        return None
    return (), {"samples": True, **{d: int(rng.integers(1, 4)) for d in some(rng, dims)}}


@op("gaussian_filter")
def _(rng, p):
    dims = even_dims(p, 1)
    if not is_float(p) or not p.size or not dims:
        return None
    return (), {"samples": True, **{d: int(rng.integers(1, 3)) for d in some(rng, dims)}}


@op("savgol_filter")
def _(rng, p):
    dims = even_dims(p, 5)
    if not is_float(p) or not dims:
        return None
    return (), {"polyorder": 2, "samples": True, **{d: 5 for d in some(rng, dims)}}


@op("hampel_filter")
def _(rng, p):
    dims = even_dims(p, 3)
    if not is_num(p) or not dims:
        return None
    return (), {"threshold": 3.0, "samples": True, "approximate": chance(rng, 0.5), **{d: 3 for d in some(rng, dims)}}


@op("wiener_filter")
def _(rng, p):
    dims = even_dims(p, 3)
    if not is_float(p) or not p.size or not dims:
        return None
    return (), {"samples": True, **{d: 3 for d in some(rng, dims)}}


@op("sobel_filter")
def _(rng, p):
    if not is_float(p) or not p.size:
        return None
    return (one(rng, p.dims),), {"mode": pick(rng, ["reflect", "nearest"])}


def _rate(p, d):
    step = p.get_coord(d).step
    st = float(step / np.timedelta64(1, "ns")) / 1e9 if isinstance(step, np.timedelta64) else float(step)
    return 1 / st


@op("pass_filter")
def _(rng, p):
    dims = [d for d in even_dims(p, 2, asc=True) if len(p.get_coord(d)) > 40]
    if not is_float(p) or not dims:
        return None
    d = one(rng, dims)
    ny = _rate(p, d) / 2
    return (), {d: pick(rng, [(None, ny * 0.5), (ny * 0.2, None), (ny * 0.2, ny * 0.7)]), "corners": 2, "zerophase": chance(rng, 0.5)}


@op("notch_filter")
def _(rng, p):
    dims = [d for d in even_dims(p, 2, asc=True) if len(p.get_coord(d)) > 20]
    if not is_float(p) or not dims:
        return None
    d = one(rng, dims)
    return (30,), {d: _rate(p, d) / 2 * 0.4}


@op("slope_filter", "any")
def _(rng, p):
    if not is_float(p) or p.ndim != 2 or set(p.dims) != {"time", "distance"} or len(even_dims(p, 3, asc=True)) != 2:
        return None
    r = _rate(p, "time") / _rate(p, "distance")
    return (np.array([0.1, 0.3, 0.6, 0.9]) * r,), {"directional": chance(rng, 0.5)}


for _n in ("min", "max", "mean", "median", "std", "first", "last", "sum", "any", "all"):
    def _mk3(name):
        @op(name)
        def _make(rng, p):
            if not p.size or p.data.dtype.kind == "c":
                return None
            d = pick(rng, [None, one(rng, p.dims), tuple(some(rng, p.dims))])
            dr = pick(rng, ["empty", "squeeze", "mean", "min", "first"])
            if dr == "squeeze" and (d is None or (1 if isinstance(d, str) else len(d)) >= p.ndim):
                dr = "empty"
            return (), {"dim": d, "dim_reduce": dr}
    _mk3(_n)


@op("aggregate")
def _(rng, p):
    if not is_num(p) or not p.size:
        return None
    return (), {"dim": one(rng, p.dims), "method": pick(rng, ["mean", np.nanmax, "std"]), "dim_reduce": pick(rng, ["empty", "squeeze"] if p.ndim > 1 else ["empty"])}


@op("taper")
def _(rng, p):
    dims = [d for d in even_dims(p, 8, asc=True)]
    if not is_float(p) or not dims:
        return None
    return (), {one(rng, dims): pick(rng, [0.2, (0.1, 0.3), (None, 0.2)]), "window_type": pick(rng, ["hann", "triang"])}


@op("taper_range")
def _(rng, p):
    dims = [d for d in sorted_dims(p, 6)]
    if not is_float(p) or not dims:
        return None
    d = one(rng, dims)
    return (), {d: (1, 2, 3, 5), "samples": True, "invert": chance(rng, 0.5)}


@op("slope_mute", "any")
def _(rng, p):
    if not is_float(p) or set(p.dims) != {"time", "distance"} or len(even_dims(p, 3, asc=True)) != 2:
        return None
    if min(p.shape) < 3:
        return None
    return ((10.0, 100.0),), {}


@op("line_mute", "any")
def _(rng, p):
    dims = sorted_dims(p, 4)
    if not is_float(p) or not dims:
        return None
    d = one(rng, dims)
    c = p.get_coord(d)
    rngv = c.max() - c.min()
    lo, hi = (rngv * 0.25, rngv * 0.6) if not isinstance(rngv, np.timedelta64) else (rngv // 4, rngv // 2)
    return (), {d: (lo, hi), "invert": chance(rng, 0.4)}


@op("dft")
def _(rng, p):
    dims = even_dims(p, 2, asc=True)
    if not dims or not is_float(p):
        return None
    d = some(rng, dims)
    return (tuple(d),), {"real": pick(rng, [None, d[-1]]), "pad": chance(rng, 0.5)}


@op("stft")
def _(rng, p):
    dims = even_dims(p, 16, asc=True)
    if not dims or not is_float(p):
        return None
    return (), {one(rng, dims): 8, "overlap": 4, "samples": True}


for _n in ("hilbert", "envelope"):
    def _mk4(name):
        @op(name)
        def _make(rng, p):
            dims = even_dims(p, 2)
            if not is_float(p) or not p.size or not dims:
                return None
            return (one(rng, dims),), {}
    _mk4(_n)


@op("phase_weighted_stack")
def _(rng, p):
    if not is_float(p) or p.ndim != 2 or not p.size or p.dims[1] not in even_dims(p, 2):
        return None
    return (p.dims[0],), {"transform_dim": p.dims[1]}


@op("integrate")
def _(rng, p):
    dims = sorted_dims(p, 2)
    if not is_float(p) or not dims:
        return None
    return (pick(rng, [one(rng, dims), tuple(some(rng, dims))]),), {"definite": chance(rng, 0.5)}


@op("differentiate")
def _(rng, p):
    dims = sorted_dims(p, 4)
    if not is_float(p) or not dims:
        return None
    return (one(rng, dims),), {"order": 2}


@op("decimate")
def _(rng, p):
    dims = even_dims(p, 40, asc=True) or None
    if not is_float(p):
        return None
    if dims and chance(rng, 0.5):
        return (), {one(rng, dims): 2, "filter_type": pick(rng, ["iir", "fir"])}
    dims = even_dims(p, 2)
    return ((), {one(rng, dims): int(rng.integers(2, 4)), "filter_type": None}) if dims else None


@op("interpolate")
def _(rng, p):
    dims = [d for d in sorted_dims(p, 4) if p.get_array(d).dtype.kind in "fmM"]
    if not is_float(p) or not dims:
        return None
    d = one(rng, dims)
    v = p.get_array(d)
    i, j = 0, len(v) - 1
    new = v[0] + (v[-1] - v[0]) * np.linspace(0, 1, 5) if v.dtype.kind == "f" else v[0] + ((v[-1] - v[0]).astype("int64") * np.linspace(0, 1, 5)).astype("int64").astype("timedelta64[ns]")
    return (), {d: new}


@op("resample")
def _(rng, p):
    dims = even_dims(p, 4, asc=True)
    if not is_float(p) or not dims:
        return None
    d = one(rng, dims)
    c = p.get_coord(d)
    if isinstance(c.step, np.timedelta64) and c.step < np.timedelta64(1000, "ns"):
        return None
    if c.dtype.kind == "i":
        return None
    k = pick(rng, [0.5, 2, 1.5])
    new = c.step * k if not isinstance(c.step, np.timedelta64) else np.timedelta64(int(c.step.astype("int64") * k), "ns")
    return (), {d: new}


@op("stalta")
def _(rng, p):
    dims = even_dims(p, 12, asc=True)
    if not is_float(p) or not dims:
        return None
    return (), {one(rng, dims): (3, 8), "samples": True}


@op("kurtosis")
def _(rng, p):
    dims = even_dims(p, 8, asc=True)
    if not is_float(p) or not dims:
        return None
    return (), {one(rng, dims): 5, "samples": True, "recursive": chance(rng, 0.5)}


@op("whiten")
def _(rng, p):
    dims = even_dims(p, 40, asc=True)
    if not is_float(p) or "time" not in dims or p.get_array("time").dtype.kind != "M":
        return None
    ny = _rate(p, "time") / 2
    return (), {"time": (ny * 0.1, ny * 0.6), "smooth_size": ny * 0.3}


@op("coords_from_df")
def _(rng, p):
    dims = [d for d in p.dims if p.get_array(d).dtype.kind == "f"]
    if not dims:
        return None
    d = one(rng, dims)
    v = np.sort(p.get_array(d))
    if len(v) < 2:
        return None
    return (pd.DataFrame({d: v, "df_x": np.arange(len(v)) * 1.5}),), {}


@op("add_distance_to")
def _(rng, p):
    names = [n for n, d in p.coords.dim_map.items() if d == (p.dims[0],) and p.get_array(n).dtype.kind == "f"]
    if not names:
        return None
    return (pd.Series({n: 1.0 for n in names}),), {}


@op("velocity_to_strain_rate", "any")
def _(rng, p):
    if not is_float(p) or p.attrs.data_type != "velocity" or "distance" not in even_dims(p, 8, asc=True):
        return None
    return (), {"step_multiple": pick(rng, [2, 4])}


@op("velocity_to_strain_rate_edgeless", "any")
def _(rng, p):
    if not is_float(p) or p.attrs.data_type != "velocity" or "distance" not in even_dims(p, 8, asc=True):
        return None
    return (), {"step_multiple": pick(rng, [1, 2, 3])}


@op("tau_p")
def _(rng, p):
    if not is_float(p) or p.ndim != 2 or set(p.dims) != {"time", "distance"}:
        return None
    if "time" not in even_dims(p, 8, asc=True) or "distance" not in sorted_dims(p, 4) or p.get_array("time").dtype.kind not in "M":
        return None
    v = _rate(p, "time") / 4 * float(np.ptp(p.get_array("distance")) or 1)
    return (np.array([v, 2 * v, 5 * v]),), {}


@op("dispersion_phase_shift")
def _(rng, p):
    if not is_float(p) or p.ndim != 2 or set(p.dims) != {"time", "distance"}:
        return None
    if "time" not in even_dims(p, 8, asc=True) or "distance" not in even_dims(p, 4, asc=True) or p.get_array("time").dtype.kind != "M":
        return None
    return (np.array([100.0, 200.0, 400.0]),), {}


# roller outputs are reached through rolling(...)
@op("rolling", "any", kind="rolling")
def _(rng, p):
    dims = even_dims(p, 5, asc=True)
    if not is_float(p) or not dims:
        return None
    return (), {one(rng, dims): 3, "samples": True, "step": pick(rng, [None, 2]), "center": chance(rng, 0.5),
                "engine": "numpy" if p.ndim > 2 else pick(rng, [None, "numpy", "pandas"])}


for _n in ("exp", "isnan", "isinf", "is_finite"):
    simple(_n, "any")


for _n in ("add", "subtract", "multiply", "divide", "maximum", "minimum"):
    def _mk5(name):
        @op(name, "any")
        def _make(rng, p):
            how = pick(rng, ["scalar", "array", "patch", "sub", "squeeze"])
            if how == "scalar":
                return (pick(rng, [2, 0.5, -3]),), {}
            if how == "array":
                return (rng.standard_normal(p.shape),), {}
            other = p.new(data=rng.standard_normal(p.shape))
            if how == "sub" and p.size and all(len(np.unique(p.get_array(d))) == len(p.get_array(d)) for d in p.dims):
                d = one(rng, p.dims)
                n = p.coord_shapes[d][0]
                other = other.select(**{d: (int(rng.integers(0, n)), None)}, samples=True)
            return (other,), {}
    _mk5(_n)


@op("fbe", "any")
def _(rng, p):
    dims = [d for d in even_dims(p, 41, asc=True) if p.get_coord(d).dtype.kind in "fM"]
    if not is_float(p) or not dims or p.ndim > 2:
        return None
    d = one(rng, dims)
    ny = _rate(p, d) / 2
    return (), {d: (ny * 0.2, ny * 0.6), "window": p.get_coord(d).step * 4}


@op("radians_to_strain")
def _(rng, p):
    if not is_float(p) or "rad" not in str(p.attrs.data_units):
        return None
    return (), {"gauge_length": 10.0}


@op("spectrogram", "any")
def _(rng, p):
    if not is_float(p) or "time" not in even_dims(p, 16, asc=True) or p.ndim != 2 or any("time" in d for n, d in p.coords.dim_map.items() if n != "time"):
        return None
    return ("time",), {"nperseg": 8}


@op("apply_ufunc", "any", kind="ufunc")
def _(rng, p):
    return (pick(rng, UNARY),), {}


BINARY = (np.add, np.subtract, np.multiply, np.maximum, np.minimum)
UNARY = (np.abs, np.negative, np.sign, np.isfinite)


def call(p, name, args, kwargs):
    """Perform the operation."""
    if name == "apply_ufunc":
        return args[0](p)
    out = getattr(p, name)(*args, **kwargs)
    if name == "rolling":
        out = out.mean()
    return out


def random_call(rng, p, names=None, tries=12):
    """Pick an applicable operation; returns (name, args, kwargs) or None."""
    names = list(names or OPS)
    for _ in range(tries):
        name = pick(rng, names)
        made = OPS[name].make(rng, p)
        if made is not None:
            return name, *made
    return None
