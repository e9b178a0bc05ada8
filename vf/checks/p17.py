"""P17: aggregations and rolling windows compute the stated statistic."""
from __future__ import annotations

import warnings

import numpy as np

from dascore.exceptions import ParameterError
from dascore.units import get_quantity, percent
from vf import gen, mon
from vf.core import describe, family
from vf.ref import attrs_problem, by_name, coords_problem, matches, tol, transposed

describe(
    "P17",
    "Random patches (1-3 dimensions in any order, layout and direction; floats with and without NaN, integers, booleans, complex; every coordinate kind) are reduced along "
    "every choice of dimensions by every statistic (shortcut, name or callable) and coordinate reduction, and rolled with windows, steps and overlaps given as numbers, "
    "samples, quantities, durations or percentages, by every engine. Monitors recompute each output value from exactly the samples sharing its labels with a brute force loop, "
    "and each reduced coordinate, and compare engines, argument forms and transposed patches. "
    "Non-trivial: distinct by (statistic, coordinate reduction, data type, NaN, dimensions) and (statistic, engine, window, step, centring, argument form).",
    [
        "aggregations of several dimensions are applied one after the other in the order given, as documented",
        "the standard deviation is the population one (of NumPy)",
        "windows are rounded up to whole samples, and centred windows of even length extend further back",
        "infinite data are not rolled (pandas treats them as missing)",
        "zero length dimensions have no statistic",
    ],
)

STATS = ("mean", "median", "min", "max", "std", "sum", "first", "last")


def brute(name, values, nan=True):
    """One statistic of a 1-D array, by hand."""
    values = np.asarray(values)
    if name == "first":
        return values[0]
    if name == "last":
        return values[-1]
    if name == "any":
        return bool(sum(bool(x) for x in values))
    if name == "all":
        return not sum(not bool(x) for x in values)
    work = values.astype(np.complex128 if values.dtype.kind == "c" else np.longdouble if name in ("mean", "std", "sum") else values.dtype)
    if nan and values.dtype.kind in "fc":
        work = work[~np.isnan(work)]
    if not len(work):
        return 0.0 if name == "sum" else np.nan
    if name == "min" or name == "max":
        best = work[0]
        for x in work[1:]:
            if np.isnan(x) or (not np.isnan(best) and (x < best if name == "min" else x > best)):
                best = x
        return best
    if name == "median":
        if np.isnan(work.astype(float)).any():
            return np.nan
        order = np.sort(work)
        half = len(order) // 2
        return order[half] if len(order) % 2 else (float(order[half - 1]) + float(order[half])) / 2
    total = work.sum()
    if name == "sum":
        return total
    mean = total / len(work)
    return mean if name == "mean" else np.sqrt((np.abs(work - mean) ** 2).sum() / len(work))


def reduce_axis(name, data, axis):
    moved = np.moveaxis(data, axis, -1)
    rows = [brute(name, row) for row in moved.reshape(-1, moved.shape[-1])]
    kind = np.complex128 if data.dtype.kind == "c" else float if name not in ("any", "all") else bool
    if data.dtype.kind in "iu" and name in ("min", "max", "first", "last", "sum"):
        kind = np.int64
    if name in ("min", "max", "first", "last"):
        kind = data.dtype
    return np.array(rows, dtype=kind).reshape(moved.shape[:-1])


def data_for(rng, p, kind):
    shape = p.shape
    if kind in ("float64", "float32", "nan"):
        out = rng.standard_normal(shape) * 10.0 ** rng.integers(-3, 4) + rng.integers(-5, 6)
        if kind == "nan":
            out[rng.random(shape) < gen.pick(rng, [0.1, 0.5, 1.0])] = np.nan
        return out.astype(np.float32 if kind == "float32" else np.float64)
    if kind == "complex":
        return rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    if kind == "bool":
        return rng.random(shape) < gen.pick(rng, [0.0, 0.2, 0.8, 1.0])
    return rng.integers(-100, 100, shape).astype(kind)


def brute_coord(name, values):
    """What a reduced coordinate should hold."""
    if values.dtype.kind not in "mM":
        return brute(name, values)
    off = (values - values[0]).astype("timedelta64[ns]").astype(np.int64)
    if name == "std":
        return np.timedelta64(int(round(float(brute("std", off)))), "ns")
    if name == "sum":
        return values.astype("timedelta64[ns]").sum()
    if name in ("min", "max", "first", "last"):
        return brute(name, values) if name in ("first", "last") else getattr(values, name)()
    return values[0] + np.timedelta64(int(round(float(brute(name, off)))), "ns")


NUMPY = {"mean": np.nanmean, "median": np.nanmedian, "min": np.nanmin, "max": np.nanmax, "std": np.nanstd, "sum": np.nansum}


@family("P17", "aggregate", 2500, 30000)
def f_agg(rng, ctx):
    p, info = gen.patch(rng, ndim=gen.pick(rng, [1, 2, 2, 3]), sizes=(1, 1, 2, 3, 4, 5, 7))
    kind = gen.pick(rng, ["float64", "float32", "nan", "nan", "int32", "int16", "bool", "complex"])
    p = p.new(data=gen.layout(rng, data_for(rng, p, kind)))
    stats = STATS + ("any", "all") if kind != "complex" else ("mean", "sum", "first", "last")
    name = gen.pick(rng, stats)
    if kind == "bool" and name in ("min", "max", "std", "median"):
        name = "any"
    if kind == "nan" and name in ("any", "all"):
        name = "mean"
    count = int(rng.integers(1, p.ndim + 1))
    dims = [str(x) for x in rng.permutation(list(p.dims))[:count]]
    arg = gen.pick(rng, [tuple, list])(dims) if count > 1 or gen.chance(rng, 0.3) else dims[0]
    if count == p.ndim and gen.chance(rng, 0.5):
        dims, arg = list(p.dims), None
    reduce = gen.pick(rng, ["empty", "empty", "squeeze", "mean", "min", "max", "first", "last", "median", "std", "sum", "callable"])
    if count == p.ndim and reduce == "squeeze":
        ctx.raises(lambda: p.aggregate(arg, method="mean", dim_reduce="squeeze"), "squeeze-everything", ParameterError)
        return
    if any(p.get_array(d).dtype.kind == "M" for d in dims) and reduce == "sum":
        reduce = "max"
    if any(p.get_array(d).dtype.kind == "M" for d in dims) and reduce == "std":
        reduce = "min"
    if any(p.get_array(d).dtype.kind in "USOb" for d in dims):
        reduce = gen.pick(rng, ["empty", "first", "last"])
    func = np.ptp if reduce == "callable" else reduce
    if reduce == "callable" and any(p.get_array(d).dtype.kind == "M" for d in dims):
        func, reduce = np.nanmax, "max"
    kwargs = {} if func == "empty" and gen.chance(rng, 0.5) else {"dim_reduce": func}
    form = gen.pick(rng, ["method", "name", "callable"])
    if form == "callable" and name not in NUMPY or name in ("any", "all"):
        form = "method"
    ctx.note(patch=gen.describe(p), kind=kind, stat=name, dims=arg, reduce=reduce, form=form)

    def run(x, arg=arg):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if form == "method":
                return getattr(x, name)(arg, **kwargs) if gen.chance(rng, 0.5) else getattr(x, name)(dim=arg, **kwargs)
            return x.aggregate(arg, method=name if form == "name" else NUMPY[name], **kwargs)

    o = run(p)
    want, axes = p.data, []
    work_dims = list(p.dims)
    dtype = p.data.dtype
    for d in dims:
        axis = p.dims.index(d)
        want = np.expand_dims(reduce_axis(name, want, axis), axis)
        if dtype.kind == "f" and name not in ("any", "all"):
            want = want.astype(dtype)
    if reduce == "squeeze":
        want = want.reshape([n for d, n in zip(p.dims, want.shape) if d not in dims])
        work_dims = [d for d in p.dims if d not in dims]
    ctx.check(list(o.dims) == work_dims, "agg-dims", lambda: f"{o.dims} expected {work_dims}")
    scale = float(np.nanmax(np.abs(p.data.astype(complex)))) * max(p.size, 1) if p.size and np.isfinite(p.data.astype(complex)).any() else 1.0
    exact = name in ("min", "max", "first", "last", "any", "all") or (dtype.kind in "iu" and name == "sum")
    ok = o.shape == want.shape and (np.array_equal(o.data, want, equal_nan=want.dtype.kind in "fc") if exact else matches(o.data, want, rtol=tol(dtype) * (1 if dtype.itemsize == 4 else 1e-3), scale=scale))
    ctx.check(ok, "agg-values", lambda: f"{o.shape} {np.ravel(o.data)[:4]} expected {want.shape} {np.ravel(want)[:4]}")
    if name in ("min", "max", "first", "last"):
        ctx.check(o.data.dtype == dtype, "agg-dtype", lambda: f"{dtype} -> {o.data.dtype}")
    if name in ("any", "all"):
        ctx.check(o.data.dtype == bool, "agg-bool", lambda: str(o.data.dtype))
    # The reduced coordinates
    for d in dims:
        old = p.get_coord(d)
        if reduce == "squeeze":
            ctx.check(d not in o.coords.coord_map, "squeezed-coord", lambda: str(o.coords))
            continue
        new = o.get_coord(d)
        ctx.check(len(new) == 1 and str(new.units) == str(old.units), "reduced-coord", lambda: f"{new} from {old}")
        if reduce == "empty":
            if len(old) == 1 and not old._partial:
                ctx.check(mon.same(np.asarray(new.values), np.asarray(old.values)), "single-coord", lambda: f"{old} -> {new}")
            else:
                ctx.check(new._partial and np.dtype(new.dtype) == np.dtype(old.dtype), "empty-coord", lambda: f"{old} -> {new}")
            continue
        if old._partial:
            continue
        values = np.asarray(old.values)
        if any(np.ravel(np.asarray([x is None for x in values]))):
            continue
        exp = np.ptp(values) if reduce == "callable" else brute_coord(reduce, values)
        got = np.asarray(new.values)[0]
        if values.dtype.kind in "mM":
            diff = abs((got - np.asarray(exp)).astype("timedelta64[ns]").astype(int))
            limit = 0 if reduce in ("min", "max", "first", "last", "callable") else 2 + 1e-12 * abs(float(np.ptp(values.astype("int64"))))
            ok = np.asarray(got).dtype.kind == np.asarray(exp).dtype.kind and diff <= limit
        elif values.dtype.kind in "USO":
            ok = got == exp
        else:
            ok = np.isclose(float(got), float(exp), rtol=1e-9, atol=1e-9 * float(np.abs(values).max()))
        ctx.check(ok, "coord-statistic", lambda: f"{reduce} of {values[:5]}..{values[-1]} gave {got!r} expected {exp!r}")
    attached = [c for c, dd in p.coords.dim_map.items() if set(dd) & set(dims)]
    kept = [c for c in p.coords.coord_map if c not in attached]
    for c in kept:
        ctx.check(c in o.coords.coord_map, "agg-other-coord-lost", lambda c=c: c)
    extra = [c for c in attached if c not in dims]
    ctx.check(not (why := coords_problem(p, o, skip=attached)), "agg-other-coords", lambda: why)
    for c in extra:
        if c in o.coords.coord_map and not mon.same(np.asarray(o.get_array(c)), np.asarray(p.get_array(c))):
            # it may only survive where nothing was combined
            ctx.check(reduce == "squeeze" or any(p.shape[p.dims.index(d)] == 1 for d in p.coords.dim_map[c]), "agg-attached-coord", lambda c=c: c)
    changed = ("data_type", "data_units") if name in ("any", "all") else ()
    ctx.check(not (why2 := attrs_problem(p, o, changed)), "agg-attrs", lambda: why2)
    # the order of dimensions of the patch does not matter
    q = transposed(rng, p)
    if arg is not None:
        same = by_name(run(q), o.dims)
        ctx.check(matches(same, o.data, rtol=tol(dtype) * (1 if dtype.itemsize == 4 else 1e-3), scale=scale), "agg-dim-order", lambda: "")
    ctx.cover(name, reduce, kind, len(dims), form)


@family("P17", "rolling", 2500, 30000)
def f_roll(rng, ctx):
    ndim = gen.pick(rng, [1, 1, 2, 2, 3])
    names = [str(x) for x in rng.permutation(gen.DIM_NAMES)[:ndim]]
    n = int(rng.integers(4, 24))
    shape = (n,) + tuple(int(rng.integers(1, 4)) for _ in names[1:])
    dtypes = {d: ("float", "float", "time", "delta") if d == "time" else ("float", "float", "float", "int") for d in gen.DIM_NAMES}
    p, info = gen.patch(rng, names=names, shape=shape, data="smooth", kinds=("even", "even", "even-desc"), dim_dtypes=dtypes)
    dim = p.dims[max(range(p.ndim), key=lambda i: p.shape[i])]
    n = p.shape[p.dims.index(dim)]
    if n < 4:
        ctx.skip("short")
    kind = gen.pick(rng, ["float64", "float64", "float32", "nan", "int16", "complex"])
    p = p.new(data=gen.layout(rng, data_for(rng, p, kind)))
    if gen.chance(rng, 0.4) and p.get_array(dim).dtype.kind not in "mM":
        p = p.set_units(**{dim: gen.pick(rng, ["m", "ft", "s"])})
    axis = p.dims.index(dim)
    coord = p.get_coord(dim)
    dx = abs(coord.step)
    time = isinstance(dx, np.timedelta64)
    window = int(rng.integers(1, n))
    step = gen.pick(rng, [None, 1, 2, 3, 4, 5, 11])
    step = None if step is not None and step >= n else step
    center = gen.chance(rng, 0.5)
    engine = gen.pick(rng, [None, "numpy", "pandas"] if p.ndim < 3 else [None, "numpy"])
    if kind == "complex":
        engine = "numpy"
    # express the window and step
    forms = ["samples", "value", "value"]
    if coord.units is not None:
        forms += ["quantity", "quantity"]
    if coord.dtype.kind == "i":
        forms = ["samples"]
    form = gen.pick(rng, forms)

    def express(k):
        if form == "samples":
            return k
        if form == "value":
            return dx * k if not time or gen.chance(rng, 0.5) else float(dx / np.timedelta64(1, "ns")) * k / 1e9
        unit = get_quantity(coord.units)
        mag = float(dx / np.timedelta64(1, "s")) if time else float(dx)
        out = mag * k * unit
        other = "ms" if unit.is_compatible_with("s") else "cm"
        return out.to(other) if gen.chance(rng, 0.5) and unit.is_compatible_with(other) else out

    kwargs = {dim: express(window), "center": center, "engine": engine}
    if form == "samples":
        kwargs["samples"] = True
    overlap = None
    if step is not None:
        how = gen.pick(rng, ["step", "step", "overlap", "percent"])
        if how == "overlap" and step < window:
            kwargs["overlap"] = express(window - step)
        elif how == "percent" and step <= window:
            pct = gen.pick(rng, [0, 50, 25, 10])
            lap = int(np.round(pct / 100 * window))
            step = window - lap
            if step <= 0:
                ctx.skip("no step")
            kwargs["overlap"] = pct * percent
        else:
            kwargs["step"] = express(step)
    name = gen.pick(rng, ["mean", "median", "min", "max", "std", "sum", "apply"]) if kind != "complex" else gen.pick(rng, ["mean", "sum"])
    ctx.note(patch=gen.describe(p), kind=kind, stat=name, kwargs=kwargs, window=window, step=step, n=n)
    k = step or 1

    def run(x, **over):
        roller = x.rolling(**{**kwargs, **over})
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if name == "apply":
                return roller.apply(np.percentile, 75)
            return getattr(roller, name)()

    o = run(p)
    moved = np.moveaxis(p.data, axis, -1)
    labels = range(0, n, k)
    want = np.full(moved.shape[:-1] + (len(labels),), np.nan, dtype=complex if kind == "complex" else float)
    for i, lab in enumerate(labels):
        stop = lab + (window - 1) // 2 + 1 if center else lab + 1
        start = stop - window
        if start < 0 or stop > n:
            continue
        for ind in np.ndindex(moved.shape[:-1]):
            chunk = moved[ind][start:stop]
            if chunk.dtype.kind == "f" and np.isnan(chunk).any():
                continue
            want[ind + (i,)] = np.percentile(chunk, 75) if name == "apply" else brute(name, chunk)
    want = np.moveaxis(want, -1, axis)
    finite = np.abs(p.data[np.isfinite(p.data)])
    scale = float(finite.max()) * window if finite.size else 1.0
    # NumPy works with the precision of the data
    rtol = 1e-5 if kind == "float32" else 1e-10
    if name == "std" and kind != "float32":
        rtol = 1e-7
    elif name == "std":
        rtol = 1e-3

    def agree(a, b, mech, what=""):
        ctx.check(matches(a, b, rtol=rtol, scale=scale), mech, lambda: f"{what} {a.shape} {np.moveaxis(a, axis, -1).reshape(-1, a.shape[axis])[0]} expected {b.shape} {np.moveaxis(b, axis, -1).reshape(-1, b.shape[axis])[0]}")

    agree(np.asarray(o.data), want, "rolling-values")
    # Labels
    lab = np.asarray(p.get_array(dim))[::k]
    got = np.asarray(o.get_array(dim))
    ctx.check(got.shape == lab.shape and (np.array_equal(got, lab) if time else np.allclose(got, lab, rtol=0, atol=1e-9 * float(np.abs(lab).max() + dx))), "rolling-labels", lambda: f"{got[:4]} expected {lab[:4]}")
    skip = [c for c, dd in p.coords.dim_map.items() if dim in dd] if k > 1 else ()
    ctx.check(not (why := coords_problem(p, o, skip=skip)), "rolling-coords", lambda: why)
    ctx.check(not (why2 := attrs_problem(p, o)), "rolling-attrs", lambda: why2)
    for c in skip:
        if c != dim and c in o.coords.coord_map:
            ax = p.coords.dim_map[c].index(dim)
            exp = np.take(np.asarray(p.get_array(c)), np.arange(0, n, k), axis=ax)
            ctx.check(mon.same(np.asarray(o.get_array(c)), exp), "rolling-attached", lambda c=c: c)
    # every engine agrees, as do the orders of dimensions
    if p.ndim < 3 and kind != "complex":
        for eng in ("numpy", "pandas"):
            agree(np.asarray(run(p, engine=eng).data), want, "rolling-engines", eng)
    q = transposed(rng, p)
    agree(by_name(run(q), o.dims), np.asarray(o.data), "rolling-dim-order")
    ctx.cover(name, engine, form, center, window if window < 5 else "long", step, kind)


@family("P17", "refused", 200)
def f_refused(rng, ctx):
    p, info = gen.patch(rng, ndim=2, sizes=(5, 6, 9), kinds=("even",), dim_dtypes={d: ("float",) for d in gen.DIM_NAMES})
    dim = gen.pick(rng, p.dims)
    n = p.shape[p.dims.index(dim)]
    case = gen.pick(rng, ["zero-window", "zero-step", "long", "negative", "both", "missing", "two", "engine3d", "method", "reduce"])
    ctx.note(patch=gen.describe(p), case=case, dim=dim)
    calls = {
        "zero-window": lambda: p.rolling(**{dim: 0}, samples=True).mean(),
        "zero-step": lambda: p.rolling(**{dim: 2}, step=0, samples=True).mean(),
        "long": lambda: p.rolling(**{dim: n + 3}, samples=True).mean(),
        "negative": lambda: p.rolling(**{dim: 3}, step=-1, samples=True).mean(),
        "both": lambda: p.rolling(**{dim: 3}, step=1, overlap=1, samples=True).mean(),
        "missing": lambda: p.mean("nothing"),
        "two": lambda: p.rolling(**{p.dims[0]: 2, p.dims[1]: 2}, samples=True).mean(),
        "engine3d": lambda: p.append_dims("extra").rolling(**{dim: 2}, samples=True, engine="pandas").mean(),
        "method": lambda: p.aggregate(dim, method="bob"),
        "reduce": lambda: p.mean(dim, dim_reduce="bob"),
    }
    ctx.raises(calls[case], f"refused-{case}", Exception)
    ctx.cover(case)
