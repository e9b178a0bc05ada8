"""P18: resampling relabels consistently with the signal."""
from __future__ import annotations

import warnings

import numpy as np
from scipy import signal
from scipy.interpolate import make_interp_spline

from dascore.exceptions import DASCoreError
from dascore.units import get_quantity
from vf import gen, mon
from vf.core import describe, family
from vf.ref import along, attrs_problem, by_name, coords_problem, matches, offsets, tol, transposed

describe(
    "P18",
    "Random patches (1-3 dimensions in any order, layout and direction; float, integer, time and duration coordinates, even and uneven, near and far from the origin; "
    "single and double precision, integer and complex data; attached coordinates) are decimated with every filter and factor, interpolated to random, original and "
    "snapped labels with every kind, and resampled to intervals given as numbers, durations, quantities, frequencies or a number of samples. Monitors compare with "
    "sliced arrays, SciPy filters applied slice by slice, independent interpolation on the label offsets, and the exact value of the band limited signals from which "
    "the data were made; labels must be those requested. Non-trivial: distinct by (operation, options, coordinate kind, data type, axis).",
    [
        "SciPy's decimation filters and splines are the reference algorithms",
        "labels halfway between samples are not judged for nearest interpolation",
        "coordinates attached to the resampled dimension may be dropped (documented)",
        "band limited means periodic over the patch, as for every Fourier method",
        "where the length of the resampled signal is not a whole number, the result may be one sample shorter (documented) and is interpolated between Fourier samples",
    ],
)

DTYPES = {d: ("float", "float", "time", "delta") if d == "time" else ("float", "float", "float", "int") for d in gen.DIM_NAMES}


def make(rng, ctx, n=(16, 40), kinds=("even", "even", "even-desc"), data=("float64", "float64", "float32", "int16", "complex128"), dtypes=DTYPES):
    ndim = gen.pick(rng, [1, 2, 2, 3])
    names = [str(x) for x in rng.permutation(gen.DIM_NAMES)[:ndim]]
    shape = (int(rng.integers(*n)),) + tuple(int(rng.integers(1, 4)) for _ in names[1:])
    p, info = gen.patch(rng, names=names, shape=shape, data_dtypes=("float64",), data="smooth", kinds=kinds, dim_dtypes=dtypes)
    dim = max(p.dims, key=lambda d: p.shape[p.dims.index(d)])
    dtype = np.dtype(gen.pick(rng, data))
    if dtype.kind in "iu":
        values = rng.integers(-500, 500, p.shape).astype(dtype)
    else:
        values = rng.standard_normal(p.shape) * 10 + 3
        values = (values + 1j * rng.standard_normal(p.shape) if dtype.kind == "c" else values).astype(dtype)
    p = p.new(data=gen.layout(rng, values))
    for d in p.dims:
        if gen.chance(rng, 0.5) and p.get_array(d).dtype.kind not in "mM":
            p = p.set_units(**{d: gen.pick(rng, ["m", "ft", "s", "ms"])})
    ctx.note(patch=gen.describe(p), dim=dim)
    return p, dim, info


def others(ctx, p, o, dim, mech):
    """Everything which isn't attached to the dimension is unchanged."""
    attached = [c for c, dd in p.coords.dim_map.items() if dim in dd]
    ctx.check(o.dims == p.dims, f"{mech}-dims", lambda: f"{p.dims} -> {o.dims}")
    ctx.check(not (why := coords_problem(p, o, skip=attached)), f"{mech}-coords", lambda: why)
    ctx.check(not (why2 := attrs_problem(p, o)), f"{mech}-attrs", lambda: why2)
    ctx.check(str(o.get_coord(dim).units) == str(p.get_coord(dim).units), f"{mech}-units", lambda: f"{p.get_coord(dim).units} -> {o.get_coord(dim).units}")


def values_check(ctx, mech, got, want, dtype, factor=1.0):
    got = np.asarray(got)
    scale = float(np.nanmax(np.abs(want))) if want.size and np.isfinite(want).any() else 1.0
    ctx.check(matches(got, want, rtol=max(tol(dtype), 1e-9) * factor, scale=max(scale, 1e-30)), mech,
              lambda: f"{got.shape} {want.shape} " + (f"max difference {np.nanmax(np.abs(got - want))} of {scale}" if got.shape == want.shape else ""))


@family("P18", "decimate", 1500, 15000)
def f_decimate(rng, ctx):
    p, dim, info = make(rng, ctx, n=(30, 60), kinds=("even", "even", "even-desc", "mono", "mono-desc", "jitter", "unsorted"))
    axis = p.dims.index(dim)
    if p.shape[axis] < 30:
        ctx.skip("short")
    factor = int(rng.integers(1, 8))
    filt = gen.pick(rng, [None, None, "iir", "fir"])
    if filt == "iir" and p.data.dtype.kind == "c" or factor == 1:
        filt = gen.pick(rng, [None, "fir"]) if factor > 1 else None
    kwargs = {} if filt == "iir" and gen.chance(rng, 0.5) else {"filter_type": filt}
    if filt is None and gen.chance(rng, 0.5):
        kwargs["copy"] = gen.chance(rng, 0.5)
    ctx.note(factor=factor, kwargs=kwargs)

    def run(x):
        return x.decimate(**{dim: factor}, **kwargs)

    o = run(p)
    sl = tuple(slice(None, None, factor) if i == axis else slice(None) for i in range(p.ndim))
    labels = np.asarray(p.get_array(dim))[::factor]
    ctx.check(mon.same(np.asarray(o.get_array(dim)), labels) if labels.dtype.kind in "mMiu" else np.allclose(o.get_array(dim), labels, rtol=1e-12, atol=1e-12 * np.abs(labels).max()), "decimate-labels",
              lambda: f"{o.get_array(dim)[:4]} expected {labels[:4]}")
    if filt is None:
        ctx.check(o.data.dtype == p.data.dtype and np.array_equal(o.data, p.data[sl]), "decimate-values", lambda: f"{o.shape} {p.shape}")
    else:
        want = along(lambda row: signal.decimate(row.astype(row.dtype if row.dtype.kind in "fc" else float), factor, ftype=filt), p.data, axis)
        values_check(ctx, "decimate-filtered", o.data, want, p.data.dtype, 100)
    others(ctx, p, o, dim, "decimate")
    for c, dd in p.coords.dim_map.items():
        if dim in dd and c != dim and c in o.coords.coord_map:
            exp = np.take(np.asarray(p.get_array(c)), np.arange(0, p.shape[axis], factor), axis=dd.index(dim))
            ctx.check(mon.same(np.asarray(o.get_array(c)), exp), "decimate-attached", lambda c=c: c)
    values_check(ctx, "decimate-dim-order", by_name(run(transposed(rng, p)), o.dims), np.asarray(o.data), p.data.dtype, 100)
    ctx.cover("decimate", filt, factor, info[dim][:2], p.data.dtype.name, axis)


def spread_labels(rng, p, dim, where):
    """New labels within the range of a dimension."""
    old = np.asarray(p.get_array(dim))
    k = int(rng.integers(1, 30))
    if where == "original":
        return old.copy()
    if where == "some":
        return old[np.sort(rng.integers(0, len(old), k))]
    if where == "reversed":
        return np.sort(old)[::-1]
    lo, hi = old.min(), old.max()
    frac = np.sort(rng.random(k)) if where == "inside" else np.linspace(0, 1, k + 1)
    if where == "outside":
        frac = np.linspace(-0.2, 1.2, k + 2)
    if old.dtype.kind in "mM":
        return lo + (frac * (hi - lo).astype("timedelta64[ns]").astype(float)).astype("timedelta64[ns]")
    return lo + frac * (float(hi) - float(lo))


@family("P18", "interpolate", 2000, 25000)
def f_interp(rng, ctx):
    p, dim, info = make(rng, ctx, n=(8, 24), kinds=("even", "even", "even-desc", "mono", "mono-desc", "unsorted"))
    axis = p.dims.index(dim)
    old = np.asarray(p.get_array(dim))
    if len(old) < 8 or len(np.unique(old)) < len(old):
        ctx.skip("duplicate labels")
    where = gen.pick(rng, ["original", "some", "reversed", "inside", "inside", "grid", "outside", "snap"])
    kind = gen.pick(rng, ["linear", "linear", "nearest", "cubic", "quadratic", 1, 2, 3, None])
    kwargs = {} if kind is None else {"kind": kind}
    kind = kind or "linear"
    if where == "outside" and kind in ("cubic", "quadratic", 2, 3):
        where = "inside"
    if where == "snap":
        new = np.asarray(p.get_coord(dim).snap().values)
        arg = None
    else:
        new = spread_labels(rng, p, dim, where)
        arg = new.copy()
        if gen.chance(rng, 0.2) and new.dtype.kind == "f":
            arg = [float(x) for x in arg]
    ctx.note(where=where, kind=kind, new=new[:6])

    def run(x):
        return x.interpolate(**{dim: arg}, **kwargs)

    o = run(p)
    got = np.asarray(o.get_array(dim))
    limit = 0 if new.dtype.kind in "mM" else 1e-9 * float(np.ptp(new) if len(new) > 1 else 0) + 1e-12 * float(np.abs(new).max())
    ok = got.shape == new.shape and (np.all(np.abs((got - new).astype("timedelta64[ns]").astype(int)) <= 1 + len(new)) if new.dtype.kind in "mM" else np.allclose(got, new, rtol=0, atol=limit))
    ctx.check(ok, "interp-labels", lambda: f"{got[:4]} expected {new[:4]}")
    others(ctx, p, o, dim, "interp")
    # offsets from the first label, exactly
    if old.dtype.kind in "mM":
        x = (old - old.min()).astype("timedelta64[ns]").astype(np.int64).astype(float)
        y = (new.astype(old.dtype) - old.min()).astype("timedelta64[ns]").astype(np.int64).astype(float)
    else:
        x, y = (old - old.min()).astype(float), (new - old.min()).astype(float)
    width = x.max()
    x, y = x / width, y / width
    order = np.argsort(x)
    x = x[order]
    data = np.moveaxis(p.data, axis, -1)[..., order].astype(np.complex128 if p.data.dtype.kind == "c" else float)
    k = {"linear": 1, "quadratic": 2, "cubic": 3}.get(kind, kind)
    if kind == "nearest":
        dist = np.abs(y[:, None] - x[None])
        two = np.sort(dist, axis=1)[:, :2]
        clear = (two[:, 1] - two[:, 0]) > 1e-6 * np.diff(x).min()
        want = data[..., dist.argmin(axis=1)]
    elif k == 1:
        i = np.clip(np.searchsorted(x, y) - 1, 0, len(x) - 2)
        w = (y - x[i]) / (x[i + 1] - x[i])
        want, clear = data[..., i] * (1 - w) + data[..., i + 1] * w, np.ones(len(y), bool)
    else:
        want, clear = make_interp_spline(x, data, k=k, axis=-1)(y), np.ones(len(y), bool)
    have = np.moveaxis(np.asarray(o.data), axis, -1)
    ctx.check(have.shape == want.shape, "interp-shape", lambda: f"{have.shape} {want.shape}")
    # positions are only as good as floats allow
    grid = float(np.abs(old.astype(float)).max()) * 1e-15 / max(float(np.diff(x).min() * width), 1e-300) if old.dtype.kind not in "mM" else 1e-12
    values_check(ctx, "interp-values", have[..., clear], want[..., clear], p.data.dtype, 100 + grid / 1e-11)
    if where == "original":
        values_check(ctx, "interp-identity", o.data, np.asarray(p.data, dtype=have.dtype), p.data.dtype, 100)
    values_check(ctx, "interp-dim-order", by_name(run(transposed(rng, p)), o.dims), np.asarray(o.data), p.data.dtype, 100)
    ctx.cover("interpolate", kind, where, info[dim][:2], p.data.dtype.name, axis)


@family("P18", "resample", 2000, 25000)
def f_resample(rng, ctx):
    dtypes = {d: ("float", "float", "time", "delta") if d == "time" else ("float",) for d in gen.DIM_NAMES}
    p, dim, info = make(rng, ctx, n=(16, 48), dtypes=dtypes)
    axis = p.dims.index(dim)
    n = p.shape[axis]
    coord = p.get_coord(dim)
    step = coord.step
    time = isinstance(step, np.timedelta64)
    if n < 16:
        ctx.skip("short")
    how = gen.pick(rng, ["samples", "whole", "whole", "fraction"])
    new_n = int(rng.integers(9, 3 * n))
    if how == "fraction":
        new_n = new_n + rng.uniform(0.1, 0.9)
    dx = float(abs(step) / np.timedelta64(1, "ns")) / 1e9 if time else float(abs(step))
    new_dx = dx * n / new_n
    if time and how != "samples":
        ns = int(round(new_dx * 1e9))
        if how == "whole":
            # whole number of nanoseconds and samples
            total = int(abs(step) / np.timedelta64(1, "ns")) * n
            opts = [k for k in range(9, 3 * n) if total % k == 0]
            if not opts:
                ctx.skip("no divisor")
            new_n = gen.pick(rng, opts)
            ns = total // new_n
        new_dx = ns / 1e9
        if ns < 10:
            ctx.skip("too fine")
        if how == "fraction":
            new_n = int(abs(step) / np.timedelta64(1, "ns")) * n / ns
            if abs(new_n - round(new_n)) < 1e-3:
                ctx.skip("nearly whole")
    # The signal: harmonics of the length of the patch which all rates can hold
    top = int(min(n, np.floor(new_n)) - 1) // 2 - 1
    if top < 1:
        ctx.skip("no band")
    harmonics = rng.integers(0, min(top, 6) + 1, 3)
    amp = rng.standard_normal((3,) + p.shape[:axis] + p.shape[axis + 1:])
    phase = rng.uniform(0, 2 * np.pi, amp.shape)

    def truth(pos):
        """The signal at positions in samples of the original."""
        arg = 2 * np.pi * harmonics.reshape((3,) + (1,) * (amp.ndim)) * np.asarray(pos) / n
        return np.moveaxis((amp[..., None] * np.cos(arg + phase[..., None])).sum(axis=0), -1, axis)

    cdtype = gen.pick(rng, ["float64", "float64", "float32", "complex128"])
    values = truth(np.arange(n)).astype(cdtype)
    if cdtype == "complex128":
        values = values * (1 + 0.5j)
    p = p.new(data=gen.layout(rng, values))
    # express the request
    kwargs = {}
    unit = coord.units
    if how == "samples":
        arg, form = new_n, "samples"
        kwargs["samples"] = True
    else:
        form = gen.pick(rng, ["plain"] + (["delta"] if time else []) + (["quantity", "other", "rate"] if unit is not None else []))
        if form == "delta":
            arg = np.timedelta64(int(round(new_dx * 1e9)), "ns")
        elif form == "plain":
            arg = new_dx
        else:
            q = new_dx * get_quantity("s" if time else unit)
            if not time and get_quantity(unit).magnitude != 1:
                ctx.skip("unit")
            arg = q if form == "quantity" else (1 / q) if form == "rate" else q.to("ms" if q.is_compatible_with("s") else "cm")
    window = gen.pick(rng, [None, None, None, "hann"]) if how == "samples" else None
    if window:
        kwargs["window"] = window
    interp = gen.pick(rng, [None, "linear", "nearest", "cubic"]) if how == "fraction" else None
    if interp:
        kwargs["interp_kind"] = interp
    ctx.note(how=how, new_n=new_n, arg=arg, form=form, kwargs=kwargs, dtype=cdtype, harmonics=harmonics, step=step)

    def run(x):
        if kwargs.get("samples") and ctx.index % 3 == 0:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return x.iresample(**{dim: arg}, **{k: v for k, v in kwargs.items() if k != "samples"})
        return x.resample(**{dim: arg}, **kwargs)

    o = run(p)
    others(ctx, p, o, dim, "resample")
    ax = np.asarray(o.get_array(dim))
    first = np.asarray(p.get_array(dim))[0]
    sign = -1 if step < (np.timedelta64(0) if time else 0) else 1
    m = len(ax)
    if how == "fraction":
        ctx.check(np.floor(new_n) - 1 <= m <= np.ceil(new_n), "resample-length", lambda: f"{m} expected {new_n}")
    else:
        ctx.check(m == new_n, "resample-length", lambda: f"{m} expected {new_n}")
    # labels: the requested interval from the original start
    delta = n * dx / new_n if how == "samples" else new_dx
    if time:
        off = (ax - first).astype("timedelta64[ns]").astype(np.int64)
        want = sign * np.arange(m) * delta * 1e9
        # fractions of a nanosecond cannot be represented in the step
        slack = 1.0 * m if how == "samples" else 2
    else:
        off, want, slack = ax - first, sign * np.arange(m) * delta, 1e-9 * delta * m + 1e-12 * float(np.abs(ax).max())
    ctx.check(np.all(np.abs(off - want) <= slack), "resample-labels", lambda: f"{ax[:3]}..{ax[-1]} offset {off[:3]}..{off[-1]} expected {want[:3]}..{want[-1]}")
    if how != "fraction":
        ctx.check(o.get_coord(dim).evenly_sampled or (time and delta < 1e-5), "resample-even", lambda: str(o.get_coord(dim)))
    pos = np.arange(m) * delta / dx
    factor = (1 + 0.5j) if cdtype == "complex128" else 1
    if window:
        ref = along(lambda row: signal.resample(row, new_n, window=window), p.data, axis)
        values_check(ctx, "resample-window", o.data, ref, p.data.dtype, 100)
    elif how != "fraction":
        values_check(ctx, "resample-values", o.data, truth(pos) * factor, p.data.dtype, 1000 if not time else 1e4)
    else:
        # the Fourier samples nearest to the requested length, then interpolation
        whole = int(np.round(new_n))
        grid = np.arange(whole) * n / whole
        fourier = np.moveaxis(truth(grid) * factor, axis, -1)
        kind = interp or "linear"
        if kind == "nearest":
            dist = np.abs(pos[:, None] - grid[None])
            two = np.sort(dist, axis=1)[:, :2]
            clear = two[:, 1] - two[:, 0] > 1e-4 * n / whole
            ref = fourier[..., dist.argmin(axis=1)]
        elif kind == "cubic":
            ref, clear = make_interp_spline(grid, fourier, k=3, axis=-1)(pos), np.ones(m, bool)
        else:
            i = np.clip(np.searchsorted(grid, pos) - 1, 0, whole - 2)
            w = (pos - grid[i]) / (grid[i + 1] - grid[i])
            ref, clear = fourier[..., i] * (1 - w) + fourier[..., i + 1] * w, np.ones(m, bool)
        values_check(ctx, "resample-interpolated", np.moveaxis(o.data, axis, -1)[..., clear], ref[..., clear], p.data.dtype, 1e4 if not time else 1e5)
    values_check(ctx, "resample-dim-order", by_name(run(transposed(rng, p)), o.dims), np.asarray(o.data), p.data.dtype, 100)
    ctx.cover("resample", how, form, interp, window, info[dim][:2], cdtype, axis)


@family("P18", "refused", 200)
def f_refused(rng, ctx):
    dtypes = {d: ("float",) for d in gen.DIM_NAMES}
    p, info = gen.patch(rng, ndim=2, sizes=(12, 15), kinds=("mono", "unsorted"), dim_dtypes=dtypes, data_dtypes=("float64",))
    dim = gen.pick(rng, p.dims)
    p = p.set_units(**{dim: "m"})
    case = gen.pick(rng, ["uneven-resample", "unit-resample", "missing", "short-iir"])
    ctx.note(patch=gen.describe(p), case=case, dim=dim)
    even = p.update_coords(**{dim: np.arange(p.shape[p.dims.index(dim)]) * 0.5}).set_units(**{dim: "m"})
    if case == "uneven-resample" and p.get_coord(dim).evenly_sampled:
        ctx.skip("even")
    calls = {
        "uneven-resample": lambda: p.resample(**{dim: 0.1}),
        "unit-resample": lambda: even.resample(**{dim: 3 * get_quantity("s")}),
        "missing": lambda: p.resample(nothing=3),
        "short-iir": lambda: even.decimate(**{dim: 2}),
    }
    ctx.raises(calls[case], f"refused-{case}", DASCoreError, ValueError)
    ctx.cover(case)
