"""P16: filters act along the named dimension exactly as specified."""
from __future__ import annotations

import warnings

import numpy as np
from scipy import fft as sfft
from scipy import ndimage, signal

import dascore as dc
from dascore.units import get_quantity
from vf import gen, mon
from vf.core import describe, family
from vf.ref import along, attrs_problem, by_name, coords_problem, matches, offsets, spacing, tol, transposed

describe(
    "P16",
    "Random patches (1-3 dimensions in any order, memory layout and direction; float, integer, time and duration coordinates; single and double precision and integer "
    "data; attached coordinates) pass through every filter, with limits and windows given as numbers, quantities of any compatible unit (frequencies, periods, "
    "wavelengths), durations or samples. Monitors apply the algorithm of each documentation independently (SciPy or brute force) to each one-dimensional slice with the "
    "sampling interval taken from the labels, and compare values, coordinates and attributes; equivalent arguments and transposed patches must give the same. "
    "Non-trivial: distinct by (filter, options, argument form, coordinate kind, data type, axis).",
    [
        "SciPy's filter design and kernels are the reference algorithms",
        "the edges of the approximate Hampel filter are not judged (documented)",
        "NaN only where a filter documents how to treat it",
        "window lengths are rounded up to samples, as documented",
    ],
)

DTYPES = {d: ("float", "float", "time", "delta") if d == "time" else ("float", "float", "float", "int") for d in gen.DIM_NAMES}
MODES = ("reflect", "constant", "nearest", "mirror", "wrap")


def make(rng, ctx, n=(16, 40), other=(1, 4), kinds=("even", "even", "even-desc"), data=("float64", "float64", "float32", "int16", "int32"), ndim=None, need=1):
    """A patch with one (or more) long dimensions."""
    ndim = ndim or gen.pick(rng, [1, 2, 2, 3])
    ndim = max(ndim, need)
    names = [str(x) for x in rng.permutation(gen.DIM_NAMES)[:ndim]]
    dims = [str(x) for x in rng.permutation(names)[:need]]
    shape = tuple(int(rng.integers(*n)) if x in dims else int(rng.integers(*other)) for x in names)
    p, info = gen.patch(rng, names=names, shape=shape, data_dtypes=data, data="smooth", kinds=kinds, dim_dtypes=DTYPES)
    # gen.patch shuffles names: build the data from what came out
    dims = sorted(p.dims, key=lambda d: -p.shape[p.dims.index(d)])[:need]
    if p.data.dtype.kind in "iu":
        p = p.new(data=gen.layout(rng, rng.integers(-500, 500, p.shape).astype(p.data.dtype)))
    else:
        p = p.new(data=gen.layout(rng, (rng.standard_normal(p.shape) * 10 + 3).astype(p.data.dtype)))
    for dim in p.dims:
        if gen.chance(rng, 0.5) and p.get_array(dim).dtype.kind not in "mM":
            p = p.set_units(**{dim: gen.pick(rng, ["m", "ft", "s", "ms"])})
    ctx.note(patch=gen.describe(p), dims=dims)
    return p, dims, info


def dx_of(p, dim):
    return abs(spacing(p.get_array(dim)))


def unchanged(ctx, p, o, mech, changed=()):
    ctx.check(o.dims == p.dims, f"{mech}-dims", lambda: f"{p.dims} -> {o.dims}")
    ctx.check(not (why := coords_problem(p, o)), f"{mech}-coords", lambda: why)
    ctx.check(not (why2 := attrs_problem(p, o, changed)), f"{mech}-attrs", lambda: why2)


def unit_of(p, dim):
    return p.get_coord(dim).units


def freq_forms(rng, p, dim, low, high):
    """The same frequency limits in some form: returns (name, value, value)."""
    unit = unit_of(p, dim)
    form = "plain"
    if unit is not None:
        form = gen.pick(rng, ["plain", "inverse", "other", "period", "period-other"])
    pair = [low, high]
    if form == "plain":
        return form, pair
    base = get_quantity(unit)
    if form == "inverse":
        return form, [None if x is None else x / base for x in pair]
    if form == "other":
        other = "mHz" if base.is_compatible_with("s") else "1/km"
        return form, [None if x is None else (x / base).to(other) for x in pair]
    # periods: the limits swap their places
    target = str(base.units) if form == "period" else ("hour" if base.is_compatible_with("s") else "km")
    vals = [None if x is None else (base / x).to(target) for x in pair]
    return form, [vals[1], vals[0]] if None not in vals else vals


def compare(ctx, mech, got, want, dtype, scale=None, factor=1.0):
    got, want = np.asarray(got), np.asarray(want)
    if scale is None:
        scale = float(np.nanmax(np.abs(want))) if want.size and np.isfinite(want).any() else 1.0
    ctx.check(matches(got, want, rtol=max(tol(dtype), 1e-9) * factor, scale=scale), mech,
              lambda: f"{got.shape} {want.shape} " + (f"max difference {np.nanmax(np.abs(got - want))} of {scale}" if got.shape == want.shape else ""))


def equivariant(rng, ctx, p, o, func, mech, dtype=None, factor=10.0):
    """The order of the dimensions and the layout of the data do not matter."""
    q = transposed(rng, p)
    q = q.new(data=gen.layout(rng, np.array(q.data)))
    out = func(q)
    compare(ctx, f"{mech}-dim-order", by_name(out, o.dims), o.data, dtype or p.data.dtype, scale=float(np.nanmax(np.abs(o.data))) if np.isfinite(o.data).any() else 1.0, factor=factor)


@family("P16", "pass_filter", 500)
def f_pass(rng, ctx):
    p, (dim,), info = make(rng, ctx, n=(60, 90), data=("float64", "float64", "float32", "int16"))
    axis = p.dims.index(dim)
    dx = dx_of(p, dim)
    nyq = 0.5 / dx
    low, high = nyq * rng.uniform(0.15, 0.35), nyq * rng.uniform(0.5, 0.85)
    kind = gen.pick(rng, ["band", "low", "high"])
    low, high = (None if kind == "low" else low), (None if kind == "high" else high)
    corners, zerophase = gen.pick(rng, [4, 4, 1, 2, 3]), gen.chance(rng, 0.6)
    form, pair = freq_forms(rng, p, dim, low, high)
    if kind != "band" and form.startswith("period"):
        # one sided: only the order of the pair says which side is meant
        form, pair = "plain", [low, high]
    if gen.chance(rng, 0.3):
        pair = [... if x is None else x for x in pair]
    pair = gen.pick(rng, [tuple, list])(pair)
    kwargs = {}
    if corners != 4 or gen.chance(rng, 0.3):
        kwargs["corners"] = corners
    if not zerophase or gen.chance(rng, 0.3):
        kwargs["zerophase"] = zerophase
    ctx.note(dim=dim, pair=pair, kwargs=kwargs, dx=dx)

    def run(x):
        return x.pass_filter(**{dim: pair}, **kwargs)

    o = run(p)
    wn = [x / nyq for x in (low, high) if x is not None]
    sos = signal.butter(corners, wn if kind == "band" else wn[0], btype={"band": "bandpass", "low": "lowpass", "high": "highpass"}[kind], output="sos")
    func = signal.sosfiltfilt if zerophase else signal.sosfilt
    want = along(lambda row: func(sos, row.astype(np.float64)), p.data, axis)
    single = p.data.dtype == np.float32
    compare(ctx, "pass-values", o.data, want, p.data.dtype, scale=float(np.abs(p.data.astype(float)).max()), factor=50 if single else 100)
    unchanged(ctx, p, o, "pass")
    equivariant(rng, ctx, p, o, run, "pass", factor=50)
    ctx.cover("pass", kind, form, corners, zerophase, info[dim][:2], p.data.dtype, axis, p.ndim)


@family("P16", "notch_filter", 250)
def f_notch(rng, ctx):
    need = gen.pick(rng, [1, 1, 2])
    p, dims, info = make(rng, ctx, n=(30, 50), need=need, data=("float64", "float64", "float32", "int16"))
    kwargs, forms, want = {}, [], p.data.astype(np.float64)
    q = gen.pick(rng, [30, 5.0, 1])
    for dim in [str(x) for x in rng.permutation(dims)]:
        dx = dx_of(p, dim)
        w0 = 0.5 / dx * rng.uniform(0.2, 0.8)
        form, (value, _) = freq_forms(rng, p, dim, w0, None)
        kwargs[dim] = value
        forms.append(form)
        b, a = signal.iirnotch(w0, Q=q, fs=1 / dx)
        want = along(lambda row: signal.filtfilt(b, a, row), want, p.dims.index(dim))
    ctx.note(kwargs=kwargs, q=q)
    o = p.notch_filter(q=q, **kwargs)
    compare(ctx, "notch-values", o.data, want, p.data.dtype, scale=float(np.abs(p.data.astype(float)).max()), factor=100)
    unchanged(ctx, p, o, "notch")
    equivariant(rng, ctx, p, o, lambda x: x.notch_filter(q=q, **kwargs), "notch", factor=100)
    ctx.cover("notch", forms, q, info[dims[0]][:2], p.data.dtype, p.ndim)


def window_forms(rng, p, dim, count, exact=True):
    """A window of count samples, in some form: returns (form, value)."""
    dx = dx_of(p, dim)
    arr = p.get_array(dim)
    unit = unit_of(p, dim)
    forms = ["samples", "plain"]
    if unit is not None:
        forms += ["quantity", "other"]
    if arr.dtype.kind in "mM":
        forms += ["timedelta"]
    form = gen.pick(rng, forms)
    if form == "samples":
        return form, count
    if arr.dtype.kind in "mM":
        # in whole nanoseconds, so it is exact
        ns = round(dx * 1e9) * count
        if form == "timedelta":
            return form, np.timedelta64(ns, "ns")
        if form == "plain":
            return form, ns / 1e9
        return form, (ns / 1e9) * get_quantity("s") if form == "quantity" else (ns / 1e6) * get_quantity("ms")
    size = count * dx
    if arr.dtype.kind in "iu":
        size = int(round(size))
        if form != "plain":
            return "plain", size
        return form, size
    if form == "plain":
        return form, size
    base = get_quantity(unit)
    if form == "quantity":
        return form, size * base
    # A window a bit short of a whole number of samples is rounded up to it.
    return form, ((size - 0.25 * dx) * base).to("us" if base.is_compatible_with("s") else "mm")


def windows(rng, p, dims, counts):
    """Window arguments for several dimensions; samples applies to all of them."""
    forms, kwargs = [], {}
    if gen.chance(rng, 0.35):
        return ["samples"], dict(zip(dims, counts)), True
    for dim, count in zip(dims, counts):
        form, value = window_forms(rng, p, dim, count)
        while form == "samples":
            form, value = window_forms(rng, p, dim, count)
        forms.append(form)
        kwargs[dim] = value
    return forms, kwargs, False


def brute_window(data, size, mode, func, cval=0.0):
    """A statistic of the centred n-d window around each value."""
    pads = [(s // 2, s - s // 2 - 1) for s in size]
    names = {"reflect": "symmetric", "mirror": "reflect", "nearest": "edge", "wrap": "wrap", "constant": "constant"}
    kw = {"constant_values": cval} if mode == "constant" else {}
    padded = np.pad(data.astype(np.float64), pads, mode=names[mode], **kw)
    view = np.lib.stride_tricks.sliding_window_view(padded, size)
    return func(view.reshape(data.shape + (-1,)))


@family("P16", "windows", 700)
def f_windows(rng, ctx):
    """Filters over moving windows of any number of dimensions."""
    need = gen.pick(rng, [1, 1, 2])
    p, dims, info = make(rng, ctx, n=(12, 20), need=need)
    name = gen.pick(rng, ["median", "gaussian", "savgol", "wiener", "hampel", "sobel"])
    odd = name in ("savgol", "hampel", "wiener") or gen.chance(rng, 0.6)
    counts = [2 * int(rng.integers(1, 4)) + (1 if odd else 0) for _ in dims]
    if name == "gaussian":
        counts = [int(rng.integers(1, 4)) for _ in dims]
    forms, kwargs, samples = windows(rng, p, dims, counts)
    kwargs = {str(d): kwargs[str(d)] for d in rng.permutation(dims)}
    size = [1] * p.ndim
    for dim, count in zip(dims, counts):
        size[p.dims.index(dim)] = count
    data = p.data.astype(np.float64)
    dtype = p.data.dtype
    kw = {} if not samples and gen.chance(rng, 0.5) else {"samples": samples}
    mode = gen.pick(rng, MODES)
    cval = gen.pick(rng, [0.0, 1.0, -3.0]) if mode == "constant" else 0.0
    factor, judge = 10.0, slice(None)
    if name in ("median", "gaussian"):
        if mode != "reflect" or gen.chance(rng, 0.3):
            kw["mode"] = mode
        if mode == "constant":
            kw["cval"] = cval
    ctx.note(name=name, kwargs=kwargs, kw=kw, counts=counts)
    if name == "median":
        def pick_mid(v):
            # the element of rank n//2, as SciPy has it for even sizes
            return np.sort(v, axis=-1)[..., v.shape[-1] // 2]
        want = brute_window(data, size, mode, pick_mid, cval)
    elif name == "gaussian":
        if gen.chance(rng, 0.4):
            kw["truncate"] = 2.0
        want = data
        for dim, count in zip(dims, counts):
            want = ndimage.gaussian_filter1d(want, count, axis=p.dims.index(dim), mode=mode, cval=cval, truncate=kw.get("truncate", 4.0))
        if dtype.kind in "iu":
            factor = None
    elif name == "savgol":
        poly = int(rng.integers(0, 3))
        smode = gen.pick(rng, ["interp", "nearest", "mirror", "wrap", "constant"])
        kw |= {"polyorder": min(poly, min(counts) - 1)}
        if smode != "interp":
            kw["mode"] = smode
        want = data
        for dim, count in zip(dims, counts):
            want = along(lambda row: signal.savgol_filter(row, count, kw["polyorder"], mode=smode), want, p.dims.index(dim))
    elif name == "wiener":
        noise = gen.pick(rng, [None, None, 5.0, 1000.0])
        if noise is not None:
            kw["noise"] = noise
        mean = brute_window(data, size, "constant", lambda v: v.mean(-1))
        var = brute_window(data, size, "constant", lambda v: (v**2).mean(-1)) - mean**2
        level = var.mean() if noise is None else noise
        with np.errstate(all="ignore"):
            want = np.where(var < level, mean, mean + (data - mean) * (1 - level / var))
        factor = 1000.0
        # Integer data are filtered in ways of SciPy
    elif name == "hampel":
        approximate = gen.chance(rng, 0.4)
        thresh = gen.pick(rng, [10.0, 3.5, 2])
        # spikes
        spiky = np.array(p.data)
        for _ in range(3):
            spiky[tuple(int(rng.integers(s)) for s in p.shape)] *= 20
        p = p.new(data=spiky)
        data = spiky.astype(np.float64)
        if approximate is False or gen.chance(rng, 0.3):
            kw["approximate"] = approximate
        approximate = kw.get("approximate", True)
        if thresh != 10.0:
            kw["threshold"] = thresh

        def med(x):
            if not approximate:
                return brute_window(x, size, "reflect", lambda v: np.median(v, -1))
            for ax, s in enumerate(size):
                one = [1] * x.ndim
                one[ax] = s
                x = brute_window(x, one, "reflect", lambda v: np.median(v, -1))
            return x

        middle = med(data)
        dev = np.abs(data - middle)
        mad = med(dev)
        eps = np.finfo(np.float32 if dtype == np.float32 or dtype.kind in "iu" else np.float64).eps
        ratio = dev / np.where(mad == 0, eps, mad)
        want = np.where(ratio > thresh, middle, data)
        # values next to the threshold may go either way in single precision
        if np.any(np.abs(ratio - thresh) < 1e-4 * thresh):
            ctx.skip("threshold")
        if dtype.kind in "iu":
            want = np.rint(want)
        if approximate:
            judge = tuple(slice(2 * (s // 2), n - 2 * (s // 2)) if s > 1 else slice(None) for s, n in zip(size, p.shape))
    else:
        dim = dims[0]
        smode = gen.pick(rng, ["reflect", "constant", "nearest", "mirror", "wrap"])
        kwargs, kw = {}, {"dim": dim}
        if smode != "reflect":
            kw["mode"] = smode
        want = data
        for ax in range(p.ndim):
            weights = [-1, 0, 1] if p.dims[ax] == dim else [1, 2, 1]
            want = ndimage.correlate1d(want, weights, axis=ax, mode=smode)

    def run(x):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return getattr(x, f"{name}_filter")(**kwargs, **kw)

    o = run(p)
    if factor is None:
        # Integer data stay integers: truncated after each dimension
        ctx.check(np.abs(np.asarray(o.data, dtype=float) - want).max() <= len(dims) * 1.0 + 1e-6, f"{name}-values", lambda: f"{np.abs(o.data - want).max()}")
    else:
        compare(ctx, f"{name}-values", np.asarray(o.data)[judge], want[judge], dtype, scale=float(np.abs(data).max()), factor=factor)
    unchanged(ctx, p, o, name)
    if not (name == "hampel" and kw.get("approximate", True)) and factor is not None:
        # the approximate median depends on which dimension comes first
        equivariant(rng, ctx, p, o, run, name, factor=100)
    if forms != ["samples"] and name != "sobel":
        # the same window in samples
        kw2 = {**kw, "samples": True}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o2 = getattr(p, f"{name}_filter")(**{k: size[p.dims.index(k)] for k in kwargs}, **kw2)
        ctx.check(mon.same(o2.data, o.data), f"{name}-forms",
                  lambda: f"{forms} {kwargs} is not {counts} samples")
    ctx.cover("window", name, forms, need, counts, info[dims[0]][:2], dtype, p.ndim, tuple(sorted(k for k in kw)))


@family("P16", "levels", 500)
def f_levels(rng, ctx):
    """Trends, means, medians and norms are removed along one dimension."""
    p, (dim,), info = make(rng, ctx, n=(3, 14), kinds=("even", "even-desc", "mono", "unsorted"))
    axis = p.dims.index(dim)
    name = gen.pick(rng, ["detrend", "demean", "demedian", "normalize", "standardize"])
    data = np.array(p.data)
    nan = name != "detrend" and data.dtype.kind == "f" and gen.chance(rng, 0.4)
    if nan:
        bad = rng.random(data.shape) < 0.2
        first = [slice(None)] * p.ndim
        first[axis] = slice(0, 2)
        bad[tuple(first)] = False
        data[bad] = np.nan
        p = p.new(data=gen.layout(rng, data))
    if gen.chance(rng, 0.15) and name in ("normalize",):
        first = [0] * p.ndim
        first[axis] = slice(None)
        data = np.array(data)
        data[tuple(first)] = 0
        p = p.new(data=data)
    kw = {"dim": dim}
    x = data.astype(np.float64)
    if name == "detrend":
        kind = gen.pick(rng, ["linear", "constant"])
        if kind != "linear" or gen.chance(rng, 0.3):
            kw["type"] = kind

        def func(row):
            i = np.arange(len(row))
            return row - (np.polyval(np.polyfit(i, row, 1), i) if kind == "linear" else row.mean())
    elif name == "demean":
        def func(row):
            return row - row[~np.isnan(row)].mean()
    elif name == "demedian":
        def func(row):
            return row - np.median(row[~np.isnan(row)])
    elif name == "standardize":
        def func(row):
            ok = row[~np.isnan(row)]
            return (row - ok.mean()) / ok.std()
    else:
        norm = gen.pick(rng, ["l1", "l2", "max", "bit"])
        if norm != "l2" or gen.chance(rng, 0.3):
            kw["norm"] = norm

        def func(row):
            ok = np.abs(row[~np.isnan(row)])
            div = {"l1": ok.sum(), "l2": np.sqrt((ok**2).sum()), "max": ok.max(), "bit": np.abs(row)}[norm]
            return row / np.where(div == 0, 1, div)
    ctx.note(name=name, kw=kw, nan=nan)
    want = along(func, x, axis)
    with np.errstate(all="ignore"):
        o = getattr(p, name)(**kw)
        compare(ctx, f"{name}-values", o.data, want, p.data.dtype, scale=max(1.0, float(np.nanmax(np.abs(x)))) if name.startswith("de") else None, factor=100)
        unchanged(ctx, p, o, name, ("data_type",) if name in ("normalize", "standardize") else ())
        equivariant(rng, ctx, p, o, lambda q: getattr(q, name)(**kw), name, factor=100)
    ctx.cover("levels", name, tuple(kw.values())[1:], nan, info[dim][:2], p.data.dtype, axis, p.ndim)


def analytic(row):
    n = len(row)
    spec = np.fft.fft(row)
    h = np.zeros(n)
    h[0] = 1
    if n % 2 == 0:
        h[n // 2] = 1
        h[1: n // 2] = 2
    else:
        h[1: (n + 1) // 2] = 2
    return np.fft.ifft(spec * h)


@family("P16", "analytic", 250)
def f_analytic(rng, ctx):
    p, (dim,), info = make(rng, ctx, n=(4, 20))
    axis = p.dims.index(dim)
    name = gen.pick(rng, ["hilbert", "envelope"])
    ctx.note(name=name)
    o = getattr(p, name)(dim)
    want = along(lambda row: analytic(row.astype(np.float64)), p.data, axis)
    if name == "envelope":
        want = np.abs(want)
    compare(ctx, f"{name}-values", o.data, want, p.data.dtype, factor=10)
    unchanged(ctx, p, o, name, ("data_type",))
    equivariant(rng, ctx, p, o, lambda q: getattr(q, name)(dim), name)
    ctx.cover("analytic", name, info[dim][:2], p.data.dtype, axis, p.ndim, p.shape[axis] % 2)


def hann(n):
    return signal.windows.hann(n)


@family("P16", "whiten", 250)
def f_whiten(rng, ctx):
    """The spectrum over its smoothed amplitude, phases unchanged, within the band."""
    p, (dim,), info = make(rng, ctx, n=(40, 70), kinds=("even",), data=("float64", "float64", "float32", "int16", "complex128"))
    axis = p.dims.index(dim)
    dx = dx_of(p, dim)
    if np.iscomplexobj(p.data):
        p = p.new(data=p.data + 1j * rng.standard_normal(p.shape))
    n = p.shape[axis]
    size = sfft.next_fast_len(n)
    real = not np.iscomplexobj(p.data)
    kw, df = {}, 1 / (size * dx)
    smooth = gen.pick(rng, [None, 3, 5, 4])
    water = gen.pick(rng, [None, 0.05, 0.3]) if smooth else None
    if smooth:
        kw["smooth_size"] = (smooth - 0.3) * df
    if water:
        kw["water_level"] = water
    freqs = np.arange(size // 2 + 1) * df if real else (np.arange(size) - size // 2) * df
    band = gen.pick(rng, [None, 2, 4])
    values = None
    if band:
        marks = sorted(int(x) * 3 for x in rng.choice(np.arange(1, len(freqs) // 3 - 1), band, replace=False))
        values = [float(freqs[i]) - 0.4 * df for i in marks]
        kw[dim] = gen.pick(rng, [tuple, list, np.array])(values)
    elif dim != "time":
        kw[dim] = None
    ctx.note(dim=dim, kw=kw)

    env = np.ones(len(freqs))
    if band:
        edges = [0, *marks, len(freqs)] if band == 2 else marks
        i1, i2, i3, i4 = edges
        env = np.zeros(len(freqs))
        env[i1:i2] = hann(2 * (i2 - i1) + 1)[: i2 - i1]
        env[i2:i3] = 1
        env[i3:i4] = hann(2 * (i4 - i3) + 1)[: i4 - i3][::-1]
    peak = {}

    def spec(row):
        return np.fft.rfft(row, size) * dx if real else np.fft.fftshift(np.fft.fft(row, size)) * dx

    rows = np.asarray(p.data).astype(np.complex128 if not real else np.float64)
    spectra = np.apply_along_axis(spec, axis, rows)
    amp = np.abs(spectra)
    ratio = np.ones_like(amp)
    if smooth:
        uni = ndimage.uniform_filter1d(amp, smooth, axis=axis, mode="wrap")
        if water:
            uni = np.maximum(uni, water * uni.max())
        ratio = amp / uni
    shape = [1] * p.ndim
    shape[axis] = -1
    out = ratio * np.exp(1j * np.angle(spectra)) * env.reshape(shape) / dx
    want = np.fft.irfft(out, size, axis=axis) if real else np.fft.ifft(np.fft.ifftshift(out, axes=axis), axis=axis)
    want = np.take(want, np.arange(n), axis=axis)
    o = p.whiten(**kw)
    compare(ctx, "whiten-values", o.data, want, p.data.dtype, factor=1e3)
    unchanged(ctx, p, o, "whiten")
    equivariant(rng, ctx, p, o, lambda q: q.whiten(**kw), "whiten", factor=1e3)
    # the same in the frequency domain
    f = p.dft(dim, real=real or None)
    g = f.whiten(**kw)
    ctx.check(g.dims == f.dims, "whiten-domain", lambda: f"{f.dims} -> {g.dims}")
    compare(ctx, "whiten-spectrum", g.data, out * dx, p.data.dtype, factor=1e3)
    unchanged(ctx, f, g, "whiten-spectrum")
    ctx.cover("whiten", smooth, water, band, real, info[dim][:2], p.data.dtype, axis, p.ndim)


@family("P16", "slope_filter", 250)
def f_slope(rng, ctx):
    """Energy outside the slopes is removed in the frequency domain."""
    p, dims, info = make(rng, ctx, n=(8, 20), need=2, kinds=("even",), data=("float64", "float64", "float32", "int16"))
    dims = tuple(str(x) for x in rng.permutation(dims))
    if not all(p.get_coord(d).units for d in dims) or gen.chance(rng, 0.3):
        p = p.set_units(**{d: "s" if p.get_array(d).dtype.kind in "mM" else "m" for d in dims})
    dxs = [dx_of(p, d) for d in dims]
    sizes = [sfft.next_fast_len(p.shape[p.dims.index(d)]) for d in dims]
    axes = [p.dims.index(d) for d in dims]
    freqs = [(np.arange(n) - n // 2) / (n * dx) for n, dx in zip(sizes, dxs)]
    directional, invert = gen.chance(rng, 0.4), gen.chance(rng, 0.4)

    def along_axis(vals, ax):
        shape = [1] * p.ndim
        shape[ax] = -1
        return np.asarray(vals).reshape(shape)

    # the slope is second over first dimension in frequency, which is first over second in the original domain
    with np.errstate(all="ignore"):
        slope = along_axis(freqs[1], axes[1]) / (along_axis(freqs[0], axes[0]) + np.finfo(float).eps)
    if not directional:
        slope = np.abs(slope)
    finite = np.sort(np.unique(np.abs(slope[np.isfinite(slope) & (np.abs(slope) < 1e10)])))
    finite = finite[finite > 0]
    finite = finite[np.append(True, np.diff(finite) > 1e-6 * finite[1:])] if len(finite) else finite
    if len(finite) < 8:
        ctx.skip("few slopes")
    picks = np.sort(rng.choice(np.arange(len(finite) - 1), 4, replace=False))
    filt = np.array([(finite[i] + 1.7 * finite[i + 1]) / 2.7 for i in picks])
    if directional and gen.chance(rng, 0.5):
        filt = np.sort(-filt)
    a, b, c, d = filt
    if np.diff(filt).min() < 1e-3 * np.abs(filt).max():
        ctx.skip("narrow")
    with np.errstate(all="ignore"):
        gain = np.where((slope > a) & (slope < b), np.sin(0.5 * np.pi * (slope - a) / (b - a)), 0.0)
        gain = np.where((slope >= b) & (slope <= c), 1.0, gain)
        gain = np.where((slope > c) & (slope < d), 1 - np.sin(0.5 * np.pi * (slope - c) / (d - c)), gain)
    if invert:
        gain = 1 - gain
    shape = [n for n in p.shape]
    for ax, n in zip(axes, sizes):
        shape[ax] = n
    padded = np.zeros(shape)
    padded[tuple(slice(0, n) for n in p.shape)] = p.data
    spec = np.fft.fftshift(np.fft.fftn(padded, axes=axes), axes=axes) * gain
    want = np.fft.ifftn(np.fft.ifftshift(spec, axes=axes), axes=axes).real[tuple(slice(0, n) for n in p.shape)]
    form = gen.pick(rng, ["plain", "plain", "quantity", "converted", "slowness", "list"])
    units = [get_quantity(p.get_coord(x).units) for x in dims]
    base = units[0] / units[1]
    arg = filt
    if form == "quantity":
        arg = filt * base
    elif form == "list":
        arg = [x * base for x in filt] if gen.chance(rng, 0.5) else list(filt)
    elif form == "converted":
        arg = (filt * base).to("km/hour") if base.is_compatible_with("m/s") else filt * base
    elif form == "slowness":
        if base.dimensionless:
            form = "plain"
        else:
            arg = np.sort(1 / filt) / base
            # the limits of slowness taper the other way around, but between the same values
            form = "slowness"
    kw = {}
    if dims != ("distance", "time") or gen.chance(rng, 0.3):
        kw["dims"] = gen.pick(rng, [tuple, list])(dims)
    if directional:
        kw["directional"] = True
    if invert:
        kw["invert"] = True
    ctx.note(arg=arg, kw=kw, form=form, filt=filt)
    o = p.slope_filter(arg, **kw)
    compare(ctx, "slope-values", o.data, want, p.data.dtype, scale=float(np.abs(p.data.astype(float)).max()), factor=1e4)
    unchanged(ctx, p, o, "slope")
    equivariant(rng, ctx, p, o, lambda q: q.slope_filter(arg, **kw), "slope", factor=1e4)
    f = p.dft(dims)
    g = f.slope_filter(arg, **kw)
    compare(ctx, "slope-spectrum", g.data, spec * np.prod(dxs), p.data.dtype, factor=1e4)
    unchanged(ctx, f, g, "slope-spectrum")
    ctx.cover("slope", form, directional, invert, info[dims[0]][:2], info[dims[1]][:2], p.data.dtype, p.ndim, axes[0] < axes[1])


@family("P16", "detectors", 300)
def f_detectors(rng, ctx):
    """Ratios of window means, and fourth moments."""
    name = gen.pick(rng, ["stalta", "kurtosis", "recursive"])
    p, (dim,), info = make(rng, ctx, n=(20, 30), data=("float64", "float64", "float32", "int16"))
    p = p.new(data=np.abs(p.data) + np.asarray(1, p.data.dtype)) if name == "stalta" else p
    axis = p.dims.index(dim)
    short, long = int(rng.integers(2, 5)), int(rng.integers(6, 10))
    form, value = window_forms(rng, p, dim, long)
    kw = {} if form != "samples" else {"samples": True}
    x = p.data.astype(np.float64)
    if name == "stalta":
        while True:
            form, value = window_forms(rng, p, dim, long)
            sform, svalue = window_forms(rng, p, dim, short)
            if sform == form:
                break
        kw = {} if form != "samples" else {"samples": True}
        kw[dim] = (svalue, value)

        def func(row):
            out = np.full(len(row), np.nan)
            for i in range(long - 1, len(row)):
                out[i] = row[i - short + 1: i + 1].mean() / row[i - long + 1: i + 1].mean()
            return out
    else:
        kw[dim] = value
        if name == "kurtosis":
            kw["recursive"] = False

            def func(row):
                out = []
                for i in range(len(row)):
                    w = row[max(0, i - long // 2): i + long - long // 2]
                    dev = w - w.mean()
                    var = (dev**2).mean()
                    out.append((dev**4).mean() / var**2 if var > 0 else np.nan)
                return np.array(out)
        else:
            if gen.chance(rng, 0.3):
                kw["recursive"] = True
            c = 1 - 1 / long

            def func(row):
                mean = var = kurt = 0.0
                total, out = row.var(), []
                for v in row:
                    mean = c * mean + (1 - c) * v
                    var = c * var + (1 - c) * (v - mean) ** 2
                    norm = max(var, total) ** 2
                    kurt = c * kurt + (1 - c) * (v - mean) ** 4 / norm if norm > 0 else np.nan
                    out.append(kurt)
                return np.array(out)
    ctx.note(name=name, kw=kw, long=long, short=short)

    def run(q):
        return (q.stalta if name == "stalta" else q.kurtosis)(**kw)

    o = run(p)
    want = along(func, x, axis)
    compare(ctx, f"{name}-values", o.data, want, p.data.dtype, factor=1e4)
    unchanged(ctx, p, o, name, ("data_type", "data_units"))
    equivariant(rng, ctx, p, o, run, name, factor=1e4)
    ctx.cover("detectors", name, form, info[dim][:2], p.data.dtype, axis, p.ndim, long % 2)
