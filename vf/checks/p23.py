"""P23: correlation and array processing equal their definitions."""
from __future__ import annotations

import numpy as np
from scipy import signal

import dascore as dc
from dascore.units import get_quantity
from vf import gen, mon
from vf.core import describe, family
from vf.ref import attrs_problem

describe(
    "P23",
    "Random shot gathers and patches (dimensions in either order, even, irregular and reversed distances, datetime, duration and numeric times, distances in m, ft and km, integer, single and complex data) "
    "are correlated (sources by label, sample, quantity, array or all; directly and by way of explicit Fourier transforms), slant stacked, turned into dispersion images, strain rates and strains, "
    "frequency band energies and phase-weighted stacks. The oracle loops over labels: each output label is looked up and the value recomputed from the published definition with the labels of the input; "
    "a second run on a transposed or re-ordered patch must give the same field. Non-trivial: distinct by (operation, geometry, order, options, outcome).",
    [
        "SciPy's filters are the reference for the pass band of band energies; its Hilbert transform for phases",
        "lags beyond the length of the data only have to be zero",
        "a source between two channels may be either refused or taken as the next channel, which its label must then name",
        "slant stacks interpolate linearly and skip times after the last sample",
    ],
)

TO_M = {"m": 1.0, "ft": 0.3048, "km": 1000.0, "cm": 0.01, None: 1.0}


def time_labels(rng, n, kind, dt):
    step = np.timedelta64(round(dt * 1e9), "ns")
    if kind == "time":
        return np.datetime64("2021-03-04T05:06:07.5", "ns") + np.arange(n) * step
    if kind == "delta":
        return np.timedelta64(1234567, "ns") + np.arange(n) * step
    return 3.0 + np.arange(n) * dt


def dist_labels(rng, n, kind, dx):
    start = gen.pick(rng, [0.0, 10.0, -25.0])
    if kind == "irregular":
        d = rng.uniform(0.4, 2.0, n)
        d[0], d[-1] = 0.7, 1.3  # never nearly even, which would be snapped
        return start + np.cumsum(d) * dx
    return start + np.arange(n) * dx


def gather(rng, ctx, n=(2, 6), nt=(8, 20), kinds=("even", "even", "irregular"), dtypes=("float64", "float64", "float32", "int16"), times=("time", "delta", "float"), rev=0.3, units=("m", "m", "ft", "km")):
    nx, nt = int(rng.integers(*n)), int(rng.integers(*nt))
    tkind, dkind = gen.pick(rng, times), gen.pick(rng, kinds) if nx > 2 else "even"
    dt = float(gen.pick(rng, [0.001, 0.01, 0.5]))
    t, x = time_labels(rng, nt, tkind, dt), dist_labels(rng, nx, dkind, float(gen.pick(rng, [1.0, 2.5, 10.0])))
    dtype = np.dtype(gen.pick(rng, dtypes))
    if dtype.kind == "i":
        data = rng.integers(-300, 300, (nx, nt)).astype(dtype)
    elif dtype.kind == "c":
        data = (rng.normal(0, 5, (nx, nt)) + 1j * rng.normal(0, 5, (nx, nt))).astype(dtype)
    else:
        data = rng.normal(0, 5, (nx, nt)).astype(dtype)
    unit = gen.pick(rng, units)
    t_unit = "s"
    if tkind == "float" and gen.chance(rng, 0.4):
        t, t_unit = t * 1000, "ms"
    rx, rt = gen.chance(rng, rev), gen.chance(rng, rev / 2)
    if rx:
        x, data = x[::-1], data[::-1]
    if rt:
        t, data = t[::-1], data[:, ::-1]
    dims = ("distance", "time")
    coords = {"distance": dc.get_coord(data=np.array(x), units=unit), "time": dc.get_coord(data=np.array(t), units=t_unit)}
    if gen.chance(rng, 0.4):
        coords["quality"] = ("distance", rng.random(nx))
    p = dc.Patch(data=np.array(data), coords=coords, dims=dims, attrs={"tag": "x", "data_type": "velocity", "data_units": "m/s"})
    if gen.chance(rng, 0.5):
        p = p.transpose()
    info = (tkind, dkind, "rx" if rx else "", "rt" if rt else "", dtype.str, str(unit), p.dims[0])
    ctx.note(patch=gen.describe(p), info=info)
    return p, info


def secs(values):
    v = np.asarray(values)
    if v.dtype.kind in "mM":
        return (v - v[0]) / np.timedelta64(1, "ns") * 1e-9
    return v - v[0]


def in_seconds(p):
    """Time labels, numbers in seconds."""
    v = np.asarray(p.get_array("time"))
    return v * 0.001 if v.dtype.kind == "f" and str(p.get_coord("time").units).endswith("ms") else v


def snapped(got, want):
    """Labels equal up to snapping of nearly even ones (0.1 % of the step)."""
    got, want = np.asarray(got), np.asarray(want)
    return got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1.1e-3 * np.median(np.abs(np.diff(want))) if len(want) > 2 else 0)


def by_order(p, *names):
    return np.asarray(p.transpose(*names).data)


def close(got, want, rtol, scale=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    s = scale if scale is not None else (np.nanmax(np.abs(want)) if want.size else 1)
    return np.allclose(got, want, rtol=rtol, atol=rtol * max(float(s), 1e-300), equal_nan=True)


def eps(p):
    return 3e-3 if p.data.dtype in (np.float32, np.complex64) else 1e-7


# ---------------------------------------------------------------- correlation


def correlate_ref(data, index, lag):
    """sum_t d[r, t + lag] conj(d[s, t])"""
    n = data.shape[1]
    t = np.arange(max(0, -lag), min(n, n - lag))
    if not len(t):
        return np.zeros(data.shape[0], dtype=np.result_type(data.dtype, float))
    return np.sum(data[:, t + lag] * np.conj(data[index, t])[None, :], axis=1)


@family("P23", "correlate", 700, 12000)
def correlate(rng, ctx):
    p, info = gather(rng, ctx, dtypes=("float64", "float64", "float32", "int16", "complex128"))
    along = gen.pick(rng, ["time", "time", "distance"])  # dimension of the lags
    src = "distance" if along == "time" else "time"
    if along == "distance" and info[1] == "irregular":
        ctx.raises(lambda: p.correlate(**{src: 0}, samples=True), "irregular-accepted")
        ctx.cover("correlate", "refused", *info)
        return
    labels = np.asarray(p.get_array(src))
    unit = p.get_coord(src).units
    how = gen.pick(rng, ["label", "sample", "labels", "samples", "quantity", "all", "between", "quantities"])
    if how in ("quantity", "quantities") and labels.dtype.kind in "mM":
        how = "label"
    if how == "between" and src == "time":
        how = "sample"
    n = len(labels)
    many = how in ("labels", "samples", "quantities")
    idx = sorted(int(i) for i in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False)) if many else [int(rng.integers(n))]
    if many and gen.chance(rng, 0.3):
        rng.shuffle(idx)
    kw = {}
    if how == "label":
        kw[src] = labels[idx[0]]
    elif how == "sample":
        kw[src], kw["samples"] = idx[0], True
    elif how == "labels":
        kw[src] = gen.pick(rng, [labels[idx], list(labels[idx])])
    elif how == "samples":
        kw[src], kw["samples"] = gen.pick(rng, [np.array(idx), list(idx)]), True
    elif how == "quantity":
        other = gen.pick(rng, ["m", "km", "ft"] if src == "distance" else ["s", "ms", "min"])
        k = min(idx[0], n - 2)
        kw[src] = (float(labels[idx[0]]) * get_quantity(unit)).to(other)
    elif how == "quantities":
        kw[src] = labels[idx] * get_quantity(unit)
    elif how == "all":
        kw[src], idx = None, list(range(n))
    else:
        if n < 2:
            ctx.skip("short")
        k = int(rng.integers(n - 1))
        kw[src] = float(labels[k] + 0.4 * (labels[k + 1] - labels[k]))
        idx = None
    what = f"{info} correlate {kw}"
    ctx.note(what=what)
    before = mon.fp_patch(p)
    route = gen.pick(rng, ["direct", "direct", "fourier"])
    try:
        if route == "direct":
            out = p.correlate(**kw)
        else:
            real = along if p.data.dtype.kind != "c" else None
            out = p.pad(**{along: "correlate"}).dft(along, real=real).correlate(**kw).idft().correlate_shift(along)
    except Exception as exc:
        if how == "between":
            ctx.cover("correlate", "between refused", *info)
            return
        if labels[0] > labels[-1] and "samples" not in kw and "must be sorted" in str(exc):
            ctx.cover("correlate", "reversed refused", *info)
            return
        if how == "quantity" and "out of bounds" in str(exc):  # converting units rounds beyond the last label
            ctx.cover("correlate", "rounded out of bounds", *info)
            return
        raise
    if how == "quantity":
        idx = None  # converting units may round beyond the label
    lag, sname = f"lag_{along}", f"source_{src}"
    ctx.check(set(out.dims) == {lag, src, sname}, "dimensions", lambda: f"{what}: {out.dims}")
    ctx.soft(mon.fp_patch(p) == before, "input-changed", what)
    ctx.soft(out.attrs.data_type == "correlation" or route == "fourier", "data-type", lambda: f"{what}: {out.attrs.data_type}")
    # labels
    got_src = np.asarray(out.get_array(sname))
    if idx is None:
        near = [k, k + 1]
        hit = [i for i in near if abs(float(got_src[0] - labels[i])) < 1e-6 * abs(float(labels[k + 1] - labels[k]))]
        ctx.check(len(got_src) == 1 and hit, "source-label", lambda: f"{what}: {got_src} is no channel of {labels}")
        idx = hit
    else:
        want = labels[idx]
        same = np.array_equal(got_src, want) if labels.dtype.kind in "mM" else snapped(got_src, want)
        ctx.check(same, "source-label", lambda: f"{what}: {got_src}, expected {want}")
    ctx.soft(str(out.get_coord(sname).units) == str(unit), "source-units", lambda: f"{what}: {out.get_coord(sname).units} instead of {unit}")
    ctx.soft(mon.fp_patch(out.select(**{sname: (..., ...)})) is not None and np.array_equal(out.get_array(src), labels), "receiver-label", lambda: f"{what}: {out.get_array(src)}")
    lags = np.asarray(out.get_array(lag))
    base = np.asarray(p.get_array(along))
    step = base[1] - base[0]
    ks = lags / step
    kint = np.round(ks.astype(float)).astype(int)
    ctx.check(np.allclose(ks.astype(float), kint, atol=1e-5) and len(set(kint)) == len(kint), "lag-label", lambda: f"{what}: {lags} of step {step}")
    ctx.soft(str(out.get_coord(lag).units) == str(p.get_coord(along).units), "lag-units", lambda: f"{what}: {out.get_coord(lag).units}")
    m = len(base)
    ctx.check(set(range(-(m - 1), m)) <= set(kint.tolist()), "lag-missing", lambda: f"{what}: {kint} of {m} samples")
    data = by_order(p, src, along).astype(np.complex128 if p.data.dtype.kind == "c" else np.float64)
    got = by_order(out, lag, src, sname)
    ref = np.array([[correlate_ref(data, i, int(k)) for i in idx] for k in kint]).transpose(0, 2, 1)
    scale = np.abs(data).max() ** 2 * m
    ctx.check(close(got, ref, eps(p), scale), "wrong-value", lambda: f"{what}: largest difference {np.abs(got - ref).max()} of {scale}, e.g. {[(int(kint[a]), int(b), int(c), got[a, b, c], ref[a, b, c]) for a, b, c in np.argwhere(~np.isclose(got, ref, rtol=eps(p), atol=eps(p) * scale))[:3]]}")
    if gen.chance(rng, 0.3):
        o2 = p.transpose().correlate(**kw)
        ctx.check(close(by_order(o2, lag, src, sname), got, eps(p), scale), "order-dependent", what)
    ctx.count("correlation values", got.size)
    ctx.cover("correlate", how, route, along, *info)


# ---------------------------------------------------------------- tau-p


def taup_ref(data, x, dt, p):
    """Slant stack at signed slowness p: linear interpolation, x from the first channel (or the last, for p < 0)."""
    nx, nt = data.shape
    ref = x.min() if p >= 0 else x.max()
    out, edge = np.zeros(nt), np.zeros(nt, bool)
    for i in range(nx):
        shift = p * (x[i] - ref) / dt
        s = np.arange(nt) + shift
        k = np.floor(s + 1e-9).astype(int)
        frac = s - k
        ok = k + 1 < nt
        kk = np.where(ok, k, 0)
        out += np.where(ok, (1 - frac) * data[i, kk] + frac * data[i, np.minimum(kk + 1, nt - 1)], 0)
        edge |= np.abs(s - (nt - 1)) < 1e-6  # rounding decides whether the last sample counts
    return out, edge


@family("P23", "taup", 300, 5000)
def taup(rng, ctx):
    p, info = gather(rng, ctx, dtypes=("float64",), n=(2, 7), nt=(6, 24))
    x = np.asarray(p.get_array("distance"), float) * TO_M[info[5]]
    t = in_seconds(p)
    dt = abs(secs(t)[1])
    aperture = np.ptp(x)
    v = np.sort(rng.uniform(0.2, 8.0, int(rng.integers(1, 5)))) * aperture / (dt * len(t))
    how = gen.pick(rng, ["array", "array", "list", "quantity", "ints"])
    if how == "ints":
        v = np.unique(np.ceil(v)).astype(int)
    arg = {"array": v, "ints": v, "list": list(v), "quantity": v / 1000 * get_quantity("km/s")}[how]
    what = f"{info} tau_p {arg}"
    ctx.note(what=what)
    before = mon.fp_patch(p)
    out = p.tau_p(arg)
    ctx.soft(mon.fp_patch(p) == before, "input-changed", what)
    ctx.check(set(out.dims) == {"slowness", "time"}, "dimensions", lambda: f"{what}: {out.dims}")
    slow = np.asarray(out.get_array("slowness"))
    want = np.sort(np.concatenate([-1.0 / v, 1.0 / v]))
    ctx.check(snapped(np.sort(slow), want), "slowness-label", lambda: f"{what}: {slow}, expected {want}")
    ctx.soft(str(out.get_coord("slowness").units) in ("1.0 s / m", "1 s / m", "s/m", "1.0 s/m") or out.get_coord("slowness").units == get_quantity("s/m"), "slowness-units", lambda: f"{what}: {out.get_coord('slowness').units}")
    ctx.soft(out.get_coord("time").units == get_quantity("s"), "time-units", lambda: f"{what}: {out.get_coord('time').units}")
    ot = out.get_array("time")
    order = np.argsort(t)
    ctx.check(np.array_equal(np.sort(ot), np.asarray(t)[order]) or (ot.dtype.kind == "f" and np.allclose(np.sort(ot), np.asarray(t)[order], rtol=1e-12)), "time-label", lambda: f"{what}: {ot} {t}")
    data = by_order(p, "distance", "time").astype(float)[:, order]
    got = by_order(out, "slowness", "time")[:, np.argsort(ot)]
    for i, s in enumerate(slow):
        ref, edge = taup_ref(data, x, dt, s)
        bad = ~np.isclose(got[i], ref, rtol=1e-6, atol=1e-6 * np.abs(data).max() * len(x)) & ~edge
        ctx.check(not bad.any(), "wrong-value", lambda: f"{what}: slowness {s}: {got[i][bad][:4]}, expected {ref[bad][:4]} at {np.flatnonzero(bad)[:4]}")
    ctx.count("slant stack values", got.size)
    ctx.cover("taup", how, *info)


# ---------------------------------------------------------------- dispersion


@family("P23", "dispersion", 250, 4000)
def dispersion(rng, ctx):
    p, info = gather(rng, ctx, dtypes=("float64", "float32", "int16"), n=(3, 7), nt=(20, 60))
    x = np.asarray(p.get_array("distance"), float) * TO_M[info[5]]
    t = in_seconds(p)
    order = np.argsort(t)
    dt = abs(secs(t)[1])
    nyq = 0.5 / dt
    v = np.sort(rng.uniform(1.0, 30.0, int(rng.integers(2, 6)))) * np.ptp(x) / (dt * len(t))
    kw = {}
    if gen.chance(rng, 0.5):
        kw["approx_resolution"] = float(nyq * 2 / len(t) * rng.uniform(0.3, 1.2))
    if gen.chance(rng, 0.5):
        kw["approx_freq"] = gen.pick(rng, [tuple, list])([0.15 * nyq, 0.8 * nyq])
    arg = gen.pick(rng, [v, list(v)])
    what = f"{info} dispersion {v} {kw}"
    ctx.note(what=what)
    before = mon.fp_patch(p)
    out = p.dispersion_phase_shift(arg, **kw)
    ctx.soft(mon.fp_patch(p) == before, "input-changed", what)
    ctx.check(set(out.dims) == {"velocity", "frequency"}, "dimensions", lambda: f"{what}: {out.dims}")
    ctx.check(snapped(out.get_array("velocity"), v), "velocity-label", lambda: f"{what}: {out.get_array('velocity')}")
    ctx.soft(out.get_coord("velocity").units == get_quantity("m/s") and out.get_coord("frequency").units == get_quantity("Hz"), "units", lambda: f"{what}: {out.get_coord('velocity').units} {out.get_coord('frequency').units}")
    f = np.asarray(out.get_array("frequency"))
    lo, hi = kw.get("approx_freq", (0, nyq))
    df = 1 / (dt * len(t)) if "approx_resolution" not in kw else kw["approx_resolution"]
    ctx.check(f.min() >= lo - 1e-9 * nyq and f.max() <= hi + 1e-9 * nyq, "frequency-range", lambda: f"{what}: {f.min()} to {f.max()} Hz, requested {lo} to {hi}")
    ctx.check(f.min() <= lo + 1.6 * df and f.max() >= hi - 2.6 * df, "frequency-range", lambda: f"{what}: {f.min()} to {f.max()} Hz, requested {lo} to {hi}")
    data = by_order(p, "distance", "time").astype(float)[:, order]
    # the transform has as many samples as the resolution asks for
    nf = len(t) if "approx_resolution" not in kw else int(len(t) * ((1 / dt) / len(t)) / kw["approx_resolution"])
    d = np.zeros((len(x), max(nf, 1)))
    d[:, : min(nf, len(t))] = data[:, : min(nf, len(t))]
    n = np.arange(d.shape[1])
    got = by_order(out, "velocity", "frequency")
    # known finding: bin k of n is labelled with k / (n - 1) of the sampling rate instead of k / n
    k = f * dt * (nf - 1)
    shifted = nf > 1 and np.allclose(k, np.round(k), atol=1e-6)
    true = np.round(k) / (dt * nf) if shifted else f
    spec = np.array([[np.sum(row * np.exp(-2j * np.pi * g * dt * n)) for g in true] for row in d])
    amp = np.abs(spec)
    clear = amp.min(axis=0) > 1e-6 * amp.max()
    unit = np.where(amp > 0, spec / np.where(amp > 0, amp, 1), 0)
    ref = np.array([np.abs(np.sum(np.exp(2j * np.pi * f[None, :] * x[:, None] / c) * unit, axis=0)) / len(x) for c in v])
    tol = 2e-3 if p.data.dtype == np.float32 else 1e-5
    ctx.check(np.allclose(got[:, clear], ref[:, clear], atol=tol), "wrong-value", lambda: f"{what}: {got[0][:4]}, expected {ref[0][:4]} at {f[:4]} Hz; largest difference {np.abs(got - ref).max()}")
    ctx.count("dispersion values", got.size)
    ctx.soft(not shifted or f.max() == 0, "bins-labelled-by-n-minus-1", lambda: f"{what}: bins {np.round(k)[:3]} of {nf} are labelled {f[:3]} Hz; they hold {true[:3]} Hz")
    ctx.cover("dispersion", sorted(kw), *info)


# ---------------------------------------------------------------- strain


@family("P23", "strain", 600, 9000)
def strain(rng, ctx):
    p, info = gather(rng, ctx, n=(6, 12), nt=(3, 8), kinds=("even", "even", "even", "irregular"), dtypes=("float64", "float32", "int16"))
    x = np.asarray(p.get_array("distance"), float)
    step = x[1] - x[0]
    mode = gen.pick(rng, ["central", "edgeless"])
    m = int(gen.pick(rng, [2, 4] if mode == "central" else [1, 2, 3]))
    if mode == "central":
        def func(q):
            return q.velocity_to_strain_rate(step_multiple=m)
    else:
        def func(q):
            return q.velocity_to_strain_rate_edgeless(step_multiple=m)
    what = f"{info} strain rate {mode} {m}"
    ctx.note(what=what)
    if info[1] == "irregular":
        ctx.raises(lambda: func(p), "irregular-accepted")
        ctx.cover("strain", "refused", *info)
        return
    if gen.chance(rng, 0.1):
        ctx.raises(lambda: func(p.update_attrs(data_type="strain")), "wrong-quantity-accepted")
    before = mon.fp_patch(p)
    out = func(p)
    ctx.soft(mon.fp_patch(p) == before, "input-changed", what)
    ctx.check(out.dims == p.dims, "dimensions", lambda: f"{what}: {out.dims}")
    v = by_order(p, "distance", "time").astype(float)
    got = by_order(out, "distance", "time")
    ox = np.asarray(out.get_array("distance"), float)
    if mode == "central":
        h = m // 2
        ctx.check(np.allclose(ox, x), "distance-label", lambda: f"{what}: {ox}")
        ref = (v[2 * h:] - v[: -2 * h]) / (2 * h * step)
        inner = got[h:-h]
    else:
        ctx.check(np.allclose(ox, 0.5 * (x[m:] + x[:-m])), "distance-label", lambda: f"{what}: {ox}, expected middles of {x}")
        ref, inner = (v[m:] - v[:-m]) / (m * step), got
    ctx.check(close(inner, ref, eps(p)), "wrong-value", lambda: f"{what}: {inner[0][:4]}, expected {ref[0][:4]}")
    ctx.soft(out.attrs.data_type == "strain_rate", "data-type", lambda: f"{what}: {out.attrs.data_type}")
    gl = out.attrs.gauge_length
    ctx.check(np.isclose(float(gl), m * abs(step)), "gauge-length", lambda: f"{what}: {gl}, expected {m * abs(step)}")
    want = get_quantity("m/s") / get_quantity(info[5])
    ctx.soft(get_quantity(out.attrs.data_units) == want, "data-units", lambda: f"{what}: {out.attrs.data_units}, expected {want}")
    ctx.soft(str(out.get_coord("distance").units) == str(p.get_coord("distance").units), "distance-units", lambda: f"{what}: {out.get_coord('distance').units}")
    ctx.soft(np.array_equal(out.get_array("time"), p.get_array("time")), "time-label", what)
    ctx.soft(out.attrs.tag == p.attrs.tag, "attrs", what)
    ctx.cover("strain", mode, m, *info)


@family("P23", "radians", 400, 6000)
def radians(rng, ctx):
    p, info = gather(rng, ctx, dtypes=("float64", "float32", "int16"))
    units = gen.pick(rng, ["radians", "radians/s", "mrad", "radians * 2", "m/s", None])
    gauge = gen.pick(rng, [10, 4.0, "attr", 33 * get_quantity("ft"), 10 * get_quantity("m"), None])
    attrs = {"data_units": units}
    if gauge == "attr":
        attrs["gauge_length"] = 12.0
    p = p.update_attrs(**attrs)
    kw = {} if gauge in ("attr", None) else {"gauge_length": gauge}
    for key, vals in (("wave_length", [1310e-9, 1550e-9]), ("stress_constant", [0.71, 0.79]), ("refractive_index", [1.468])):
        if gen.chance(rng, 0.3):
            kw[key] = gen.pick(rng, vals)
    what = f"{info} radians_to_strain {units} {attrs} {kw}"
    ctx.note(what=what)
    if gauge is None:
        ctx.raises(lambda: p.radians_to_strain(**kw), "no-gauge-accepted")
        ctx.cover("radians", "refused", units)
        return
    before = mon.fp_patch(p)
    out = p.radians_to_strain(**kw)
    ctx.soft(mon.fp_patch(p) == before, "input-changed", what)
    if units in ("m/s", None):
        ctx.check(mon.fp_patch(out) == before, "not-phase-but-converted", what)
        ctx.cover("radians", "kept", units)
        return
    g = 12.0 if gauge == "attr" else float(gauge.to("m").magnitude) if hasattr(gauge, "to") else float(gauge)
    const = kw.get("wave_length", 1550e-9) / (4 * np.pi * kw.get("refractive_index", 1.445) * g * kw.get("stress_constant", 0.79))
    in_rad = {"radians": 1.0, "radians/s": 1.0, "mrad": 1e-3, "radians * 2": 2.0}[units]
    ref = np.asarray(p.data, float) * in_rad * const
    q = get_quantity(out.attrs.data_units)
    base = get_quantity("strain/s" if units.endswith("/s") else "strain")
    ctx.check(q is not None and q.check(base.dimensionality), "data-units", lambda: f"{what}: {out.attrs.data_units}")
    factor = float(q.to(base.units).magnitude) if units.endswith("/s") else float(q.to("strain").magnitude)
    ctx.check("rad" not in str(q), "data-units", lambda: f"{what}: {out.attrs.data_units}")
    got = np.asarray(out.data, float) * factor
    ctx.check(close(got, ref, 1e-5), "wrong-value", lambda: f"{what}: {got.ravel()[:3]} {q}, expected {ref.ravel()[:3]}")
    ctx.check(out.dims == p.dims and not (attrs_problem(p, out, changed=("data_units", "data_type"))), "attrs", lambda: f"{what}: {attrs_problem(p, out, changed=('data_units', 'data_type'))}")
    ctx.cover("radians", units, str(gauge), sorted(kw))


# ---------------------------------------------------------------- stacks and band energies


@family("P23", "stack", 500, 8000)
def stack(rng, ctx):
    p, info = gather(rng, ctx, n=(2, 7), nt=(6, 30), dtypes=("float64", "float32", "int16"))
    sdim = gen.pick(rng, ["distance", "distance", "time"])
    tdim = "time" if sdim == "distance" else "distance"
    third = gen.chance(rng, 0.3)
    if third:
        shot = np.stack([p.data, p.data[::-1], p.data * 2], axis=0)
        p = dc.Patch(data=shot, coords={"shot": np.arange(3), **{d: p.get_coord(d) for d in p.dims}}, dims=("shot", *p.dims))
        p = p.transpose(*rng.permutation(p.dims))
    power = float(gen.pick(rng, [2.0, 1.0, 0.5, 0, 3]))
    kw = {"power": power} if gen.chance(rng, 0.8) else {}
    power = kw.get("power", 2.0)
    if third or gen.chance(rng, 0.5):
        kw["transform_dim"] = tdim
    reduce = gen.pick(rng, ["empty", "squeeze", "mean", None])
    if reduce:
        kw["dim_reduce"] = reduce
    if tdim == "distance" and info[1] == "irregular":
        ctx.raises(lambda: p.phase_weighted_stack(sdim, **kw), "irregular-accepted")
        ctx.cover("stack", "refused", *info)
        return
    what = f"{info} stack {sdim} {kw} {p.dims}"
    ctx.note(what=what)
    before = mon.fp_patch(p)
    out = p.phase_weighted_stack(sdim, **kw)
    ctx.soft(mon.fp_patch(p) == before, "input-changed", what)
    d = np.asarray(p.data, float)
    sa, ta = p.dims.index(sdim), p.dims.index(tdim)
    ana = signal.hilbert(d, axis=ta)
    amp = np.abs(ana)
    ph = np.where(amp > 0, ana / np.where(amp > 0, amp, 1), 0)
    ref = d.mean(axis=sa) * np.abs(ph.mean(axis=sa)) ** power
    odims = tuple(x for x in p.dims if x != sdim)
    got = np.asarray(out.data)
    if reduce == "squeeze":
        ctx.check(out.dims == odims, "dimensions", lambda: f"{what}: {out.dims}")
    else:
        ctx.check(out.dims == p.dims and out.shape[sa] == 1, "dimensions", lambda: f"{what}: {out.dims} {out.shape}")
        got = got.squeeze(axis=sa)
        if reduce == "mean":
            lab = out.get_array(sdim)[0]
            arr = p.get_array(sdim)
            want = arr.astype("int64").mean() if arr.dtype.kind in "mM" else arr.mean()
            have = lab.astype("int64") if arr.dtype.kind in "mM" else lab
            ctx.check(abs(float(have) - float(want)) <= 2e-9 * abs(float(want)) + 2 * (arr.dtype.kind in "mM"), "stack-label", lambda: f"{what}: {lab}")
    for x in odims:
        ctx.soft(np.array_equal(out.get_array(x), p.get_array(x)), "other-label", lambda: f"{what}: {x}")
    ctx.soft(got.dtype.kind == "f", "data-kind", lambda: f"{what}: {got.dtype}")
    ctx.check(close(got, ref, 2e-3 if p.data.dtype == np.float32 else 1e-7, np.abs(d).max()), "wrong-value", lambda: f"{what}: {got.ravel()[:4]}, expected {ref.ravel()[:4]}")
    ctx.cover("stack", power, reduce, third, *info)


@family("P23", "energy", 300, 4000)
def energy(rng, ctx):
    nt, nx = int(rng.integers(60, 120)), int(rng.integers(1, 4))
    kind = gen.pick(rng, ["time", "delta", "float"])
    dt = float(gen.pick(rng, [0.001, 0.01, 0.004]))
    t, rt = time_labels(rng, nt, kind, dt), gen.chance(rng, 0.3)
    data = rng.normal(0, 5, (nx, nt)).astype(gen.pick(rng, ["float64", "float32"]))
    t = t[::-1] if rt else t
    p = dc.Patch(data=data, coords={"distance": np.arange(nx) * 2.0, "time": dc.get_coord(data=np.array(t), units="s")}, dims=("distance", "time"), attrs={"data_units": "m/s"})
    if gen.chance(rng, 0.5):
        p = p.transpose()
    nyq = 0.5 / dt
    band = gen.pick(rng, [(0.1 * nyq, 0.5 * nyq), (None, 0.4 * nyq), (0.2 * nyq, None)])
    w = int(gen.pick(rng, [3, 5, 10]))
    # half a sample off the grid, so that rounding cannot decide
    window = gen.pick(rng, [(w - 0.5) * dt, (w - 0.5) * dt * get_quantity("s"), np.timedelta64(round((w - 0.5) * dt * 1e9), "ns")][: 2 if kind == "float" else 3])
    kw = {"time": band}
    stride = gen.pick(rng, [None, None, 1, 2, 4])
    if stride:
        kw["step"] = gen.pick(rng, [(stride - 0.5) * dt, (stride - 0.5) * dt * get_quantity("s")])
    db = gen.pick(rng, [True, False])
    what = f"fbe {kind} {'reversed' if rt else ''} {p.dims} window {window} {kw} db={db}"
    ctx.note(what=what)
    before = mon.fp_patch(p)
    out = p.fbe(window=window, db=db, **kw)
    ctx.soft(mon.fp_patch(p) == before, "input-changed", what)
    ctx.check(out.dims == p.dims, "dimensions", lambda: f"{what}: {out.dims}")
    filt = by_order(p.pass_filter(time=band), "distance", "time").astype(float)
    labels = np.asarray(p.get_array("time"))
    ot = np.asarray(out.get_array("time"))
    got = by_order(out, "distance", "time").astype(float)
    pos = {v: i for i, v in enumerate(labels.tolist())}
    where = [pos.get(v, -1) for v in ot.tolist()]
    if min(where) < 0:
        where = [int(np.argmin(np.abs(labels - v))) for v in ot]
        ctx.check(np.all(np.abs(labels[where] - ot) <= (np.timedelta64(2, "ns") if kind != "float" else 1e-6 * dt)), "time-label", lambda: f"{what}: {ot[:4]}")
    st = stride or 1
    ctx.check(np.array_equal(np.diff(where), np.full(len(where) - 1, st)), "step", lambda: f"{what}: {np.diff(where)[:5]} samples instead of {st}")
    sq = filt ** 2
    ref = np.full(got.shape, np.nan)
    for j, i in enumerate(where):
        if i - w + 1 >= 0:
            ref[:, j] = np.sqrt(sq[:, i - w + 1: i + 1].mean(axis=1))
    if db:
        with np.errstate(divide="ignore"):
            ref = 20 * np.log10(ref)
    ctx.check(close(got, ref, 1e-3 if data.dtype == np.float32 else 1e-6), "wrong-value", lambda: f"{what}: {got[0][-4:]}, expected {ref[0][-4:]}; nulls {np.isnan(got[0]).sum()} {np.isnan(ref[0]).sum()}")
    ctx.soft(out.attrs.data_type == "frequency_band_energy", "data-type", lambda: f"{what}: {out.attrs.data_type}")
    if db:
        ctx.soft("dB" in str(out.attrs.data_units) or "decibel" in str(out.attrs.data_units), "data-units", lambda: f"{what}: {out.attrs.data_units}")
    else:
        ctx.soft(get_quantity(out.attrs.data_units) == get_quantity("m/s"), "data-units", lambda: f"{what}: {out.attrs.data_units}")
    ctx.cover("energy", kind, rt, p.dims[0], str(band[0] is None), str(band[1] is None), w, stride, db, type(window).__name__)
