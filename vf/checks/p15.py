"""P15: transforms obey their mathematical definitions and invert."""
from __future__ import annotations

import warnings

import numpy as np
from scipy import fft as sfft
from scipy import signal

import dascore as dc
from dascore.units import get_quantity, percent
from vf import gen, mon
from vf.core import describe, family
from vf.ref import along, attrs_problem, by_name, coords_problem, matches, offsets, spacing, tol, transposed

describe(
    "P15",
    "Random patches (1-3 dimensions in any order and layout; float, time and duration coordinates, ascending or descending, even or irregular, of length 1 and up; "
    "real, integer and complex data; with units, attributes and attached coordinates) are transformed along every choice of dimensions. Monitors evaluate the "
    "definition directly from the labels returned (sums over exp(-2 pi i f t), windowed sums, trapezoids, three-point Lagrange derivatives), compare labels, units "
    "and metadata with it, check energy conservation, and require each inverse to restore data, every coordinate and the metadata of the original. "
    "Non-trivial: distinct by (transform, options, coordinate kind, data type, dimensions).",
    [
        "along a descending coordinate the sampling interval, and so the frequencies, are negative",
        "coordinates attached to a transformed dimension are dropped, as documented",
        "the deprecated rfft and spectrogram (unscaled) are judged along ascending even labels only",
        "spectral powers and the inverse are judged to 1e-9 of the largest value (2e-5 for single precision)",
    ],
)

DATA = ("float64", "float64", "float32", "int16", "uint8", "complex128")
DIM_DTYPES = {d: ("float", "float", "time", "delta") if d == "time" else ("float", "float", "int") for d in gen.DIM_NAMES}


def make(rng, ctx, kinds=("even", "even", "even-desc"), dtypes=DATA, sizes=(1, 13), ndim=None, extra=True):
    p, info = gen.patch(rng, ndim=ndim, kinds=kinds, sizes=sizes, data="unique", data_dtypes=dtypes, extra=extra, dim_dtypes=DIM_DTYPES)
    data = p.data
    if data.dtype.kind in "fc":
        data = gen.layout(rng, gen.smooth_data(rng, p.shape, "float64").astype(data.dtype) + (1j * rng.standard_normal(p.shape) if data.dtype.kind == "c" else 0))
        p = p.new(data=data)
    if gen.chance(rng, 0.7):
        p = p.set_units(gen.pick(rng, ["m/s", "V", "1/s", "1/m", "strain", "s"]))
    # Length one coordinates have no sampling interval; give some of them one.
    for dim in p.dims:
        if p.get_coord(dim).shape[0] == 1 and p.get_array(dim).dtype.kind == "f":
            p = p.update_coords(**{dim: dc.get_coord(start=float(p.get_array(dim)[0]), step=0.5, shape=(1,), units=p.get_coord(dim).units)})
    if p.data.dtype.kind not in "fc":
        p = p.new(data=gen.layout(rng, np.asarray(rng.integers(0, 250, p.shape)).astype(p.data.dtype)))
    ctx.note(patch=gen.describe(p), data_units=str(p.attrs.data_units))
    return p, info


def dx_of(p, dim):
    coord = p.get_coord(dim)
    if coord.shape[0] == 1:
        return float(dc.to_float(coord.step))
    return spacing(p.get_array(dim))


def units_product(p, dims, start):
    for dim in dims:
        unit = get_quantity(p.get_coord(dim).units)
        if unit is not None:
            start = start * unit
    return start


def has_units(quant):
    """The quantity, or None if it says nothing (a bare 1)."""
    quant = get_quantity(quant)
    return None if quant is None or (quant.dimensionless and str(quant.units) == "") else quant


def unit_equal(a, b):
    a, b = has_units(a), has_units(b)
    if a is None or b is None:
        return a is None and b is None
    return a.is_compatible_with(b) and np.isclose((a / b).to_base_units().magnitude, 1.0)


def fourier_sum(data, axis, labels, off, dx):
    """The discretised Fourier integral at each frequency label."""
    kernel = np.exp(-2j * np.pi * np.outer(labels, off)) * dx
    return np.moveaxis(np.tensordot(kernel, data.astype(np.complex128), axes=([1], [axis])), 0, axis)


def transform(rng, ctx, p, dims, real, pad, **kwargs):
    arg = None if set(dims) == set(p.dims) and gen.chance(rng, 0.3) else dims[0] if len(dims) == 1 and gen.chance(rng, 0.5) else gen.pick(rng, [tuple, list])(dims)
    if arg is None and real is True:
        real = p.dims[-1]
    ctx.note(dim=arg, real=real, pad=pad, kwargs=kwargs)
    return p.dft(arg, real=real, pad=pad, **kwargs), (real if real is not True else (dims[-1] if arg is not None else p.dims[-1]))


def choose_dims(rng, p):
    ok = [d for d in p.dims if p.get_coord(d).evenly_sampled and p.get_coord(d).step is not None and dx_of(p, d) != 0]
    if not ok:
        return []
    return [str(x) for x in rng.permutation(ok)[: int(rng.integers(1, len(ok) + 1))]]


@family("P15", "dft", 700)
def f_dft(rng, ctx):
    """The transform is the discretised Fourier integral of the data along the dimensions."""
    p, info = make(rng, ctx)
    dims = choose_dims(rng, p)
    if not dims:
        ctx.skip("no even dimension")
    real = None if np.iscomplexobj(p.data) else gen.pick(rng, [None, None, True, dims[0], dims[-1]])
    pad = gen.chance(rng, 0.6)
    f, real_dim = transform(rng, ctx, p, dims, real, pad)
    ctx.check(f.dims == tuple(f"ft_{d}" if d in dims else d for d in p.dims), "dft-dims", lambda: f"{p.dims} -> {f.dims}")
    want = np.asarray(p.data)
    scale = 1.0
    for dim in dims:
        axis = p.dims.index(dim)
        n = p.shape[axis]
        size = sfft.next_fast_len(n) if pad else n
        dx = dx_of(p, dim)
        coord = f.get_coord(f"ft_{dim}")
        labels = np.asarray(coord.values)
        index = np.arange(size // 2 + 1) if dim == real_dim else np.arange(size) - size // 2
        expected = index / (size * dx)
        ctx.check(labels.shape == expected.shape and np.allclose(labels, expected, rtol=1e-9, atol=1e-9 / abs(dx) / size), "dft-labels",
                  lambda: f"{dim}: {labels} want {expected}")
        unit = get_quantity(p.get_coord(dim).units)
        ctx.check(unit_equal(coord.units, None if unit is None else 1 / unit), "dft-freq-units", lambda: f"{dim}: {unit} -> {coord.units}")
        want = fourier_sum(want, axis, expected, np.arange(n) * dx, dx)
        scale *= abs(dx) * n
    scale *= max(1.0, float(np.abs(p.data.astype(np.complex128)).max()))
    ctx.check(matches(f.data, want, rtol=max(tol(p.data.dtype), 1e-11), scale=scale), "dft-values", lambda: f"max error {np.abs(f.data - want).max()} scale {scale}")
    ctx.check(f.attrs.data_type == "fourier_transform", "dft-data-type", lambda: f.attrs.data_type)
    du = get_quantity(p.attrs.data_units)
    want_units = None if du is None else units_product(p, dims, du)
    ctx.check(unit_equal(f.attrs.data_units, want_units), "dft-data-units", lambda: f"{du} over {dims}: {f.attrs.data_units} want {want_units}")
    ctx.check(not (why := attrs_problem(p, f, ("data_units", "data_type"))), "dft-attrs", lambda: why)
    other = [d for d in p.dims if d not in dims]
    attached = [n for n, cd in p.coords.dim_map.items() if set(cd) & set(dims)]
    for name in p.coords.coord_map:
        if name not in attached and name not in dims:
            ctx.check(name in f.coords.coord_map and mon.fp_coord(f.get_coord(name)) == mon.fp_coord(p.get_coord(name)), "dft-other-coords", lambda: name)
    # energy: the two sums over all bins are the same
    if real_dim is None:
        df = np.prod([abs(1.0 / (f.shape[f.dims.index(f"ft_{d}")] * dx_of(p, d))) for d in dims])
        dt = np.prod([abs(dx_of(p, d)) for d in dims])
        energy = (np.abs(p.data.astype(np.complex128)) ** 2).sum() * dt
        got = (np.abs(f.data.astype(np.complex128)) ** 2).sum() * df
        ctx.check(np.isclose(energy, got, rtol=max(tol(p.data.dtype) * 10, 1e-9)), "dft-energy", lambda: f"{energy} vs {got}")
    # the order of dimensions and of the arguments does not matter
    q = transposed(rng, p)
    g = q.dft(list(dims) if real_dim is None else [d for d in dims if d != real_dim] + [real_dim], real=real_dim, pad=pad)
    ctx.check(matches(by_name(g, f.dims), f.data, rtol=max(tol(p.data.dtype), 1e-11), scale=scale), "dft-dim-order", lambda: f"{p.dims} vs {q.dims}")
    # already transformed dimensions are left alone
    again = f.dft(dims[0])
    ctx.check(again is f or (again.dims == f.dims and mon.same(again.data, f.data)), "dft-again", lambda: str(again.dims))
    ctx.cover("dft", len(dims), real_dim is not None, pad, p.data.dtype, *[info.get(d, ("?", "?"))[:2] for d in dims][:2], min(min(p.shape), 3), len(other))


@family("P15", "spectra", 400)
def f_spectra(rng, ctx):
    """Amplitude and power spectra are what their documentation says."""
    p, info = make(rng, ctx, sizes=(2, 13))
    dims = choose_dims(rng, p)
    if not dims:
        ctx.skip("no even dimension")
    real = None if np.iscomplexobj(p.data) else gen.pick(rng, [None, True])
    pad = gen.chance(rng, 0.5)
    output = gen.pick(rng, ["AS", "PS", "PSD", "psd", "as"])
    db = gen.chance(rng, 0.3)
    s, _ = transform(rng, ctx, p, dims, real, pad, output=output, db=db)
    f = p.dft(dims if real is None else dims, real=dims[-1] if real and set(dims) != set(p.dims) else None, pad=pad) if real is None else None
    base = f if f is not None else p.dft(list(s_dims(s, dims)), real=real_dim_of(s, dims), pad=pad)
    amp = np.abs(base.data.astype(np.complex128))
    extent = np.prod([abs(dx_of(p, d)) * (sfft.next_fast_len(p.shape[p.dims.index(d)]) if pad else p.shape[p.dims.index(d)]) for d in dims])
    kind = output.upper()
    want = {"AS": amp / extent, "PS": (amp / extent) ** 2, "PSD": amp**2 / extent}[kind]
    rtol = max(tol(p.data.dtype) * 5, 1e-9)
    if db:
        eps = np.finfo(s.data.dtype).eps
        big = want > want.max() * 1e-3
        ref = (20 if kind == "AS" else 10) * np.log10(want + eps)
        ctx.check(np.allclose(s.data[big], ref[big], atol=1e-3 if tol(p.data.dtype) > 1e-6 else 1e-7), "spectra-db", lambda: f"{np.abs(s.data - ref)[big].max()}")
        ctx.check(str(get_quantity(s.attrs.data_units).units) in ("dB", "decibel"), "spectra-db-units", lambda: str(s.attrs.data_units))
    else:
        ctx.check(matches(s.data, want, rtol=rtol), "spectra-values", lambda: f"{kind}: {np.abs(s.data - want).max()} of {want.max()}")
        du = get_quantity(p.attrs.data_units)
        if du is not None:
            freq = units_product(p, dims, get_quantity("1") if False else 1)
            want_units = {"AS": du, "PS": du**2, "PSD": du**2 * freq}[kind]
            ctx.check(unit_equal(s.attrs.data_units, want_units), "spectra-units", lambda: f"{kind} {du} {dims}: {s.attrs.data_units} want {want_units}")
        else:
            ctx.check(has_units(s.attrs.data_units) is None, "spectra-no-units", lambda: str(s.attrs.data_units))
        if real is None and kind in ("PS", "PSD"):
            sizes = [s.shape[s.dims.index(f"ft_{d}")] for d in dims]
            n_in = np.prod([p.shape[p.dims.index(d)] for d in dims])
            axes = tuple(s.dims.index(f"ft_{d}") for d in dims)
            mean_square = (np.abs(p.data.astype(np.complex128)) ** 2).sum(axis=axes) / np.prod(sizes)
            width = 1.0 if kind == "PS" else 1.0 / extent
            ctx.check(matches(s.data.sum(axis=axes) * width, mean_square, rtol=rtol * 10), "spectra-mean-square", lambda: f"{kind} n={n_in}/{sizes}")
    ctx.check(not np.iscomplexobj(s.data), "spectra-real", lambda: str(s.data.dtype))
    ctx.check(s.attrs.data_type == {"AS": "amplitude_spectrum", "PS": "power_spectrum", "PSD": "power_spectral_density"}[kind], "spectra-type", lambda: s.attrs.data_type)
    ctx.raises(lambda: s.idft(), "spectra-inverted", msg=f"idft of {kind}")
    ctx.cover("spectra", kind, db, real is not None, pad, len(dims), p.data.dtype)


def s_dims(s, dims):
    real = real_dim_of(s, dims)
    return [d for d in dims if d != real] + ([real] if real else [])


def real_dim_of(s, dims):
    """The dimension a real transform was made over: its frequencies start at zero."""
    for dim in dims:
        vals = np.asarray(s.get_array(f"ft_{dim}"))
        if vals[0] == 0 and len(vals) > 1:
            return dim
    return None


@family("P15", "idft", 700)
def f_idft(rng, ctx):
    """The inverse restores the patch, whatever the sequence of transforms was."""
    p, info = make(rng, ctx)
    ok = [d for d in p.dims if p.get_coord(d).evenly_sampled and p.get_coord(d).step is not None and dx_of(p, d) != 0]
    if not ok:
        ctx.skip("no even dimension")
    order = [str(x) for x in rng.permutation(ok)]
    groups, left = [], order[: int(rng.integers(1, len(order) + 1))]
    dims = list(left)
    while left:
        k = int(rng.integers(1, len(left) + 1))
        groups.append(left[:k])
        left = left[k:]
    real = not np.iscomplexobj(p.data) and gen.chance(rng, 0.4)
    f, pads = p, []
    for num, group in enumerate(groups):
        pads.append(gen.chance(rng, 0.6))
        f = f.dft(group, pad=pads[-1], real=gen.pick(rng, [True, group[0]]) if real and num == 0 else None)
    if gen.chance(rng, 0.2):
        f = f.transpose(*[str(x) for x in rng.permutation(list(f.dims))])
    how = gen.pick(rng, ["all", "named", "short", "stepwise"])
    ctx.note(groups=groups, pads=pads, real=real, how=how)
    real_dim = real_dim_of(f, dims) if real else None
    if how == "all":
        b = f.idft()
    elif how == "named":
        b = f.idft([f"ft_{d}" for d in rng.permutation(dims)])
    elif how == "short":
        b = f.idft([str(d) for d in rng.permutation(dims)])
    else:
        # the dimension of a real transform needs to be inverted last
        steps = [str(d) for d in rng.permutation(dims) if d != real_dim] + ([real_dim] if real_dim else [])
        b = f
        for dim in steps:
            b = b.idft(dim)
    rtol = max(tol(p.data.dtype) * 10, 1e-10)
    ctx.check(set(b.dims) == set(p.dims), "idft-dims", lambda: f"{p.dims} {b.dims}")
    ctx.check(matches(by_name(b, p.dims), p.data, rtol=rtol, scale=max(1.0, float(np.abs(p.data.astype(complex)).max()))), "idft-values",
              lambda: f"{b.shape} {p.shape}" + (f" {np.abs(by_name(b, p.dims) - p.data).max()}" if by_name(b, p.dims).shape == p.shape else ""))
    attached = [n for n, cd in p.coords.dim_map.items() if set(cd) & set(dims) and n not in p.dims]
    why = coords_problem(p, b, skip=attached)
    ctx.check(not why, "idft-coords", lambda: why)
    why2 = attrs_problem(p, b, ("data_units",))
    ctx.check(not why2, "idft-attrs", lambda: why2)
    ctx.check(unit_equal(p.attrs.data_units, b.attrs.data_units), "idft-units", lambda: f"{p.attrs.data_units} -> {b.attrs.data_units}")
    ctx.check(not [k for k in b.attrs.model_dump() if k.startswith("_") and ("dft" in k)], "idft-leftovers", lambda: str(list(b.attrs.model_dump())))
    ctx.cover("idft", len(groups), tuple(pads), real, how, p.data.dtype, min(p.shape) == 1, *[info.get(d, ("?", "?"))[:2] for d in dims][:2])


@family("P15", "stft", 500)
def f_stft(rng, ctx):
    """Windowed transforms at the window centres, and their inverse."""
    p, info = make(rng, ctx, sizes=(1, 4))
    dim = gen.pick(rng, p.dims)
    dtype = gen.pick(rng, DIM_DTYPES.get(dim, ("float",)))
    n = int(rng.integers(4, 24))
    shape = tuple(n if d == dim else s for d, s in zip(p.dims, p.shape))
    names = p.dims
    p, info = gen.patch(rng, names=names, shape=shape, kinds=("even", "even", "even-desc"), data="smooth", data_dtypes=("float64", "float64", "complex128", "int16", "float32"),
                        dim_dtypes={dim: (dtype,)})
    names = p.dims
    axis = p.dims.index(dim)
    n = p.shape[axis]
    if n < 4:
        ctx.skip("short")
    if np.iscomplexobj(p.data):
        p = p.new(data=p.data + 1j * rng.standard_normal(p.shape))
    elif p.data.dtype.kind == "i":
        p = p.new(data=rng.integers(-100, 100, p.shape).astype(p.data.dtype))
    if gen.chance(rng, 0.7):
        p = p.set_units(gen.pick(rng, ["m/s", "V", "1/s", "1/m"]))
    coord = p.get_coord(dim)
    dx = dx_of(p, dim)
    m = int(rng.integers(2, max(3, n // 2 + 1)))
    hop = int(rng.integers(1, m + 1))
    name = gen.pick(rng, ["hann", "boxcar", "hamming", ("tukey", 0.3), "array", "short"])
    window = signal.get_window(name, m, fftbins=False) if name not in ("array", "short") else rng.uniform(0.5, 1.5, m if name == "array" else max(1, m - 1))
    taper = window if isinstance(name, str) and name in ("array", "short") else name
    how = gen.pick(rng, ["samples", "units", "plain", "percent"])
    quant = get_quantity(coord.units) if coord.units is not None else None
    detrend = gen.chance(rng, 0.2)
    if how == "units" and quant is None:
        how = "plain"
    length, over = {
        "samples": (m, m - hop),
        "plain": (m * abs(dx), (m - hop) * abs(dx)),
        "units": (m * abs(dx) * quant if quant is not None else None, (m - hop) * abs(dx) * quant if quant is not None else None),
        "percent": (m * abs(dx), (100 * (m - hop) / m) * percent),
    }[how]
    if how in ("plain", "percent") and p.get_array(dim).dtype.kind in "iu" and abs(dx) * m != round(abs(dx) * m):
        ctx.skip("fractional")
    if over is not None and hop == m and gen.chance(rng, 0.5):
        over = None
    if not np.any(window) or (len(window) < m and p.ndim > 2):  # SciPy can't pad these
        ctx.skip("window")
    ctx.note(patch=gen.describe(p), dim=dim, m=m, hop=hop, taper=str(name), how=how, detrend=detrend)
    s = p.stft(taper_window=taper, overlap=over, samples=how == "samples", detrend=detrend, **{dim: length})
    ft = f"ft_{dim}"
    ctx.check(s.dims == tuple(ft if d == dim else d for d in p.dims) + (dim,), "stft-dims", lambda: f"{p.dims} -> {s.dims}")
    freqs, times = np.asarray(s.get_array(ft)), s.get_array(dim)
    half = not np.iscomplexobj(p.data)
    index = np.arange(m // 2 + 1) if half else np.arange(m) - m // 2
    ctx.check(np.allclose(freqs, index / (m * dx), rtol=1e-9, atol=1e-9 / abs(dx)), "stft-freqs", lambda: f"{freqs} want {index / (m * dx)}")
    unit = quant
    ctx.check(unit_equal(s.get_coord(ft).units, None if unit is None else 1 / unit), "stft-freq-units", lambda: str(s.get_coord(ft).units))
    # labels of windows relative to the first sample, in samples
    first = p.get_array(dim)[0]
    rel = (times - first).astype("timedelta64[ns]").astype(np.int64) / 1e9 if p.get_array(dim).dtype.kind in "mM" else np.asarray(times, dtype=float) - float(first)
    centre = rel / dx
    pos = np.round(centre).astype(int)
    ctx.check(np.allclose(centre, pos, atol=1e-3), "stft-times-off-sample", lambda: f"{centre}")
    ctx.check(len(pos) < 2 or (np.diff(pos) == hop).all(), "stft-hop", lambda: f"{pos} hop {hop}")
    ctx.check(0 in pos and pos.max() >= n - 1 - hop, "stft-extent", lambda: f"{pos} n {n}")
    rows = np.moveaxis(np.asarray(p.data), axis, -1).astype(np.complex128)
    got = np.moveaxis(s.data, axis, -2)
    mw = len(window)
    mid = mw // 2
    padded = np.concatenate([np.zeros(rows.shape[:-1] + (2 * m + hop,)), rows, np.zeros(rows.shape[:-1] + (2 * m + hop,))], axis=-1)
    off = 2 * m + hop
    scale = float(np.abs(rows).max()) * mw * abs(dx) * max(1.0, float(np.abs(window).max()))
    judged = 0
    for num, c in enumerate(pos):
        lo = c - mid
        if detrend and (lo < 0 or lo + mw > n):
            continue
        if lo + off < 0 or lo + off + mw > padded.shape[-1]:
            continue
        seg = padded[..., lo + off: lo + off + mw]
        if detrend:
            seg = signal.detrend(seg.real, axis=-1) + 1j * signal.detrend(seg.imag, axis=-1)
        kernel = np.exp(-2j * np.pi * np.outer(freqs, (np.arange(mw) - mid) * dx)) * dx
        want = np.tensordot(seg * window, kernel, axes=([-1], [1]))
        judged += 1
        ctx.check(np.allclose(got[..., num], want, rtol=0, atol=max(tol(p.data.dtype), 1e-9) * max(scale, 1e-300)), "stft-values",
                  lambda: f"window {num} at sample {c}: {np.abs(got[..., num] - want).max()} of {scale}")
    ctx.count("windows", judged)
    du = get_quantity(p.attrs.data_units)
    ctx.check(unit_equal(s.attrs.data_units, None if du is None else units_product(p, [dim], du)), "stft-units", lambda: f"{du} -> {s.attrs.data_units}")
    ctx.check(not (why := attrs_problem(p, s, ("data_units", "data_type"))), "stft-attrs", lambda: why)
    if detrend:
        ctx.raises(lambda: s.istft(), "istft-detrended")
    else:
        sft = signal.ShortTimeFFT(win=window, hop=hop, fs=1 / abs(dx), mfft=m, fft_mode="onesided" if half else "centered")
        if not sft.invertible:
            ctx.raises(lambda: s.istft(), "istft-impossible")
        else:
            b = s.istft()
            cond = float(np.abs(sft.dual_win).max()) * mw
            ctx.check(b.dims == p.dims, "istft-dims", lambda: f"{p.dims} {b.dims}")
            ctx.check(matches(b.data, p.data, rtol=max(tol(p.data.dtype), 1e-10) * max(1.0, cond), scale=float(np.abs(rows).max())), "istft-values",
                      lambda: f"{b.shape} {np.abs(np.asarray(b.data) - p.data).max()} cond {cond}")
            attached = [x for x, cd in p.coords.dim_map.items() if dim in cd and x != dim]
            ctx.check(not (why := coords_problem(p, b, skip=attached)), "istft-coords", lambda: why)
            ctx.check(not (why := attrs_problem(p, b, ("data_units",))), "istft-attrs", lambda: why)
            ctx.check(unit_equal(p.attrs.data_units, b.attrs.data_units), "istft-units", lambda: f"{p.attrs.data_units} -> {b.attrs.data_units}")
            ctx.count("istft")
    ctx.cover("stft", name if isinstance(name, str) else name[0], how, detrend, half, hop == m, m % 2, info[dim][:2], p.data.dtype, p.dims.index(dim), len(p.dims))


ANY = ("even", "even", "even-desc", "mono", "mono-desc")
REAL = ("float64", "float64", "float32", "int16", "uint8", "int64", "complex128", "int8")


def trapezoid(data, off):
    """The cumulative trapezoidal integral along the last axis."""
    data = data.astype(np.complex128 if np.iscomplexobj(data) else np.float64)
    steps = np.diff(off) * (data[..., 1:] + data[..., :-1]) / 2
    return np.concatenate([np.zeros(data.shape[:-1] + (1,), dtype=data.dtype), np.cumsum(steps, axis=-1)], axis=-1)


def labels_and_offsets(p, dim):
    return offsets(p.get_array(dim))


@family("P15", "integrate", 600)
def f_integrate(rng, ctx):
    """Trapezoids on the actual spacing; definite ones from the smallest to the largest label."""
    p, info = make(rng, ctx, kinds=ANY, dtypes=REAL, sizes=(1, 9))
    dims = [str(x) for x in rng.permutation(list(p.dims))[: int(rng.integers(1, len(p.dims) + 1))]]
    arg = None if set(dims) == set(p.dims) and gen.chance(rng, 0.5) else dims[0] if len(dims) == 1 else tuple(dims)
    definite = gen.chance(rng, 0.5)
    ctx.note(dims=arg, definite=definite)
    o = p.integrate(arg, definite=definite)
    want = np.asarray(p.data)
    for dim in dims:
        axis = p.dims.index(dim)
        off = labels_and_offsets(p, dim)
        want = np.moveaxis(trapezoid(np.moveaxis(want, axis, -1), off), -1, axis)
        if definite:
            sign = -1 if len(off) > 1 and off[-1] < off[0] else 1
            want = sign * np.take(want, [-1], axis=axis)
    scale = float(np.abs(p.data.astype(complex)).max()) * np.prod([max(np.ptp(labels_and_offsets(p, d)), 1e-300) for d in dims])
    ctx.check(o.dims == p.dims and matches(o.data, want, rtol=max(tol(p.data.dtype), 1e-10), scale=scale), "integrate-values",
              lambda: f"{o.data.shape} {want.shape} {o.data.ravel()[:4]} want {want.ravel()[:4]}")
    du = get_quantity(p.attrs.data_units)
    ctx.check(unit_equal(o.attrs.data_units, None if du is None else units_product(p, dims, du)), "integrate-units", lambda: f"{du} -> {o.attrs.data_units}")
    ctx.check(not (why := attrs_problem(p, o, ("data_units", "data_type"))), "integrate-attrs", lambda: why)
    if not definite:
        ctx.check(not (why := coords_problem(p, o)), "integrate-coords", lambda: why)
    else:
        for dim in dims:
            vals, coord = p.get_array(dim), o.get_coord(dim)
            got = np.asarray(coord.values)
            mean = vals[0] + np.timedelta64(round(float(((vals - vals[0]).astype("timedelta64[ns]").astype(np.int64)).mean())), "ns") if vals.dtype.kind in "mM" else vals.mean()
            gap = abs((got[0] - mean) / np.timedelta64(1, "ns")) if vals.dtype.kind in "mM" else abs(float(got[0]) - float(mean))
            limit = 1 if vals.dtype.kind in "mMiu" else 1e-9 * max(1.0, float(np.abs(vals).max()))
            ctx.check(got.shape == (1,) and gap <= limit, "integrate-label", lambda: f"{dim}: {got} mean {mean}")
            ctx.check(mon.quant_same(coord.units, p.get_coord(dim).units), "integrate-label-units", lambda: f"{dim}: {coord.units}")
            for key, val in (("min", vals.min()), ("max", vals.max())):
                extra = o.get_array(f"pre_integrate_{dim}_{key}")
                ctx.check(extra.shape == (1,) and extra[0] == val, "integrate-limits", lambda: f"{dim} {key} {extra} {val}")
        attached = [n for n, cd in p.coords.dim_map.items() if set(cd) & set(dims)]
        extra = [n for n in o.coords.coord_map if n.startswith("pre_integrate")]
        ctx.check(not (why := coords_problem(p, o, skip=[*attached, *extra])), "integrate-other-coords", lambda: why)
    ctx.cover("integrate", definite, len(dims), p.data.dtype, *[info[d][:2] for d in dims][:2])


def lagrange(data, off, order):
    """The derivative of the parabola through three (neighbouring) points, along the last axis."""
    data = data.astype(np.complex128 if np.iscomplexobj(data) else np.float64)
    out = np.empty_like(data)
    n = len(off)
    for i in range(n):
        j = min(max(i - 1, 0), n - 3)
        x0, x1, x2 = off[j: j + 3]
        x = off[i]
        w0 = ((x - x1) + (x - x2)) / ((x0 - x1) * (x0 - x2))
        w1 = ((x - x0) + (x - x2)) / ((x1 - x0) * (x1 - x2))
        w2 = ((x - x0) + (x - x1)) / ((x2 - x0) * (x2 - x1))
        out[..., i] = w0 * data[..., j] + w1 * data[..., j + 1] + w2 * data[..., j + 2]
    return out


@family("P15", "differentiate", 600)
def f_differentiate(rng, ctx):
    """Second order differences on the actual spacing; higher orders exact for polynomials."""
    p, info = make(rng, ctx, kinds=ANY, dtypes=REAL, sizes=(9, 16), ndim=gen.pick(rng, [1, 2, 2]))
    dims = [str(x) for x in rng.permutation(list(p.dims))[: int(rng.integers(1, len(p.dims) + 1))]]
    step = gen.pick(rng, [1, 1, 2, 3]) if len(dims) == 1 else 1
    order = gen.pick(rng, [2, 2, 2, 4, 6])
    arg = None if set(dims) == set(p.dims) and gen.chance(rng, 0.5) else dims[0] if len(dims) == 1 else tuple(dims)
    if order > 2:
        # a polynomial which the stencil of this accuracy differentiates exactly
        step = 1
        dims, arg = dims[:1], dims[0]
        axis = p.dims.index(dims[0])
        off = offsets(p.get_array(dims[0]))
        x = off / np.abs(off).max()
        coef = rng.uniform(-1, 1, order + 1)
        shape = [1] * p.ndim
        shape[axis] = -1
        data = np.broadcast_to(np.polynomial.Polynomial(coef)(x).reshape(shape), p.shape).copy()
        p = p.new(data=gen.layout(rng, data))
        want = np.broadcast_to((np.polynomial.Polynomial(coef).deriv()(x) / np.abs(off).max()).reshape(shape), p.shape)
        rtol = 1e-6
    else:
        want = np.asarray(p.data)
        for dim in dims:
            axis = p.dims.index(dim)
            off = offsets(p.get_array(dim))
            moved = np.moveaxis(want, axis, -1)
            out = np.empty(moved.shape, dtype=np.complex128 if np.iscomplexobj(moved) else np.float64)
            for k in range(step):
                out[..., k::step] = lagrange(moved[..., k::step], off[k::step], 2)
            want = np.moveaxis(out, -1, axis)
        rtol = max(tol(p.data.dtype), 1e-9)
    ctx.note(dims=arg, order=order, step=step)
    o = p.differentiate(arg, order=order, step=step)
    gap = np.prod([1 / np.abs(np.diff(offsets(p.get_array(d)))).min() for d in dims])
    scale = float(np.abs(p.data.astype(complex)).max()) * gap * 4 ** len(dims)
    ctx.check(o.dims == p.dims and matches(o.data, want, rtol=rtol, scale=scale), "differentiate-values", lambda: f"{o.data.ravel()[:5]} want {want.ravel()[:5]}")
    du = get_quantity(p.attrs.data_units)
    ctx.check(unit_equal(o.attrs.data_units, None if du is None else du / units_product(p, dims, 1)), "differentiate-units", lambda: f"{du} -> {o.attrs.data_units}")
    ctx.check(not (why := attrs_problem(p, o, ("data_units", "data_type"))), "differentiate-attrs", lambda: why)
    ctx.check(not (why := coords_problem(p, o)), "differentiate-coords", lambda: why)
    ctx.cover("differentiate", order, step, len(dims), p.data.dtype, *[info[d][:2] for d in dims][:2])


@family("P15", "undo", 300)
def f_undo(rng, ctx):
    """Where the rules are exact, integration and differentiation undo one another."""
    p, info = make(rng, ctx, kinds=ANY, dtypes=("float64",), sizes=(4, 12))
    dim = gen.pick(rng, p.dims)
    axis = p.dims.index(dim)
    off = offsets(p.get_array(dim))
    x = off / np.abs(off).max()
    shape = [1] * p.ndim
    shape[axis] = -1
    others = [1 if i == axis else s for i, s in enumerate(p.shape)]
    # lines are integrated, and parabolas differentiated, exactly
    line = (rng.uniform(-2, 2, others) + rng.uniform(-2, 2, others) * x.reshape(shape))
    q = p.new(data=gen.layout(rng, np.broadcast_to(line, p.shape).copy()))
    back = q.integrate(dim).differentiate(dim)
    ctx.check(matches(back.data, q.data, rtol=1e-7, scale=4 * len(off)), "differentiate-integral", lambda: f"{dim}: {np.abs(back.data - q.data).max()}")
    # dimensionless units are not stored, so they can't be undone
    if q.attrs.data_units is None or has_units(q.integrate(dim).attrs.data_units) is not None:
        ctx.check(unit_equal(back.attrs.data_units, q.attrs.data_units), "undo-units", lambda: f"{q.attrs.data_units} {back.attrs.data_units}")
    ctx.check(not (why := coords_problem(q, back)), "undo-coords", lambda: why)
    parab = q.new(data=q.data * x.reshape(shape))
    there = parab.differentiate(dim).integrate(dim)
    start = np.take(parab.data, [0], axis=axis)
    ctx.check(matches(there.data, parab.data - start, rtol=1e-7, scale=4 * len(off)), "integrate-derivative", lambda: f"{dim}: {np.abs(there.data - parab.data + start).max()}")
    # the definite integral is the last of the cumulative one
    cum, total = q.integrate(dim), q.integrate(dim, definite=True)
    sign = -1 if off[-1] < 0 else 1
    ctx.check(matches(total.data, sign * np.take(cum.data, [-1], axis=axis), rtol=1e-9), "definite-cumulative", lambda: f"{total.data} {cum.data}")
    # derivatives by way of frequencies: multiply by 2 pi i f
    ctx.cover("undo", info[dim][:2], len(p.dims), axis)


def same_labels(got, want):
    """Labels of an axis which isn't transformed (it is rebuilt from its values, so floats may round)."""
    if got.shape != want.shape:
        return False
    if want.dtype.kind == "f":
        return bool(np.allclose(got, want, rtol=1e-9, atol=1e-9 * float(np.nanmax(np.abs(want), initial=0)), equal_nan=True))
    return bool(np.array_equal(got, want)) if want.dtype.kind not in "mM" else bool((np.abs((got - want).astype(np.int64)) <= 1).all())


@family("P15", "deprecated", 250)
def f_deprecated(rng, ctx):
    """The deprecated rfft and spectrogram: NumPy's and SciPy's along the named dimension, with its labels and units."""
    names = tuple(gen.DIM_NAMES[i] for i in rng.permutation(len(gen.DIM_NAMES))[: int(rng.integers(1, 4))])
    dim = gen.pick(rng, names)
    dtype = gen.pick(rng, ["float", "time", "delta"] if dim == "time" else ["float"])
    shape = tuple(int(rng.integers(12, 40)) if d == dim else int(rng.integers(1, 4)) for d in names)
    p, _ = gen.patch(rng, names=names, shape=shape, kinds=("even",), data="smooth", data_dtypes=("float64", "float32"), dim_dtypes={dim: (dtype,)})
    axis, n = p.dims.index(dim), p.shape[p.dims.index(dim)]
    if n < 12:
        ctx.skip("short")
    coord, dx = p.get_coord(dim), dx_of(p, dim)
    quant = get_quantity(coord.units) if coord.units is not None else None
    func = gen.pick(rng, ["rfft", "spectrogram"])
    tol = 2e-5 if p.data.dtype == np.float32 else 1e-9
    ctx.note(function=func, dim=dim, patch=gen.describe(p))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if func == "rfft":
            out = p.rfft(dim)
            want = np.fft.rfft(p.data, axis=axis)
            freqs = np.fft.rfftfreq(n, dx)
            dims = tuple(f"ft_{d}" if d == dim else d for d in p.dims)
        else:
            m = int(rng.integers(4, n // 2 + 1))
            kw = {"nperseg": m, "noverlap": int(rng.integers(0, m))}
            out = p.spectrogram(dim, **kw)
            freqs, times, want = signal.spectrogram(p.data, fs=1 / dx, axis=axis, **kw)
            dims = (*(f"ft_{d}" if d == dim else d for d in p.dims), dim)
    ctx.check(out.dims == dims and out.shape == want.shape, "deprecated-dims", lambda: f"{func} along {dim} of {p.dims}: {out.dims} {out.shape}, expected {dims} {want.shape}")
    scale = max(float(np.abs(want).max()), 1e-300)
    ctx.check(np.allclose(out.data, want, rtol=tol, atol=tol * scale), "deprecated-values", lambda: f"{func} along {dim} differs from the reference")
    ctx.check(np.allclose(out.get_array(f"ft_{dim}"), freqs, rtol=1e-6, atol=1e-9 / abs(dx)), "deprecated-labels", lambda: f"{func}: {out.get_array(f'ft_{dim}')[:4]}, expected {freqs[:4]}")
    got = out.get_coord(f"ft_{dim}").units
    expected = 1 / quant if quant is not None else None
    ctx.check(unit_equal(got, expected), "deprecated-units", lambda: f"{func}: frequencies in {got}, expected {expected}")
    for other in p.dims:
        if other != dim:
            ctx.check(same_labels(out.get_array(other), p.get_array(other)), "deprecated-others", lambda: f"{func}: {other} changed")
    if func == "spectrogram":
        first = p.get_array(dim)[0]
        offs = np.asarray(dc.to_float(out.get_array(dim) - first) if p.get_array(dim).dtype.kind in "mM" else out.get_array(dim) - first)
        ctx.check(np.allclose(offs, times, rtol=1e-6, atol=2e-9 + 2e-3 * abs(dx)), "deprecated-labels", lambda: f"{func}: windows at {offs[:4]}, expected {times[:4]}")
        ctx.check(unit_equal(out.get_coord(dim).units, coord.units), "deprecated-units", lambda: f"{func}: {dim} in {out.get_coord(dim).units}, expected {coord.units}")
    ctx.cover(func, dtype, p.ndim, axis, bool(quant))
