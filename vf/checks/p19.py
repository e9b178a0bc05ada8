"""P19: localised edits change only the region they designate."""
from __future__ import annotations

import numpy as np
from scipy import ndimage
from scipy.signal import windows

from dascore.exceptions import ParameterError
from dascore.units import get_quantity, percent
from vf import gen, mon
from vf.core import describe, family
from vf.ref import attrs_problem, by_name, coords_problem, offsets, transposed

describe(
    "P19",
    "Random patches (1-3 dimensions in any order, layout and direction; float, integer, time and duration coordinates; float, integer and complex data with special "
    "values) are tapered, range-tapered, muted between lines and slopes, masked by arrays and other patches, filled and stripped of nulls, with regions given as "
    "fractions, percentages, labels, offsets from either end, samples, or quantities of any unit. Monitors derive the region from the labels alone: "
    "values outside are compared bit for bit, values inside with the rule, inverted requests must be the complement, and the order of dimensions and arguments must not matter. "
    "Non-trivial: distinct by (operation, options, argument form, coordinate kind, data type, size of the region).",
    [
        "samples within rounding of the boundary of a region are not judged",
        "muting and range tapers multiply, so nulls inside the region are not generated for them",
        "the last of four range taper values is the first label which is zero",
        "wedges wider than a right angle are not judged",
    ],
)

DTYPES = {d: ("float", "float", "time", "delta") if d == "time" else ("float", "float", "float", "int") for d in gen.DIM_NAMES}
WINDOWS = {"hann": windows.hann, "cos": windows.hann, "triang": windows.triang, "ramp": windows.triang, "boxcar": windows.boxcar, "hamming": windows.hamming,
           "blackman": windows.blackman, "bartlett": windows.bartlett, "parzen": windows.parzen, "nuttall": windows.nuttall}


def make(rng, ctx, n=(10, 30), other=(1, 4), kinds=("even", "even", "even-desc"), data=("float64", "float64", "float32", "int16", "complex128"), ndim=None, need=1, dtypes=DTYPES, units=0.6):
    ndim = max(ndim or gen.pick(rng, [1, 2, 2, 3]), need)
    names = [str(x) for x in rng.permutation(gen.DIM_NAMES)[:ndim]]
    shape = tuple(int(rng.integers(*n)) for _ in range(need)) + tuple(int(rng.integers(*other)) for _ in names[need:])
    p, info = gen.patch(rng, names=names, shape=shape, data_dtypes=("float64",), data="smooth", kinds=kinds, dim_dtypes=dtypes)
    dims = sorted(p.dims, key=lambda d: -p.shape[p.dims.index(d)])[:need]
    dims = [str(x) for x in rng.permutation(dims)]
    dtype = np.dtype(gen.pick(rng, data))
    if dtype.kind in "iu":
        values = rng.integers(-500, 500, p.shape).astype(dtype)
    else:
        values = rng.standard_normal(p.shape) * 10 + 3
        values = (values + 1j * rng.standard_normal(p.shape) if dtype.kind == "c" else values).astype(dtype)
    p = p.new(data=gen.layout(rng, values))
    for d in p.dims:
        if gen.chance(rng, units) and p.get_array(d).dtype.kind not in "mM":
            p = p.set_units(**{d: gen.pick(rng, ["m", "ft", "s", "ms"])})
    ctx.note(patch=gen.describe(p), dims=dims)
    return p, dims, info


def untouched(ctx, p, o, mech):
    ctx.check(o.dims == p.dims, f"{mech}-dims", lambda: f"{p.dims} -> {o.dims}")
    ctx.check(not (why := coords_problem(p, o)), f"{mech}-coords", lambda: why)
    ctx.check(not (why2 := attrs_problem(p, o)), f"{mech}-attrs", lambda: why2)


def judge(ctx, p, o, env, mech, sure=None):
    """Compare with data * env: exactly where env is one, and closely elsewhere."""
    data = np.asarray(p.data)
    got = np.asarray(o.data)
    env = np.broadcast_to(env, data.shape)
    sure = np.ones(data.shape, bool) if sure is None else np.broadcast_to(sure, data.shape)
    if not ctx.check(got.shape == data.shape, f"{mech}-shape", lambda: f"{data.shape} -> {got.shape}"):
        return
    same = sure & (env == 1)
    ctx.check(np.array_equal(got[same], data[same]), f"{mech}-outside", lambda: f"{np.argwhere(same & (got != data))[:4].tolist()} of {data.shape}: {got[same & (got != data)][:4]} expected {data[same & (got != data)][:4]}")
    part = sure & (env != 1)
    want = data * env
    tol = 1e-5 if data.dtype.itemsize == 4 and data.dtype.kind == "f" else 1e-10
    bad = part & ~(np.abs(got - want) <= tol * (np.abs(data) + 1e-30) + (0 if data.dtype.kind != "i" else 1e-9))
    ctx.check(not bad.any(), f"{mech}-inside", lambda: f"{np.argwhere(bad)[:4].tolist()} of {data.shape}: {got[bad][:4]} expected {want[bad][:4]}")


def along_axis(p, dim, env):
    shape = [1] * p.ndim
    shape[p.dims.index(dim)] = len(env)
    return np.reshape(env, shape)


def up(values):
    """Offsets of labels from the smallest."""
    values = np.asarray(values)
    if values.dtype.kind in "mM":
        return (values - values.min()).astype("timedelta64[ns]").astype(np.int64) / 1e9
    return values.astype(float) - float(values.min())


def express_length(rng, p, dim, length, forms):
    """A length along a dimension in some form."""
    coord = p.get_coord(dim)
    time = coord.dtype.kind in "mM"
    form = gen.pick(rng, forms)
    total = float(up(coord.values).max())
    if form == "fraction":
        return form, length / total
    if form == "percent":
        return form, 100 * length / total * percent
    if form == "delta":
        return form, np.timedelta64(int(length * 1e9), "ns")
    unit = get_quantity("s" if time else coord.units)
    out = length * unit
    if form == "other":
        out = out.to("ms" if out.is_compatible_with("s") else "cm")
    return form, out


def length_forms(p, dim):
    coord = p.get_coord(dim)
    return ["fraction", "percent"] + (["delta", "delta"] if coord.dtype.kind in "mM" else []) + (["quantity", "other"] if coord.units is not None else [])


@family("P19", "taper", 2000, 20000)
def f_taper(rng, ctx):
    p, (dim,), info = make(rng, ctx, kinds=("even", "even", "even-desc", "mono", "mono-desc"))
    axis = p.dims.index(dim)
    off = up(p.get_array(dim))
    n, total = len(off), off.max()
    if n < 10 or total <= 0:
        ctx.skip("short")
    name = gen.pick(rng, list(WINDOWS))
    func = WINDOWS[name]
    a, b = rng.uniform(0.02, 0.49, 2) * total
    how = gen.pick(rng, ["both", "pair", "pair", "start", "stop"])
    if how == "both":
        b = a
    # not next to a sample
    gap = float(np.diff(np.unique(off)).min())
    if gap < 1e-5 and p.get_array(dim).dtype.kind in "mM":
        ctx.skip("nanoseconds")
    if any(np.abs(off - v).min() < 1e-3 * gap for v in (a, total - b)):
        ctx.skip("boundary")
    forms = length_forms(p, dim)
    form, va = express_length(rng, p, dim, a, forms)
    form2, vb = express_length(rng, p, dim, b, forms)
    if how == "both":
        arg = va
    else:
        arg = gen.pick(rng, [tuple, list])([None if how == "stop" else va, None if how == "start" else vb])
    ctx.note(arg=arg, window=name, a=a, b=b, how=how)
    kwargs = {} if name == "hann" and gen.chance(rng, 0.5) else {"window_type": name}

    def run(x):
        return x.taper(**{dim: arg}, **kwargs)

    o = run(p)
    order = np.argsort(off)
    env = np.ones(n)
    if how != "stop":
        k = int((off <= a).sum())
        env[:k] *= func(2 * k)[:k]
    if how != "start":
        k = int((off >= total - b).sum())
        env[n - k:] *= func(2 * k)[k:]
    full = np.ones(n)
    full[order] = env
    judge(ctx, p, o, along_axis(p, dim, full), "taper")
    untouched(ctx, p, o, "taper")
    q = run(transposed(rng, p))
    ctx.check(mon.same(by_name(q, o.dims), np.asarray(o.data)), "taper-dim-order", lambda: "")
    ctx.cover("taper", how, form, name, info[dim][:2], p.data.dtype.name, axis)


@family("P19", "taper_refused", 200)
def f_taper_refused(rng, ctx):
    p, (dim,), info = make(rng, ctx, kinds=("even", "even-desc"))
    case = gen.pick(rng, ["overlap", "long", "window", "three", "unordered", "open-two"])
    n = p.shape[p.dims.index(dim)]
    if n < 10:
        ctx.skip("short")
    ctx.note(case=case)
    calls = {
        "overlap": lambda: p.taper(**{dim: 0.7}),
        "long": lambda: p.taper(**{dim: (1.2, None)}),
        "window": lambda: p.taper(window_type="bob", **{dim: 0.1}),
        "three": lambda: p.taper(**{dim: (0.1, 0.1, 0.1)}),
        "unordered": lambda: p.taper_range(**{dim: (3, 6, 1, 8)}, samples=True),
        "open-two": lambda: p.taper_range(**{dim: (3, None)}, samples=True),
    }
    ctx.raises(calls[case], f"refused-{case}", ParameterError)
    ctx.cover(case, p.ndim)


def bound_forms(p, dim):
    coord = p.get_coord(dim)
    forms = ["samples", "absolute", "absolute", "relative", "negative"]
    if coord.units is not None and coord.dtype.kind not in "mM":
        forms += ["quantity", "quantity"]
    return forms


def express_bounds(rng, p, dim, values, form):
    """Labels (offsets from the smallest) in some form, with keyword arguments."""
    coord = p.get_coord(dim)
    arr = np.asarray(coord.values)
    time = arr.dtype.kind in "mM"
    total = float(up(arr).max())

    def one(off):
        if off is None:
            return gen.pick(rng, [None, ...])
        if form == "negative" and 0 < off < total:
            return off - total
        if form in ("relative", "negative"):
            return off
        if time:
            return arr.min() + np.timedelta64(int(np.round(off * 1e9)), "ns")
        value = float(arr.min()) + off
        if form == "quantity":
            out = value * get_quantity(coord.units)
            return out.to("ms" if out.is_compatible_with("s") else "cm") if gen.chance(rng, 0.5) else out
        return value

    return [one(x) for x in values], form in ("relative", "negative")


@family("P19", "taper_range", 2000, 20000)
def f_range(rng, ctx):
    p, (dim,), info = make(rng, ctx, n=(12, 40), kinds=("even", "even", "even-desc", "mono", "mono-desc"))
    axis = p.dims.index(dim)
    arr = np.asarray(p.get_array(dim))
    n = len(arr)
    if n < 12:
        ctx.skip("short")
    desc = arr[0] > arr[-1]
    asc = np.sort(up(arr))
    name = gen.pick(rng, list(WINDOWS))
    func = WINDOWS[name]
    count = gen.pick(rng, [2, 4, 4, 8])
    inds = np.sort(rng.choice(np.arange(1, n - 1), count, replace=count < 8 and gen.chance(rng, 0.3)))
    form = gen.pick(rng, bound_forms(p, dim))
    frac = np.zeros(count) if gen.chance(rng, 0.4) else rng.uniform(0.1, 0.9, count)
    # positions in ascending order: the next sample is designated
    pos = [float(asc[i]) - float(f) * (asc[i] - asc[i - 1]) for i, f in zip(inds, frac)]
    if arr.dtype.kind not in "mM" and not frac.any() and form != "samples":
        # rounding decides labels which are on samples
        pos = [x - 1e-4 * float(np.diff(asc).min()) for x in pos]
    pos = sorted(pos)
    open_left = count == 4 and gen.chance(rng, 0.2)
    open_right = count == 4 and gen.chance(rng, 0.2)
    kwargs = {}
    index = list(inds)
    if form == "samples":
        vals = [int(i) for i in inds]
        kwargs["samples"] = True
        if gen.chance(rng, 0.3):
            vals = [v - n if gen.chance(rng, 0.5) else v for v in vals]
    else:
        vals, rel = express_bounds(rng, p, dim, pos, form)
        if rel:
            kwargs["relative"] = True
    if open_left:
        vals[0], index[0] = gen.pick(rng, [None, ...]), 0
    if open_right:
        vals[-1], index[-1] = gen.pick(rng, [None, ...]), n - 1
    groups = [index] if count < 8 else [index[:4], index[4:]]
    arg = gen.pick(rng, [tuple, list])(vals) if count < 8 else (tuple(vals[:4]), tuple(vals[4:]))
    invert = gen.chance(rng, 0.4)
    if invert:
        kwargs["invert"] = True
    if name != "hann":
        kwargs["window_type"] = name
    ctx.note(arg=arg, kwargs=kwargs, inds=index, n=n, first=arr[0], pos=pos)

    def run(x):
        return x.taper_range(**{dim: arg}, **kwargs)

    def ramp(func, x, down):
        """A taper over labels, drawn on an even grid of as many samples."""
        curve = func(2 * len(x) + 1)[:len(x)]
        curve = curve[::-1] if down else curve
        return np.interp(x, np.linspace(x[0], x[-1], len(x)), curve) if len(x) > 1 else curve

    o = run(p)
    env = np.zeros(n)
    x = up(arr)[::-1] if desc and form != "samples" else -up(arr) if desc else up(arr)
    for g in groups:
        i1, i2, i3, i4 = [0, *g, n] if len(g) == 2 else g
        env[i1:i2] += ramp(func, x[i1:i2], False)
        env[i2:i3] += 1
        env[i3:i4] += ramp(func, x[i3:i4], True)
    if desc and form != "samples":
        env = env[::-1]
    if invert:
        env = 1 - env
    judge(ctx, p, o, along_axis(p, dim, env), "range")
    untouched(ctx, p, o, "range")
    q = run(transposed(rng, p))
    ctx.check(mon.same(by_name(q, o.dims), np.asarray(o.data)), "range-dim-order", lambda: "")
    if gen.chance(rng, 0.3):
        other = p.taper_range(**{dim: arg}, **{**kwargs, "invert": not invert})
        total = np.asarray(o.data) + np.asarray(other.data)
        ctx.check(np.allclose(total, p.data, rtol=1e-5, atol=1e-9), "range-complement", lambda: "")
    ctx.cover("range", count, form, name, invert, info[dim][:2], (open_left, open_right), p.data.dtype.name)


def smooth_arg(rng, p, dims):
    """A smoothing parameter and the sigma (in samples) of each dimension."""
    kind = gen.pick(rng, [None, None, None, "int", "float", "dict", "quantity"])
    if kind is None:
        return None, None
    if kind == "int":
        v = int(rng.integers(0, 4))
        return v, {d: v for d in dims}
    if kind == "float":
        v = float(rng.uniform(0, 0.2))
        return v, {d: int(np.round(v * p.shape[p.dims.index(d)])) for d in dims}
    if kind == "quantity" and len(dims) == 1:
        coord = p.get_coord(dims[0])
        k = int(rng.integers(1, 4))
        step = abs(coord.step)
        if coord.dtype.kind in "mM":
            return step * k, {dims[0]: k}
        if coord.units is not None:
            return float(step) * k * get_quantity(coord.units), {dims[0]: k}
    sub = [str(x) for x in rng.permutation(dims)[:int(rng.integers(1, len(dims) + 1))]]
    out = {d: int(rng.integers(1, 4)) for d in sub}
    return dict(out), out


@family("P19", "line_mute_1d", 1200, 12000)
def f_mute1(rng, ctx):
    p, (dim,), info = make(rng, ctx, n=(10, 30), kinds=("even", "even", "even-desc", "mono", "mono-desc"))
    arr = np.asarray(p.get_array(dim))
    off = up(arr)
    total = off.max()
    n = len(arr)
    if n < 10:
        ctx.skip("short")
    a, b = np.sort(rng.uniform(0.05, 0.95, 2)) * total
    gap = float(np.diff(np.unique(off)).min())
    if gap < 1e-5 and arr.dtype.kind in "mM":
        ctx.skip("nanoseconds")
    if any(np.abs(off - v).min() < 1e-3 * gap for v in (a, b)):
        ctx.skip("boundary")
    form = gen.pick(rng, [x for x in bound_forms(p, dim) if x != "samples"])
    open_ = gen.pick(rng, [None, None, "left", "right"])
    vals, rel = express_bounds(rng, p, dim, [None if open_ == "left" else a, None if open_ == "right" else b], form)
    arg = gen.pick(rng, [tuple, list])(vals)
    invert = gen.chance(rng, 0.4)
    kwargs = {} if rel and gen.chance(rng, 0.5) else {"relative": rel}
    if invert:
        kwargs["invert"] = True
    smooth, sigma = smooth_arg(rng, p, [dim]) if info[dim][1].startswith("even") else (None, None)
    if smooth is not None:
        kwargs["smooth"] = smooth
    ctx.note(arg=arg, kwargs=kwargs, a=a, b=b)

    def run(x):
        return x.line_mute(**{dim: arg}, **kwargs)

    o = run(p)
    inside = (off >= (0 if open_ == "left" else a)) & (off <= (total if open_ == "right" else b))
    env = np.where(inside, 0.0, 1.0)
    env = 1 - env if invert else env
    if smooth is not None:
        env = ndimage.gaussian_filter(env, sigma=sigma[dim])
    judge(ctx, p, o, along_axis(p, dim, env), "mute")
    untouched(ctx, p, o, "mute")
    q = run(transposed(rng, p))
    ctx.check(mon.same(by_name(q, o.dims), np.asarray(o.data)), "mute-dim-order", lambda: "")
    ctx.cover("mute1", form, open_, invert, type(smooth).__name__, info[dim][:2], p.data.dtype.name)


def mesh(p, dims):
    """Offsets of each sample from the smallest labels of two dimensions, broadcastable to the data."""
    return [along_axis(p, d, up(p.get_array(d))) for d in dims]


def wedge(u, v, origin, d1, d2):
    """Inside the wedge between two directions from an origin; and which samples are clear."""
    du, dv = u - origin[0], v - origin[1]
    size = np.sqrt(du ** 2 + dv ** 2)
    size = np.where(size == 0, 1, size)
    c1 = (d1[0] * dv - d1[1] * du) / size
    c2 = (d2[0] * dv - d2[1] * du) / size
    dot1 = d1[0] * du + d1[1] * dv
    dot2 = d2[0] * du + d2[1] * dv
    inside = (c1 * c2 < 0) & (dot1 > 0) & (dot2 > 0)
    # on a line only matters next to the wedge
    clear = (np.abs(c1) > 1e-6) & (np.abs(c2) > 1e-6) & (np.sqrt(du ** 2 + dv ** 2) > 1e-6)
    return inside, clear


@family("P19", "line_mute_2d", 1500, 15000)
def f_mute2(rng, ctx):
    p, dims, info = make(rng, ctx, n=(6, 16), need=2, units=0.3)
    if any(p.shape[p.dims.index(d)] < 6 for d in dims):
        ctx.skip("short")
    offs = [up(p.get_array(d)) for d in dims]
    ranges = [o.max() * len(o) / (len(o) - 1) for o in offs]
    u, v = (m / r for m, r in zip(mesh(p, dims), ranges))
    case = gen.pick(rng, ["wedge", "wedge", "parallel", "implicit", "implicit-swapped", "strips"])
    invert = gen.chance(rng, 0.4)
    form = gen.pick(rng, ["relative", "absolute", "negative"])
    tot = [o.max() for o in offs]

    def val(i, x):
        """An offset (fraction of the range) of one dimension as an argument."""
        off = x * ranges[i]
        arr = np.asarray(p.get_array(dims[i]))
        if form == "negative" and 0 < off < tot[i]:
            return off - tot[i]
        if form in ("relative", "negative"):
            return off
        if arr.dtype.kind in "mM":
            return arr.min() + np.timedelta64(int(round(off * 1e9)), "ns")
        return float(arr.min()) + off

    if case == "wedge":
        origin = rng.uniform(0.0, 0.3, 2)
        ang = rng.uniform(0.05, np.pi / 2 - 0.05, 2)
        if abs(ang[0] - ang[1]) < 0.1:
            ctx.skip("thin")
        ends = [origin + 0.5 * np.array([np.cos(a), np.sin(a)]) for a in ang]
        args = [tuple([val(i, origin[i]), val(i, e[i])] for e in ends) for i in range(2)]
        inside, clear = wedge(u, v, origin, ends[0] - origin, ends[1] - origin)
    elif case == "parallel":
        a = rng.uniform(0.1, np.pi / 2 - 0.1)
        direction = np.array([np.cos(a), np.sin(a)])
        o1, o2 = rng.uniform(0, 0.8, 2), rng.uniform(0, 0.8, 2)
        s1, s2 = gen.pick(rng, [1, -1]), gen.pick(rng, [1, -1])
        if s1 < 0:
            o1 = o1 + 0.2 * direction
        if s2 < 0:
            o2 = o2 + 0.2 * direction
        pts = [(o1, o1 + 0.2 * s1 * direction), (o2, o2 + 0.2 * s2 * direction)]
        args = [tuple([val(i, a_[i]), val(i, b_[i])] for a_, b_ in pts) for i in range(2)]
        c1 = direction[0] * (v - o1[1]) - direction[1] * (u - o1[0])
        c2 = direction[0] * (v - o2[1]) - direction[1] * (u - o2[0])
        inside, clear = c1 * c2 < 0, (np.abs(c1) > 1e-6) & (np.abs(c2) > 1e-6)
        # nanoseconds of times decide whether the lines are parallel
        if any(np.asarray(p.get_array(d)).dtype.kind in "mM" and r < 1e-3 for d, r in zip(dims, ranges)):
            ctx.skip("rounded")
    elif case == "strips":
        k = int(rng.integers(0, 2))
        a, b = np.sort(rng.uniform(0.05, 0.9, 2))
        args = [None, None]
        args[k] = (val(k, a), val(k, b))
        args[1 - k] = (gen.pick(rng, [None, ...]), gen.pick(rng, [None, ...]))
        w = (u, v)[k]
        c1, c2 = w - a, w - b
        inside, clear = c1 * c2 < 0, (np.abs(c1) > 1e-6) & (np.abs(c2) > 1e-6)
        inside, clear = np.broadcast_to(inside, np.broadcast(u, v).shape), np.broadcast_to(clear, np.broadcast(u, v).shape)
    else:
        # a line, and a constant value of one dimension
        k = int(rng.integers(0, 2))
        const = rng.uniform(0.0, 0.3)
        start = np.zeros(2)
        start[k], start[1 - k] = const, rng.uniform(0.0, 0.3)
        a = rng.uniform(0.1, np.pi / 2 - 0.1)
        direction = np.array([np.cos(a), np.sin(a)])
        end = start + 0.5 * direction
        line = [[val(i, start[i]), val(i, end[i])] for i in range(2)]
        const_arg = val(k, const)
        args = [None, None]
        first = case == "implicit"
        args[k] = (const_arg, line[k]) if first else (line[k], const_arg)
        blank = gen.pick(rng, [None, ...])
        args[1 - k] = (blank, line[1 - k]) if first else (line[1 - k], blank)
        d2 = np.zeros(2)
        d2[1 - k] = 1.0
        inside, clear = wedge(u, v, start, direction, d2)
        # the origin is an intersection of lines, known to rounding only
    kwargs = {} if form in ("relative", "negative") and gen.chance(rng, 0.5) else {"relative": form != "absolute"}
    if invert:
        kwargs["invert"] = True
    smooth, sigma = smooth_arg(rng, p, dims)
    if smooth is not None:
        kwargs["smooth"] = smooth
    order = gen.pick(rng, [(0, 1), (1, 0)])
    request = {dims[i]: args[i] for i in order}
    ctx.note(request=request, kwargs=kwargs, case=case)

    def run(x, req=request):
        return x.line_mute(**req, **kwargs)

    o = run(p)
    env = np.where(inside, 0.0, 1.0)
    env = 1 - env if invert else env
    if not clear.all() and smooth is not None:
        ctx.skip("a sample is on the line")
    if smooth is not None:
        sig = [sigma.get(d, 0) if d in dims else 0 for d in p.dims]
        env = ndimage.gaussian_filter(env, sigma=sig)
    judge(ctx, p, o, env, "mute2", sure=clear)
    untouched(ctx, p, o, "mute2")
    if clear.all():
        q = run(transposed(rng, p))
        ctx.check(np.allclose(by_name(q, o.dims), np.asarray(o.data), rtol=1e-9, atol=1e-12), "mute2-dim-order", lambda: "")
        q = run(p, {d: request[d] for d in reversed(list(request))})
        ctx.check(np.allclose(q.data, o.data, rtol=1e-9, atol=1e-12), "mute2-argument-order", lambda: "")
    ctx.cover("mute2", case, form, invert, type(smooth).__name__, tuple(info[d][:2] for d in dims))


@family("P19", "slope_mute", 1000, 10000)
def f_slope(rng, ctx):
    p, dims, info = make(rng, ctx, n=(6, 16), need=2, units=0.3)
    if any(p.shape[p.dims.index(d)] < 6 for d in dims):
        ctx.skip("short")
    arrs = [np.asarray(p.get_array(d)) for d in dims]
    # distances from the first sample of each dimension
    lens = [np.abs(offsets(a)) for a in arrs]
    x, y = (along_axis(p, d, w) for d, w in zip(dims, lens))
    ratio = lens[0].max() / lens[1].max()
    s = ratio * rng.uniform(0.1, 4, 2)
    special = gen.pick(rng, [None, None, "zero", "inf"])
    if special:
        s[int(rng.integers(0, 2))] = 0.0 if special == "zero" else np.inf
    if s[0] == s[1] or (np.isfinite(s).all() and abs(s[0] - s[1]) < 1e-3 * ratio):
        ctx.skip("equal")
    arg = gen.pick(rng, [tuple, list, np.array])(s)
    invert = gen.chance(rng, 0.4)
    kwargs = {"dims": tuple(dims)}
    if invert:
        kwargs["invert"] = True
    ctx.note(slopes=arg, kwargs=kwargs)

    def run(z):
        return z.slope_mute(arg, **kwargs)

    o = run(p)
    lo, hi = np.sort(s)
    with np.errstate(divide="ignore", invalid="ignore"):
        slope = x / y
    inside = (slope > lo) & (slope < hi)
    clear = np.abs(np.arctan(slope / ratio) - np.arctan(lo / ratio)) > 1e-6
    clear &= np.abs(np.arctan(slope / ratio) - np.arctan(hi / ratio)) > 1e-6
    clear &= ~np.isnan(slope)
    env = np.where(inside, 0.0, 1.0)
    judge(ctx, p, o, 1 - env if invert else env, "slope", sure=clear)
    untouched(ctx, p, o, "slope")
    ctx.cover("slope", special, invert, tuple(info[d][:2] for d in dims), p.ndim)


@family("P19", "where", 1200, 12000)
def f_where(rng, ctx):
    p, info = gen.patch(rng, ndim=gen.pick(rng, [1, 2, 2, 3]), sizes=(1, 2, 3, 5))
    p = p.new(data=gen.layout(rng, rng.standard_normal(p.shape).astype(gen.pick(rng, ["float64", "float32"]))))
    if any(p.get_coord(d)._partial for d in p.dims):
        ctx.skip("partial")
    cond = rng.random(p.shape) < gen.pick(rng, [0.0, 0.3, 0.7, 1.0])
    how = gen.pick(rng, ["array", "patch", "patch", "lambda"])
    other_how = gen.pick(rng, ["none", "scalar", "array", "patch"])
    other = np.full(p.shape, np.nan)
    kwargs = {}
    if other_how == "scalar":
        value = float(rng.integers(-5, 5))
        other = np.full(p.shape, value)
        kwargs["other"] = value
    elif other_how in ("array", "patch"):
        other = rng.standard_normal(p.shape)
        kwargs["other"] = gen.layout(rng, other.copy()) if other_how == "array" else transposed(rng, p.new(data=other))
    c = cond.copy()
    dup = any(len(np.unique(np.asarray(p.get_array(d)))) < p.shape[p.dims.index(d)] for d in p.dims)
    if how == "patch":
        c = transposed(rng, p.new(data=cond))
    elif how == "lambda":
        cond = np.asarray(p.data) > 0
        c = p > 0
    if dup and (how != "array" or other_how == "patch"):
        ctx.skip("duplicate labels")
    ctx.note(patch=gen.describe(p), how=how, other=other_how)
    o = p.where(c, **kwargs)
    want = np.where(cond, p.data, other)
    ctx.check(np.array_equal(by_name(o, p.dims)[cond], np.asarray(p.data)[cond]), "where-outside", lambda: "")
    ctx.check(np.array_equal(by_name(o, p.dims), want, equal_nan=True), "where-inside", lambda: f"{o.data.ravel()[:4]} {want.ravel()[:4]}")
    untouched(ctx, p, o.transpose(*p.dims), "where")
    if how == "array":
        ctx.raises(lambda: p.where(np.ones(p.shape), 0), "where-not-boolean", ValueError)
    ctx.cover("where", how, other_how, p.ndim, float(cond.mean().round(1)))


def sprinkle(rng, p):
    """Data with nulls of every kind."""
    data = rng.standard_normal(p.shape).astype(gen.pick(rng, ["float64", "float64", "float32", "complex128"]))
    frac = gen.pick(rng, [0.0, 0.05, 0.3, 0.9])
    for bad in (np.nan, np.inf, -np.inf):
        data[rng.random(p.shape) < frac / gen.pick(rng, [1, 3])] = bad
    if gen.chance(rng, 0.3) and p.ndim:
        axis = int(rng.integers(0, p.ndim))
        sl = [slice(None)] * p.ndim
        sl[axis] = int(rng.integers(0, p.shape[axis]))
        data[tuple(sl)] = np.nan
    return data


@family("P19", "fillna", 1000, 10000)
def f_fill(rng, ctx):
    p, info = gen.patch(rng, ndim=gen.pick(rng, [1, 2, 3]), sizes=(1, 2, 3, 5))
    p = p.new(data=gen.layout(rng, sprinkle(rng, p)))
    value = gen.pick(rng, [0, 5, -1.5, np.float32(2)])
    inf = gen.pick(rng, [None, True, False])
    kwargs = {} if inf is None else {"include_inf": inf}
    ctx.note(patch=gen.describe(p), value=value, kwargs=kwargs)
    o = p.fillna(value, **kwargs)
    bad = np.isnan(p.data) if inf is False else ~np.isfinite(p.data)
    data, got = np.asarray(p.data), np.asarray(o.data)
    ctx.check(got.dtype == data.dtype and got.shape == data.shape, "fill-type", lambda: f"{data.dtype} {got.dtype}")
    ctx.check(np.ascontiguousarray(got[~bad]).tobytes() == np.ascontiguousarray(data[~bad]).tobytes(), "fill-outside", lambda: "")
    ctx.check(np.all(got[bad] == value), "fill-inside", lambda: str(got[bad][:4]))
    untouched(ctx, p, o, "fill")
    ctx.cover("fill", inf, bool(bad.any()), data.dtype.name, type(value).__name__)


@family("P19", "dropna", 1500, 15000)
def f_drop(rng, ctx):
    p, info = gen.patch(rng, ndim=gen.pick(rng, [1, 2, 2, 3]), sizes=(1, 2, 3, 5, 7))
    p = p.new(data=gen.layout(rng, sprinkle(rng, p)))
    dim = gen.pick(rng, p.dims)
    axis = p.dims.index(dim)
    how, inf = gen.pick(rng, [None, "any", "all"]), gen.pick(rng, [None, True, False])
    kwargs = {k: v for k, v in (("how", how), ("include_inf", inf)) if v is not None}
    ctx.note(patch=gen.describe(p), dim=dim, kwargs=kwargs)

    def run(x):
        return x.dropna(dim, **kwargs)

    o = run(p)
    bad = np.isnan(p.data) if inf is False else ~np.isfinite(p.data)
    rows = np.moveaxis(bad, axis, 0).reshape(p.shape[axis], -1)
    drop = rows.all(axis=1) if how == "all" else rows.any(axis=1)
    keep = np.flatnonzero(~drop)
    ctx.check(mon.same(np.asarray(o.data), np.take(p.data, keep, axis=axis)), "drop-values", lambda: f"{p.shape} -> {o.shape}, kept {keep}")
    ctx.check(o.dims == p.dims, "drop-dims", lambda: str(o.dims))
    ctx.check(not (why := attrs_problem(p, o)), "drop-attrs", lambda: why)
    for c, dd in p.coords.dim_map.items():
        if not ctx.check(c in o.coords.coord_map, "drop-lost-coord", lambda c=c: f"{c} {dd}"):
            continue
        if p.get_coord(c)._partial:
            continue
        want = np.asarray(p.get_array(c))
        want = np.take(want, keep, axis=dd.index(dim)) if dim in dd else want
        got = np.asarray(o.get_array(c))
        # contiguous parts of even coordinates are kept as ranges
        ok = mon.close(got, want) if got.dtype.kind == "f" else mon.same(got, want)
        ctx.check(ok and str(o.get_coord(c).units) == str(p.get_coord(c).units), "drop-coord", lambda c=c: f"{c}: {got} expected {want}")
    q = run(transposed(rng, p))
    ctx.check(mon.same(by_name(q, o.dims), np.asarray(o.data)), "drop-dim-order", lambda: "")
    ctx.cover("drop", how, inf, len(keep) == 0, len(keep) == len(drop), info[dim][:2], p.ndim)


@family("P19", "full", 200)
def f_full(rng, ctx):
    p, info = gen.patch(rng, ndim=gen.pick(rng, [1, 2, 3]), sizes=(1, 2, 3, 5))
    value = gen.pick(rng, [0, 1.5, True, np.nan, 3 + 1j])
    o = p.full(value)
    ctx.check(o.shape == p.shape and np.array_equal(o.data, np.full(p.shape, value), equal_nan=True), "full-values", lambda: str(o))
    ctx.check(o.dims == p.dims and not (why := coords_problem(p, o)), "full-coords", lambda: why)
    ctx.cover(str(value), p.ndim)
