"""P26: plots show the data at its own labels."""
from __future__ import annotations

import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.dates as mdates  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.collections import PathCollection, PolyCollection, QuadMesh  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402
from matplotlib.image import AxesImage  # noqa: E402

import dascore as dc  # noqa: E402
from dascore.units import get_quantity, get_quantity_str  # noqa: E402
from vf import gen, mon  # noqa: E402
from vf.core import describe, family  # noqa: E402

describe(
    "P26",
    "Patches with datetime, numeric, timedelta, reversed, irregular, gapped, length-1 and partly missing coordinates, wide integer, float, missing and constant data are plotted with random options, "
    "on new and given axes. Monitors look up, in the artists matplotlib got (image, mesh, lines, scatter) and for some in the rendered pixels, the value shown at each pair of labels and compare it "
    "with the patch; colour limits with the documented scale; gaps with masked bands; axis labels, units, tick labels and axis direction with the coordinates; colour bars with data type and units. "
    "The patch, other axes and global settings must be as before. Non-trivial: distinct by (plot, kind of both coordinates, data kind, options).",
    [
        "labels which are not monotonic or not finite are shown by index or by their extremes (documented), so only the image itself is judged",
        "dates are compared to a microsecond (matplotlib's resolution)",
    ],
)

KINDS = ("even", "even", "even_desc", "even_desc", "irregular", "irregular_desc", "gapped", "gapped_desc", "single", "partial", "unsorted")


def labels(rng, kind, dtype, n):
    """An array of labels of a kind."""
    if kind == "single":
        n = 1
    steps = np.ones(max(n - 1, 0))
    if kind.startswith(("irregular", "unsorted", "partial")):
        steps = rng.uniform(0.6, 1.3, max(n - 1, 0))
    elif kind.startswith("gapped"):
        spots = rng.choice(len(steps), size=min(len(steps), int(rng.integers(1, 3))), replace=False) if len(steps) else []
        for s in spots:
            steps[s] = rng.uniform(2.5, 9)
    x = np.concatenate([[0.0], np.cumsum(steps)])
    if kind.endswith("desc"):
        x = x[::-1]
    if kind == "unsorted":
        x = x[rng.permutation(n)]
    start, scale = float(np.round(rng.uniform(-50, 50), 2)), float(gen.pick(rng, [0.1, 0.5, 1, 5, 10]))
    if dtype == "float":
        out = start + x * scale
    elif dtype == "int":
        out = int(start) + np.round(x * 10).astype(np.int64)
    elif dtype == "delta":
        out = np.round(x * scale * 1e9).astype(np.int64).astype("m8[ns]")
    else:
        out = gen.BASE_TIME + np.round(x * scale * 1e9).astype(np.int64).astype("m8[ns]")
    if kind == "partial":
        out = out.astype(float) if dtype == "int" else out
        out[int(rng.integers(0, n))] = np.nan if out.dtype.kind == "f" else np.datetime64("NaT") if out.dtype.kind == "M" else np.timedelta64("NaT")
    return out


def make_data(rng, shape):
    kind = gen.pick(rng, ["float", "float", "int16", "int8", "uint8", "int64", "nan", "float32", "outliers", "constant", "nancol"])
    raw = rng.normal(0, 1, shape)
    if kind in ("int16", "int8", "uint8"):
        info = np.iinfo(kind)
        raw = rng.integers(info.min, info.max, shape, endpoint=True).astype(kind)
        if raw.size > 1:
            raw.flat[0], raw.flat[-1] = info.min, info.max
    elif kind == "int64":
        raw = rng.integers(-1000, 1000, shape)
    elif kind == "nan":
        raw[rng.random(shape) < 0.2] = np.nan
    elif kind == "nancol":
        raw[..., 0] = np.nan
    elif kind == "float32":
        raw = raw.astype("float32")
    elif kind == "outliers":
        raw.flat[0] = 1e6
    elif kind == "constant":
        raw[:] = 3.5
    return raw, kind


def make_patch(rng, ndim=2, kinds=KINDS):
    names = [str(x) for x in rng.permutation(["time", "distance", "depth"])[:ndim]]
    coords, kk, dts = {}, [], []
    for name in names:
        kind = gen.pick(rng, kinds)
        dtype = gen.pick(rng, ["time", "time", "delta"]) if name == "time" else gen.pick(rng, ["float", "float", "int"])
        arr = labels(rng, kind, dtype, int(rng.integers(3, 12)))
        units = {"time": "s"}.get(name, gen.pick(rng, ["m", "ft", None]))
        coords[name] = dc.get_coord(data=arr, units=units)
        kk.append(kind)
        dts.append(dtype)
    shape = tuple(len(coords[n]) for n in names)
    data, dkind = make_data(rng, shape)
    attrs = {}
    if gen.chance(rng, 0.5):
        attrs["data_type"] = gen.pick(rng, ["velocity", "strain_rate"])
    if gen.chance(rng, 0.5):
        attrs["data_units"] = gen.pick(rng, ["m/s", "1/s"])
    return dc.Patch(data=data, coords=coords, dims=names, attrs=attrs), kk, dts, dkind


def axis_values(arr):
    """Where matplotlib puts labels."""
    arr = np.asarray(arr)
    if arr.dtype.kind == "M":
        return mdates.date2num(arr)
    if arr.dtype.kind == "m":
        return arr / np.timedelta64(1, "s")
    return arr.astype(float)


def finite_monotonic(x):
    d = np.diff(x)
    return bool(np.all(np.isfinite(x)) and (np.all(d > 0) or np.all(d < 0) or len(x) == 1))


def shown_index(edges, x):
    """The cell of each x; edges may descend."""
    e = np.asarray(edges, float)
    if e[0] > e[-1]:
        return len(e) - 2 - shown_index(e[::-1], x)
    # labels may be at the very edge (the whole label is inside its own cell)
    return np.clip(np.searchsorted(e, x, side="right") - 1, 0, len(e) - 2)


def cells(artist):
    """(x edges, y edges, masked array [y, x]) of an image or a mesh."""
    if isinstance(artist, AxesImage):
        arr = artist.get_array()
        left, right, bottom, top = artist.get_extent()
        if artist.origin == "upper":
            bottom, top = top, bottom
        return np.linspace(left, right, arr.shape[1] + 1), np.linspace(bottom, top, arr.shape[0] + 1), np.ma.asarray(arr)
    c = artist.get_coordinates()
    return c[0, :, 0], c[:, 0, 1], np.ma.asarray(artist.get_array()).reshape(c.shape[0] - 1, c.shape[1] - 1)


def inside(edges, x, i):
    """Whether x is within cell i (allowing for rounding)."""
    lo, hi = np.minimum(edges[i], edges[i + 1]), np.maximum(edges[i], edges[i + 1])
    tol = 1e-6 * (abs(edges[-1] - edges[0]) or 1) + 3e-11 * np.max(np.abs(edges))
    return (x >= lo - tol) & (x <= hi + tol)


def holding(arr, data, xe, ye, x, y):
    """The rows and columns of cells which hold data (others are gaps)."""
    full = ~np.ma.getmaskarray(arr) | False
    cols = [i for i in range(arr.shape[1])]
    rows = [i for i in range(arr.shape[0])]
    if arr.shape != data.shape:
        want = np.isfinite(data)
        cols = [i for i in cols if full[:, i].any()] if want.any(axis=0).all() else None
        rows = [i for i in rows if full[i].any()] if want.any(axis=1).all() else None
        if cols is None or rows is None:
            # all-missing lines cannot be told from gaps; locate cells by the labels
            cols, rows = list(shown_index(xe, x)), list(shown_index(ye, y))
    return rows, cols


def check_mapping(ctx, what, artist, x, y, data):
    """Each value of data[y, x] is shown at its labels."""
    xe, ye, arr = cells(artist)
    rows, cols = holding(arr, data, xe, ye, x, y)
    ctx.check(len(cols) == len(x) and len(rows) == len(y), "cells-lost", lambda: f"{what}: {len(rows)}x{len(cols)} cells for {len(y)}x{len(x)} values")
    got = np.ma.filled(arr[np.ix_(rows, cols)].astype(float), np.nan)
    # which cell each label falls in
    ctx.check(np.all(inside(xe, x, np.asarray(cols))) or np.array_equal(np.asarray(cols)[::-1], shown_index(xe, x)), "label-outside-cell", lambda: f"{what}: x labels {x} cells {xe}")
    sx = [int(np.flatnonzero(np.asarray(cols) == c)[0]) if c in cols else None for c in nearest(xe, x, cols)]
    sy = [int(np.flatnonzero(np.asarray(rows) == r)[0]) if r in rows else None for r in nearest(ye, y, rows)]
    ctx.check(None not in sx and None not in sy, "label-in-gap", lambda: f"{what}: {sx} {sy}")
    shown = got[np.ix_(sy, sx)]
    same = (shown == data) | (np.isnan(shown) & np.isnan(data)) | np.isclose(shown, data, rtol=1e-6)
    ctx.check(np.all(same), "value-at-wrong-label", lambda: f"{what}: at labels x={x[:6]} y={y[:6]} shows {shown[:3, :3]}, data {data[:3, :3]}; cells x {xe[:4]}..{xe[-1]} y {ye[:4]}..{ye[-1]}")


def nearest(edges, x, cols):
    """The cell each label falls in; ties on an edge go to the label's own order."""
    cols = np.asarray(cols)
    out = []
    up = (edges[-1] > edges[0])
    ranks = np.argsort(np.argsort(x if up else -x))
    for i, v in enumerate(x):
        inn = [c for c in cols if inside(edges, v, c)]
        if len(inn) > 1:
            # on an edge: both cells touch it
            mine = cols[np.argsort(cols)][ranks[i]]
            inn = [mine] if mine in inn else inn
        out.append(inn[0] if inn else -1)
    return out


def check_pixels(ctx, what, ax, artist, x, y, data):
    """The rendered colour at the labels."""
    fig = ax.get_figure()
    fig.canvas.draw()
    buf = np.asarray(fig.canvas.buffer_rgba())
    xe, ye, arr = cells(artist)
    rows, cols = holding(arr, data, xe, ye, x, y)
    cmap, norm = artist.get_cmap(), artist.norm
    # centre of each label's cell
    sx = np.array([0.5 * (xe[c] + xe[c + 1]) for c in nearest(xe, x, cols)])
    sy = np.array([0.5 * (ye[c] + ye[c + 1]) for c in nearest(ye, y, rows)])
    bad = []

    def wide(edges, centre, axis):
        """True if the cell covers several pixels."""
        c = [k for k in range(len(edges) - 1) if inside(edges, centre, k)][0]
        ends = ax.transData.transform([(edges[c], edges[c]), (edges[c + 1], edges[c + 1])])
        return abs(ends[1][axis] - ends[0][axis]) >= 7  # frame and ticks are drawn over the outer cells

    for i in range(len(y)):
        for j in range(len(x)):
            if not np.isfinite(data[i, j]):
                continue
            px, py = ax.transData.transform((sx[j], sy[i]))
            if not (wide(xe, sx[j], 0) and wide(ye, sy[i], 1)):
                ctx.count("cells too thin to judge")
                continue
            rgb = buf[buf.shape[0] - 1 - int(py), int(px), :3].astype(int)
            want = np.round(np.array(cmap(norm(float(data[i, j])))[:3]) * 255).astype(int)
            if np.abs(rgb - want).max() > 6:
                bad.append((i, j, rgb.tolist(), want.tolist()))
    ctx.count("pixels compared", data.size)
    ctx.check(len(bad) == 0, "wrong-pixels", lambda: f"{what}: {len(bad)} of {data.size}: {bad[:4]}")


def want_label(p, dim):
    import string

    units = p.get_coord(dim).units
    text = string.capwords(dim)
    if np.asarray(p.get_array(dim)).dtype.kind == "M":
        return {text}
    return {text + (f" [{get_quantity_str(units)}]" if units else "")} | ({f"{text} [Hz]"} if units == get_quantity("1/s") else set())


def want_limits(data, scale, scale_type):
    """Documented colour limits; None if any will do."""
    d = np.asarray(data, float)
    if not np.isfinite(d).any():
        return None
    lo, hi = np.nanmin(d), np.nanmax(d)
    if scale is None:
        if scale_type == "absolute":
            return None
        q1, q3 = np.nanpercentile(d, [25, 75])
        return max(lo, q1 - 1.5 * (q3 - q1)), min(hi, q3 + 1.5 * (q3 - q1))
    scale = np.atleast_1d(np.asarray([float(s.to("dimensionless").magnitude) if hasattr(s, "magnitude") else s for s in (scale if isinstance(scale, (tuple, list)) else [scale])], float))
    if scale_type == "absolute":
        return (-abs(scale[0]), abs(scale[0])) if len(scale) == 1 else tuple(scale)
    if len(scale) == 1:
        if hi == lo:
            return None
        half, mean = scale[0] * 0.5 * (hi - lo), np.nanmean(d)
        return mean - half, mean + half
    return lo + scale[0] * (hi - lo), lo + scale[1] * (hi - lo)


class World:
    """Everything plotting must not change."""

    def __init__(self, p):
        self.other_fig, self.other = plt.subplots(figsize=(2, 2))
        self.other.plot([0, 1000.0], [3, 7])
        self.p, self.before = p, mon.fp_patch(p)
        self.rc = dict(matplotlib.rcParams)
        self.state = self.look()

    def look(self):
        a = self.other
        return (len(a.lines), len(a.images), len(a.collections), a.get_xlim(), a.get_ylim(), a.get_xlabel(), a.get_ylabel(), tuple(a.get_yticks()), tuple(a.get_xticks()))

    def check(self, ctx, what):
        ctx.soft(mon.fp_patch(self.p) == self.before, "patch-changed", what)
        ctx.soft(dict(matplotlib.rcParams) == self.rc, "settings-changed", what)
        ctx.soft(self.look() == self.state, "other-axes-changed", lambda: f"{what}: {self.state} -> {self.look()}")


def new_axes(rng, current):
    """None, an axis of its own or one of several, current or not."""
    how = gen.pick(rng, ["none", "given", "subplot"])
    if how == "none":
        return None, how
    fig, ax = plt.subplots(1, 2 if how == "subplot" else 1, figsize=(4, 3), dpi=80)
    ax = ax[0] if how == "subplot" else ax
    if current is not None and gen.chance(rng, 0.6):
        plt.sca(current)
    return ax, how


def closes(func):
    def inner(rng, ctx):
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                return func(rng, ctx)
            finally:
                plt.close("all")
    return inner


@family("P26", "waterfall", quick=500, thorough=9000)
@closes
def waterfall(rng, ctx):
    p, kk, dts, dkind = make_patch(rng)
    opts = {}
    percent = get_quantity("percent")
    stype = gen.pick(rng, ["relative", "relative", "absolute"])
    opts["scale_type"] = stype
    scale = gen.pick(rng, [None, None, 1.0, 0.5, (0.1, 0.9), (0, 1), 50 * percent, 2] if stype == "relative" else [None, 2.0, 3, (-1, 2), (0.5, 5.0)])
    if scale is not None:
        opts["scale"] = scale
    opts["interpolation"] = gen.pick(rng, ["none", "nearest", "antialiased", None])
    if gen.chance(rng, 0.3):
        opts["cmap"] = gen.pick(rng, ["viridis", "seismic", matplotlib.colormaps["gray"]])
    log = gen.chance(rng, 0.15)
    if log:
        opts["log"] = True
    gap = gen.pick(rng, [None, None, "lime", (0.1, 0.2, 0.3)])
    if gap is not None:
        opts["gap_color"] = gap
        opts["gap_factor"] = float(gen.pick(rng, [1.5, 2.0]))
    cbar = gen.chance(rng, 0.7)
    opts["cbar"] = cbar
    what = f"waterfall {list(zip(p.dims, kk, dts))} {dkind} {opts}"
    ctx.note(what=what)
    world = World(p)
    ax, how = new_axes(rng, world.other)
    got = p.viz.waterfall(ax=ax, **opts)
    ctx.check(got is ax or ax is None, "other-axes-used", what)
    arts = [a for a in got.get_children() if isinstance(a, (AxesImage, QuadMesh))]
    ctx.check(len(arts) == 1, "artists", lambda: f"{what}: {arts}")
    art = arts[0]
    y, x = (axis_values(p.get_array(d)) for d in p.dims)
    data = np.asarray(p.data, float)
    if log:
        data = np.log10(np.abs(data) + np.finfo(float).eps)
    fine = finite_monotonic(x) and finite_monotonic(y)
    if fine:
        check_mapping(ctx, what, art, x, y, data)
        dull = gap is not None and isinstance(art, QuadMesh)
        if dull:
            xe, ye, arr = cells(art)
            full = np.ma.getmaskarray(arr)
            for vals, edges, axis in ((x, xe, 1), (y, ye, 0)):
                d = np.abs(np.diff(vals))
                if not len(d):
                    continue
                for i in np.flatnonzero(d > np.median(d) * opts["gap_factor"] * 1.0001):
                    mid = 0.5 * (vals[i] + vals[i + 1])
                    c = [j for j in range(len(edges) - 1) if min(edges[j], edges[j + 1]) < mid < max(edges[j], edges[j + 1])]
                    ctx.check(c and np.all(full.take(c[0], axis=axis)), "gap-not-marked", lambda: f"{what}: between {vals[i]} and {vals[i + 1]}")
                    ctx.count("gaps judged")
            bad = art.get_cmap()(np.ma.masked_all(1))[0]
            ctx.check(np.allclose(bad, to_rgba(gap)), "gap-colour", lambda: f"{what}: {bad}")
    lims = want_limits(data, scale, stype)
    if lims is not None and np.all(np.isfinite(lims)) and lims[0] != lims[1]:  # matplotlib widens equal limits
        clim = art.get_clim()
        span = max(abs(lims[1] - lims[0]), 1e-9 * max(map(abs, lims)), 1e-12)
        ctx.check(np.allclose(clim, lims, rtol=1e-5, atol=span * 1e-4), "colour-limits", lambda: f"{what}: {clim}, expected {lims}")
    for dim, lab in zip(p.dims, (got.get_ylabel(), got.get_xlabel())):
        ctx.check(lab in want_label(p, dim), "axis-label", lambda: f"{what}: {lab!r} for {dim}, expected {want_label(p, dim)}")
    y_time = np.asarray(p.get_array(p.dims[0])).dtype.kind in "mM"
    if fine and len(y) > 1:
        lo, hi = got.get_ylim()
        ctx.check((lo > hi) == y_time, "y-direction", lambda: f"{what}: y limits {lo}..{hi}")
    if fine and len(x) > 1:
        lo, hi = got.get_xlim()
        ctx.check(lo < hi, "x-direction", lambda: f"{what}: x limits {lo}..{hi}")
    others = [a for a in got.get_figure().axes if a is not got and a is not world.other]
    if how != "subplot":
        ctx.check(len(others) == int(cbar), "colour-bar", lambda: f"{what}: {len(others)} further axes")
    if cbar:
        text = others[-1].get_ylabel()
        ctx.check(str(p.attrs.data_type) in text and (get_quantity_str(p.attrs.data_units) or "") in text and ("log" in text) == log, "colour-bar-label", lambda: f"{what}: {text!r}")
    if fine and opts["interpolation"] in ("none", "nearest") and ctx.index % 3 == 0 and not (how == "subplot" and cbar) and min(len(x), len(y)) > 1:
        if how == "none":
            got.get_figure().set_size_inches(4, 3)
        check_pixels(ctx, what, got, art, x, y, data)
    world.check(ctx, what)
    ctx.cover("waterfall", *kk, *dts, dkind, type(art).__name__, stype, log, gap is None)


@family("P26", "orders", quick=120, thorough=2500)
@closes
def orders(rng, ctx):
    """Both orders of the dimensions show the same at each pair of labels; so do pieces."""
    p, kk, dts, dkind = make_patch(rng, kinds=KINDS[:8])
    q = p.transpose()
    opts = dict(scale=gen.pick(rng, [1.0, (0, 1), None]), interpolation="none")
    a, b = p.viz.waterfall(**opts), q.viz.waterfall(**opts)
    what = f"{list(zip(p.dims, kk, dts))} {dkind}"
    arts = []
    for ax, pp in ((a, p), (b, q)):
        art = [z for z in ax.get_children() if isinstance(z, (AxesImage, QuadMesh))][0]
        arts.append(art)
        y, x = (axis_values(pp.get_array(d)) for d in pp.dims)
        check_mapping(ctx, what, art, x, y, np.asarray(pp.data, float))
    ctx.check(np.allclose(arts[0].get_clim(), arts[1].get_clim(), equal_nan=True), "limits-depend-on-order", what)
    # three-dimensional with a single label in one
    extra = p.append_dims("other").transpose(*gen.pick(rng, [(p.dims[0], "other", p.dims[1]), ("other", *p.dims)]))
    c = extra.viz.waterfall(**opts)
    art = [z for z in c.get_children() if isinstance(z, (AxesImage, QuadMesh))][0]
    ctx.check(np.array_equal(np.ma.filled(art.get_array().astype(float), np.nan), np.ma.filled(arts[0].get_array().astype(float), np.nan), equal_nan=True) or 1 in p.shape, "squeezed-differs", what)
    # again on the same axes
    d = p.viz.waterfall(ax=a, **opts)
    ctx.check(d is a, "other-axes-used", what)
    y_time = np.asarray(p.get_array(p.dims[0])).dtype.kind in "mM"
    if p.shape[0] > 1:
        lo, hi = a.get_ylim()
        ctx.soft((lo > hi) == y_time, "y-direction-again", lambda: f"{what}: {lo}..{hi}")
    ctx.cover("orders", *kk, *dts, dkind)


@family("P26", "wiggle", quick=350, thorough=6000)
@closes
def wiggle(rng, ctx):
    p, kk, dts, dkind = make_patch(rng, ndim=int(gen.pick(rng, [1, 2, 2, 2])), kinds=tuple(k for k in KINDS if k not in ("partial",)))
    dim = gen.pick(rng, p.dims)
    scale = float(gen.pick(rng, [1, 1, 0.5, 2]))
    opts = {"scale": scale, "shade": gen.chance(rng, 0.3), "color": gen.pick(rng, ["black", "red"]), "alpha": float(gen.pick(rng, [0.2, 1.0]))}
    if len(p.dims) == 2 or gen.chance(rng, 0.5):
        opts["dim"] = dim
    what = f"wiggle {list(zip(p.dims, kk, dts))} {dkind} {opts}"
    ctx.note(what=what)
    world = World(p)
    ax, _ = new_axes(rng, world.other)
    if ax is None:
        pass
    got = p.viz.wiggle(ax=ax, **opts)
    ctx.check(got is ax or ax is None, "other-axes-used", what)
    data = np.asarray(p.data, float)
    if len(p.dims) == 1:
        line = got.lines[0]
        ctx.check(len(got.lines) == 1, "lines", what)
        lx = axis_values(line.get_xdata(orig=True)) if np.asarray(line.get_xdata(orig=True)).dtype.kind in "M" else np.asarray(line.get_xdata(orig=False), float)
        want_x = axis_values(p.get_array(p.dims[0]))
        if dts[0] != "delta":
            ctx.check(np.allclose(lx, want_x), "line-labels", lambda: f"{what}: {lx} {want_x}")
        ctx.check(np.allclose(np.asarray(line.get_ydata(), float), data, equal_nan=True), "line-values", what)
        ctx.check(got.get_xlabel() in want_label(p, p.dims[0]), "axis-label", lambda: got.get_xlabel())
        world.check(ctx, what)
        ctx.cover("wiggle", *kk, *dts, dkind)
        return
    other = next(d for d in p.dims if d != dim)
    rows = data if p.dims[0] == dim else data.T   # [dim, other]
    ctx.check(len(got.lines) == rows.shape[1], "lines", lambda: f"{what}: {len(got.lines)}")
    ctx.check(got.get_xlabel() in want_label(p, dim), "axis-label", lambda: f"{what}: x {got.get_xlabel()!r}")
    ctx.check(got.get_ylabel() in want_label(p, other), "axis-label", lambda: f"{what}: y {got.get_ylabel()!r}")
    swing = np.nanmax(rows, axis=0) - np.nanmin(rows, axis=0)
    gap = np.nanmedian(swing) * scale
    want_x = axis_values(p.get_array(dim))
    offs = []
    for i, line in enumerate(got.lines):
        raw = np.asarray(line.get_xdata(orig=True))
        if raw.dtype.kind != "m":
            lx = axis_values(raw) if raw.dtype.kind == "M" else raw.astype(float)
            ctx.check(np.allclose(lx, want_x), "line-labels", lambda: f"{what}: {lx[:4]} {want_x[:4]}")
        elif raw.dtype.kind == "m":
            ctx.check(np.array_equal(raw, p.get_array(dim)), "line-labels", what)
        ly = np.asarray(line.get_ydata(), float)
        ok = np.isfinite(rows[:, i])
        if ok.any():
            ctx.check(np.all(np.isfinite(ly[ok])), "values-lost", lambda: f"{what}: line {i} lost {np.sum(~np.isfinite(ly[ok]))} values")
            off = ly[ok] - rows[ok, i]
            ctx.check(np.allclose(off, off[0], atol=1e-6 * max(1.0, np.nanmax(np.abs(rows)))), "wrong-trace", lambda: f"{what}: line {i} is not the trace at label {i}")
            offs.append((i, off[0]))
    for i, off in offs:
        ctx.check(np.isclose(off, i * gap, rtol=1e-5, atol=1e-6 * max(1.0, np.nanmax(np.abs(rows)))), "wrong-offset", lambda: f"{what}: trace {i} at {off}, expected {i * gap}")
    # tick labels belong to the traces at which they are
    got.get_figure().canvas.draw()
    if gap > 0:
        arr = np.asarray(p.get_array(other))
        lo, hi = sorted(got.get_ylim())
        for tick, text in zip(got.get_yticks(), [t.get_text() for t in got.get_yticklabels()]):
            if not text or not lo <= tick <= hi:
                continue
            i = tick / gap
            ctx.check(abs(i - round(i)) < 1e-6 and 0 <= round(i) < len(arr), "tick-off-trace", lambda: f"{what}: tick {text} at {tick} ({i})")
            label = arr[int(round(i))]
            ctx.check(label_matches(text, label), "tick-label", lambda: f"{what}: tick {text!r} at trace {round(i)} whose label is {label}")
            ctx.count("tick labels judged")
    if opts["shade"]:
        ctx.check(len([c for c in got.collections if isinstance(c, PolyCollection)]) == rows.shape[1], "shading", what)
    world.check(ctx, what)
    ctx.cover("wiggle", dim == p.dims[0], *kk, *dts, dkind, opts["shade"])


def label_matches(text, label):
    if isinstance(label, np.datetime64 | np.timedelta64):
        text = text.replace("\N{MINUS SIGN}", "-")
        if isinstance(label, np.timedelta64):
            return str(label) in text or text.split()[0] == str(label.astype(np.int64)) or text in str(label)
        full = str(label)
        try:  # may be shortened
            return abs((np.datetime64(text.strip()) - label) / np.timedelta64(1, "s")) < 1 or full.startswith(text)
        except ValueError:
            return False
    try:
        return abs(float(text.replace("\N{MINUS SIGN}", "-")) - float(label)) <= 0.0051
    except ValueError:
        return False


@family("P26", "fiber", quick=200, thorough=3000)
@closes
def fiber(rng, ctx):
    n = int(rng.integers(3, 15))
    dist = labels(rng, gen.pick(rng, ["even", "even_desc", "irregular", "gapped"]), "float", n)
    n = len(dist)
    names = {"latitude": rng.uniform(-40, 40, n), "longitude": rng.uniform(0, 100, n), "depth": rng.normal(0, 30, n)}
    coords = {"distance": dc.get_coord(data=dist, units="m"), "time": labels(rng, "even", "time", 4)}
    for k, v in names.items():
        coords[k] = (("distance",), dc.get_coord(data=v, units="m" if k == "depth" else None))
    dims = gen.pick(rng, [("distance", "time"), ("time", "distance")])
    p = dc.Patch(data=rng.normal(0, 1, [len(coords[d]) for d in dims]), coords=coords, dims=dims)
    pool = ["distance", *names]
    opts, arrays, named = {}, {}, {}
    for arg in ("x", "y", "color"):
        if gen.chance(rng, 0.3):
            arrays[arg] = opts[arg] = rng.normal(0, 5, n)
        else:
            named[arg] = opts[arg] = gen.pick(rng, pool)
            arrays[arg] = np.asarray(p.get_array(opts[arg]))
    stype = gen.pick(rng, ["relative", "absolute"])
    scale = gen.pick(rng, [None, None, 1.0, 0.5, 1, 2, (-3.0, 8.0)])
    opts.update(scale=scale, scale_type=stype)
    what = f"map_fiber {named} {scale} {stype}"
    ctx.note(what=what)
    world = World(p)
    ax, _ = new_axes(rng, world.other)
    got = p.viz.map_fiber(ax=ax, **opts)
    pts = [c for c in got.collections if isinstance(c, PathCollection)]
    ctx.check(len(pts) == 1, "artists", what)
    off = np.asarray(pts[0].get_offsets())
    ctx.check(np.allclose(off[:, 0], arrays["x"]) and np.allclose(off[:, 1], arrays["y"]), "wrong-position", what)
    ctx.check(np.allclose(np.asarray(pts[0].get_array()), arrays["color"]), "wrong-colour", what)
    for arg, lab in (("x", got.get_xlabel()), ("y", got.get_ylabel())):
        if arg in named:
            ctx.check(lab in want_label(p, named[arg]), "axis-label", lambda: f"{what}: {arg} {lab!r}")
        else:
            ctx.check(lab == "", "axis-label", lambda: f"{what}: {arg} is an array but labelled {lab!r}")
    c = arrays["color"]
    if isinstance(scale, (int, float)):
        half = scale * (0.5 * (c.max() - c.min()) if stype == "relative" else 1)
        ctx.check(np.allclose(pts[0].get_clim(), (c.mean() - half, c.mean() + half)), "colour-limits", lambda: f"{what}: {pts[0].get_clim()}, expected {c.mean()} +- {half}")
    elif isinstance(scale, tuple):
        ctx.check(np.allclose(pts[0].get_clim(), scale), "colour-limits", lambda: f"{what}: {pts[0].get_clim()}")
    bar = got.get_figure().axes[-1]
    text = bar.get_ylabel()
    ctx.check(named.get("color", "") in text and ("m" in text) >= (named.get("color") in ("depth", "distance")), "colour-bar-label", lambda: f"{what}: {text!r}")
    world.check(ctx, what)
    ctx.cover("fiber", *sorted(named.items()), scale, stype)


@family("P26", "spectra", quick=120, thorough=1500)
@closes
def spectra(rng, ctx):
    """Spectrogram and spectral plots against the transforms they show."""
    n, m = int(gen.pick(rng, [64, 100])), int(rng.integers(2, 6))
    desc = gen.chance(rng, 0.3)
    time = labels(rng, "even", "time", n)
    dist = labels(rng, "even_desc" if desc else "even", "float", m)
    flip = gen.chance(rng, 0.5)
    p = dc.Patch(data=rng.normal(0, 1, (m, n)), coords={"distance": dc.get_coord(data=dist, units="m"), "time": dc.get_coord(data=time, units="s")}, dims=("distance", "time"))
    if flip:
        p = p.transpose()
    world = World(p)
    mode = gen.pick(rng, ["spectrogram", "specplot"])
    if mode == "spectrogram":
        domain = gen.pick(rng, ["frequency", "time"])
        got = p.viz.spectrogram(dim="time", aggr_domain=domain)
        if domain == "frequency":
            ref = p.spectrogram("time").aggregate("distance", method="mean").squeeze("distance")
        else:
            ref = p.aggregate("distance", method="mean", dim_reduce="squeeze").spectrogram("time")
        what = f"spectrogram {domain} {p.dims}"
    else:
        dims = gen.pick(rng, ["time", "distance", None])
        ref = p.dft(dim=dims).abs()
        got = ref.viz.specplot(scale=gen.pick(rng, [None, (0, 1)]), interpolation="none", log=False)
        what = f"specplot {dims} {p.dims}"
    ctx.note(what=what)
    art = [z for z in got.get_children() if isinstance(z, (AxesImage, QuadMesh))][0]
    arr = np.asarray(np.ma.filled(art.get_array().astype(float), np.nan))
    names = [got.get_ylabel(), got.get_xlabel()]
    order = [d for lab in names for d in ref.dims if lab.lower().startswith(d.lower()) or (d.startswith("ft_") and lab.lower().startswith({"ft_time": "frequency", "ft_distance": "wavenumber"}[d]))]
    ctx.check(sorted(order) == sorted(ref.dims), "axis-label", lambda: f"{what}: {names}")
    ref = ref.transpose(*order)
    y, x = (axis_values(ref.get_array(d)) for d in ref.dims)
    del arr
    check_mapping(ctx, what, art, x, y, np.asarray(ref.data, float))
    world.check(ctx, what)
    ctx.cover("spectra", mode, what, desc)
