"""P02: operations never modify their inputs."""
from __future__ import annotations

import copy

import numpy as np
import pandas as pd

import dascore as dc
from vf import boot, gen, mon, ops
from vf.core import describe, family

describe(
    "P02",
    "Deep fingerprints (bytes of every array, coordinate fields, attributes, containers) of the patch, all earlier patches of the "
    "chain, every argument and every array those were built from are taken before and after each operation, including operations "
    "made to fail. Backing arrays are fingerprinted separately, so that a write through an alias shows. Non-trivial: distinct by "
    "(operation, outcome, data dtype, memory layout class, argument kinds).",
    ["writing into patch.data by the caller is outside the API; results may share memory with inputs unless copy=True is requested"],
)


def sample_patch(rng):
    big = gen.chance(rng, 0.3)
    kw = dict(sizes=(40, 52), ndim=2) if big else dict(sizes=(1, 9))
    names = ["time", "distance"] if gen.chance(rng, 0.5) else None
    if names and not big:
        kw["ndim"] = 2
    p, info = gen.patch(rng, data_dtypes=("float64", "float64", "float32", "int32", "complex128"), names=names,
                        kinds=("even", "even", "even", "even-desc", "mono", "mono-desc", "unsorted"), **kw)
    if p.data.dtype.kind == "f" and gen.chance(rng, 0.25):
        arr = p.data.copy()
        arr.flat[int(rng.integers(arr.size))] = gen.pick(rng, [np.nan, np.inf])
        p = p.new(data=arr)
    return p, info


class Watch:
    """Fingerprints of a set of objects."""

    def __init__(self):
        self.items = []

    def add(self, label, obj):
        self.items.append((label, obj, mon.fp_any(obj)))

    def verify(self, ctx, what):
        for label, obj, old in self.items:
            new = mon.fp_any(obj)
            ctx.count("fingerprints")
            ctx.check(new == old, f"modified:{label}", lambda: f"{what}: {label} changed: {mon.diff_fp(old, new)}")


def layout_class(a):
    a = np.asarray(a)
    return ("C" if a.flags.c_contiguous else "F" if a.flags.f_contiguous else "S") + ("" if a.flags.owndata else "v")


def watch_patch(w, label, p):
    w.add(label, p)
    w.add(label + ".data", p.data)
    base = p.data
    while isinstance(getattr(base, "base", None), np.ndarray):
        base = base.base
    if base is not p.data:
        w.add(label + ".data.base", base)
    for n, c in p.coords.coord_map.items():
        w.add(f"{label}.coord", c)
    w.add(label + ".attrs", p.attrs)


def run_watched(ctx, w, what, func):
    try:
        out = func()
        state = "ok"
    except Exception as exc:
        out, state = None, type(exc).__name__
    w.verify(ctx, what + f" [{state}]")
    return out, state


@family("P02", "each-op", quick=9000, thorough=100000)
def each_op(rng, ctx):
    names = list(ops.OPS)
    name = names[ctx.index % len(names)]
    for _ in range(30):
        p, info = sample_patch(rng)
        made = ops.OPS[name].make(rng, p)
        if made is not None:
            break
    else:
        ctx.skip("no applicable patch for " + name)
    args, kwargs = made
    w = Watch()
    watch_patch(w, "patch", p)
    w.add("args", args)
    w.add("kwargs", kwargs)
    ctx.note(op=name, args=str(made)[:250], patch=gen.describe(p))
    out, state = run_watched(ctx, w, f"{name}{str(made)[:200]}", lambda: ops.call(p, name, args, kwargs))
    ctx.cover(name, state, str(p.data.dtype), layout_class(p.data), p.ndim)
    if out is None or not isinstance(out, dc.Patch):
        return
    # a second operation on the result must not reach back into the source
    w2 = Watch()
    watch_patch(w2, "result", out)
    w2.items += w.items
    nxt = ops.random_call(rng, out)
    if nxt is not None and out.size < 20000:
        n2, a2, k2 = nxt
        w2.add("args2", (a2, k2))
        _, st2 = run_watched(ctx, w2, f"{name}->{n2}{str((a2, k2))[:200]}", lambda: ops.call(out, n2, a2, k2))
        ctx.cover("then", name, n2, st2)


@family("P02", "chains", quick=1500, thorough=20000)
def chains(rng, ctx):
    """All patches of a derivation tree stay what they were."""
    p, info = sample_patch(rng)
    w = Watch()
    watch_patch(w, "root", p)
    pool = [p]
    trail = []
    for i in range(int(rng.integers(3, 9))):
        src = gen.pick(rng, pool)
        made = ops.random_call(rng, src)
        if made is None:
            break
        name, args, kwargs = made
        trail.append(name)
        w.add("args", (args, kwargs))
        out, state = run_watched(ctx, w, "->".join(trail), lambda: ops.call(src, name, args, kwargs))
        ctx.cover("chain", i, name, state)
        if out is None or not isinstance(out, dc.Patch) or out.size > 20000:
            continue
        watch_patch(w, f"p{i}:{name}", out)
        pool.append(out)


BAD = [
    lambda p, rng: p.select(not_a_dim=(1, 2)),
    lambda p, rng: p.transpose("not_a_dim"),
    lambda p, rng: p.update_coords(**{p.dims[0]: np.arange(p.shape[0] + 3)}),
    lambda p, rng: p.pass_filter(**{p.dims[0]: (1e12, 2e12)}),
    lambda p, rng: p.new(data=np.zeros((3, 7, 11, 2))),
    lambda p, rng: p.convert_units("not_a_unit"),
    lambda p, rng: p.convert_units(**{p.dims[0]: "kg"}),
    lambda p, rng: p + np.zeros((101, 103)),
    lambda p, rng: p.rolling(**{p.dims[0]: -3}, samples=True).mean(),
    lambda p, rng: p.taper(**{p.dims[0]: 4.0}),
    lambda p, rng: p.order(**{p.dims[0]: np.array([1000])}, samples=True),
    lambda p, rng: p.set_dims(**{p.dims[0]: "nope"}),
    lambda p, rng: p.rename_coords(nope="x"),
    lambda p, rng: p.aggregate(dim="nope"),
    lambda p, rng: p.update_attrs(data_type=object()),
    lambda p, rng: p.dft("nope"),
    lambda p, rng: p.pad(**{p.dims[0]: (-3, 2)}, samples=True),
    lambda p, rng: p.decimate(**{p.dims[0]: 10**6}),
    lambda p, rng: p.interpolate(**{p.dims[0]: "abc"}),
    lambda p, rng: p.resample(**{p.dims[0]: -1}),
]


@family("P02", "failures", quick=1500, thorough=15000)
def failures(rng, ctx):
    """Calls which fail part way leave everything as it was."""
    p, info = sample_patch(rng)
    i = ctx.index % len(BAD)
    w = Watch()
    watch_patch(w, "patch", p)
    out, state = run_watched(ctx, w, f"bad#{i}", lambda: BAD[i](p, rng))
    ctx.cover("bad", i, state, p.ndim)


@family("P02", "construct", quick=1500, thorough=20000)
def construct(rng, ctx):
    """Mappings and arrays handed to constructors and updates are not changed."""
    p, info = sample_patch(rng)
    coords = {n: (tuple(p.coords.dim_map[n]) or None, np.array(c.values)) for n, c in p.coords.coord_map.items()}
    attrs = dict(p.attrs.model_dump(exclude_unset=True))
    attrs.pop("coords", None)
    attrs.pop("dims", None)
    attrs["nested"] = gen.pick(rng, [1, "abc"])
    dims = list(p.dims)
    data = np.array(p.data)
    w = Watch()
    for label, obj in (("coords", coords), ("attrs", attrs), ("dims", dims), ("data", data)):
        w.add(label, obj)
    how = ctx.index % 6
    if how == 0:
        run_watched(ctx, w, "Patch()", lambda: dc.Patch(data=data, coords=coords, dims=dims, attrs=attrs))
    elif how == 1:
        run_watched(ctx, w, "new", lambda: p.new(data=data, coords=coords, dims=dims, attrs=attrs))
    elif how == 2:
        run_watched(ctx, w, "attrs", lambda: dc.PatchAttrs(**attrs).update(**{"tag": "b", f"{dims[0]}_min": 3}))
    elif how == 3:
        run_watched(ctx, w, "get_coord_manager", lambda: dc.get_coord_manager(coords, tuple(dims)).update(**{dims[0]: None}))
    elif how == 4:
        run_watched(ctx, w, "update_coords", lambda: p.update_coords(**coords))
    else:
        run_watched(ctx, w, "update_from_attrs", lambda: p.coords.update_from_attrs({f"{dims[0]}_units": "m", **attrs}))
    ctx.cover("construct", how, p.ndim, str(data.dtype))


COORD_OPS = [
    ("sort", lambda c, rng: c.sort()), ("sort-r", lambda c, rng: c.sort(reverse=True)), ("snap", lambda c, rng: c.snap()),
    ("select", lambda c, rng: c.select((c.min(), c.max()))), ("order", lambda c, rng: c.order(np.arange(len(c))[::-1], samples=True)),
    ("update_limits", lambda c, rng: c.update_limits(min=c.max())), ("set_units", lambda c, rng: c.set_units("m")),
    ("convert_units", lambda c, rng: c.convert_units("ft")), ("simplify", lambda c, rng: c.simplify_units()),
    ("change_length", lambda c, rng: c.change_length(len(c) + 2)), ("get_next_index", lambda c, rng: c.get_next_index(c.max())),
    ("slice", lambda c, rng: c[1:]), ("empty", lambda c, rng: c.empty()), ("update", lambda c, rng: c.update(units="km")),
    ("approx_equal", lambda c, rng: c.approx_equal(c)), ("summary", lambda c, rng: c.to_summary()), ("values", lambda c, rng: c.update(values=np.asarray(c.values)[::-1])),
    ("range", lambda c, rng: c.coord_range()), ("reduce", lambda c, rng: c.reduce_coord("mean")), ("align", lambda c, rng: c.align_to(c[: max(1, len(c) - 1)])),
]


@family("P02", "coords", quick=3000, thorough=40000)
def coords(rng, ctx):
    n = int(rng.integers(1, 20))
    dtype, kind = gen.pick(rng, ["float", "int", "time", "delta"]), gen.pick(rng, ["even", "even-desc", "mono", "mono-desc", "unsorted"])
    values = gen.coord_values(rng, n, dtype, kind).copy()
    w = Watch()
    w.add("source-array", values)
    c = dc.get_coord(data=values, units=gen.pick(rng, [None, "m"]) if dtype in ("float", "int") else "s")
    w.add("coord", c)
    for _ in range(3):
        name, func = gen.pick(rng, COORD_OPS)
        _, state = run_watched(ctx, w, f"coord.{name} on {c}", lambda: func(c, rng))
        ctx.cover(name, dtype, kind, state)
    # updating through attributes of a manager
    cm = dc.get_coord_manager({"x": c, "lab": ("x", np.arange(n) * 2.5)}, ("x",))
    w.add("manager", cm)
    arr = np.arange(n) * 1.0
    w.add("array", arr)
    for name, func in (("cm.select", lambda: cm.select(array=arr, x=(None, c.max()))), ("cm.sort", lambda: cm.sort("x", array=arr)),
                       ("cm.snap", lambda: cm.snap("x", array=arr)), ("cm.update", lambda: cm.update(lab=None)),
                       ("cm.rename", lambda: cm.rename_coord(x="y")), ("cm.drop", lambda: cm.drop_coords("lab")),
                       ("cm.decimate", lambda: cm.decimate(x=2)), ("cm.units", lambda: cm.set_units(x="m"))):
        _, state = run_watched(ctx, w, name, func)
        ctx.cover(name, kind, state)


def make_spool(rng):
    step = np.timedelta64(10**9, "ns")
    t, out = gen.BASE_TIME, []
    for i in range(int(rng.integers(2, 6))):
        nt = int(rng.integers(4, 12))
        out.append(dc.Patch(data=rng.standard_normal((nt, 3)), coords={"time": t + np.arange(nt) * step, "distance": np.arange(3) * 2.0}, dims=("time", "distance"),
                            attrs={"tag": gen.pick(rng, ["a", "a", "b"]), "network": "n"}))
        t += nt * step + step * int(gen.pick(rng, [0, 0, 0, 20]))
    return out


@family("P02", "spools", quick=600, thorough=8000)
def spools(rng, ctx):
    patches = make_spool(rng)
    w = Watch()
    w.add("list", patches)
    for i, p in enumerate(patches):
        watch_patch(w, f"patch{i}", p)
    spool = dc.spool(patches)
    w.add("spool", spool)
    s = np.timedelta64(10**9, "ns")
    todo = {
        "select": lambda: list(spool.select(time=(gen.BASE_TIME + 3 * s, gen.BASE_TIME + 9 * s), tag="a")),
        "chunk": lambda: list(spool.chunk(time=3, keep_partial=True, conflict="keep_first")),
        "merge": lambda: list(spool.chunk(time=None, conflict="keep_first")),
        "sort": lambda: list(spool.sort("tag")), "split": lambda: [list(x) for x in spool.split(size=2)],
        "stack": lambda: spool.stack(dim_vary="time", check_behavior=None), "concat": lambda: list(spool.concatenate(time=None, check_behavior=None)),
        "slice": lambda: list(spool[1:]), "map": lambda: list(spool.map(lambda p: p.abs())), "mask": lambda: list(spool[np.arange(len(spool)) % 2 == 0]),
        "contents": lambda: spool.get_contents().assign(tag="zzz"), "iter": lambda: [p.normalize("time") for p in spool],
        "bad": lambda: spool.chunk(nope=3), "names": lambda: spool.get_patch_names(), "df": lambda: dc.spool(spool.get_contents()),
    }
    for _ in range(4):
        name = gen.pick(rng, list(todo))
        out, state = run_watched(ctx, w, f"spool.{name}", todo[name])
        ctx.cover("spool", name, state, len(patches))
    # editing a contents table must not reach the spool
    df = spool.get_contents()
    df.loc[:, "tag"] = "edited"
    w.verify(ctx, "edit of a contents table")


@family("P02", "io", quick=200, thorough=2500)
def io(rng, ctx):
    p, info = gen.patch(rng, sizes=(2, 10), data_dtypes=("float64", "float32", "int32"))
    w = Watch()
    watch_patch(w, "patch", p)
    d = boot.scratch_dir()
    fmt, ext = gen.pick(rng, [("dasdae", "h5"), ("pickle", "pkl")])
    _, s1 = run_watched(ctx, w, "write " + fmt, lambda: p.io.write(d / f"a.{ext}", fmt))
    for name, func in (("xarray", lambda: p.io.to_xarray()), ("obspy", lambda: p.io.to_obspy()), ("repr", lambda: (repr(p), str(p), p.attrs.flat_dump())), ("deepcopy", lambda: copy.deepcopy(p))):
        _, st = run_watched(ctx, w, name, func)
        ctx.cover("io", name, st)
    if s1 == "ok":
        _, st = run_watched(ctx, w, "read", lambda: dc.read(d / f"a.{ext}")[0])
    ctx.cover("io", fmt, s1, p.ndim, str(p.data.dtype))


@family("P02", "copy-request", quick=600, thorough=5000)
def copy_request(rng, ctx):
    """copy=True gives data independent of the source."""
    p, info = gen.patch(rng, ndim=2, sizes=(6, 14), kinds=("even",), data_dtypes=("float64",))
    d = gen.pick(rng, p.dims)
    which = gen.pick(rng, ["select", "decimate"])
    q = p.select(**{d: (1, 4)}, samples=True, copy=True) if which == "select" else p.decimate(**{d: 2}, filter_type=None, copy=True)
    ctx.check(not np.shares_memory(q.data, p.data), f"copy-shares:{which}", "copy=True result shares memory with its source")
    ctx.cover("copy", which)


@family("P02", "units-time", quick=600, thorough=8000)
def units_time(rng, ctx):
    """Array arguments of unit and time conversions stay as they were."""
    arr = rng.standard_normal(int(rng.integers(1, 20)))
    td = gen.even_delta(rng, 5)
    dt = gen.even_time(rng, 5)
    ser = pd.Series(dt)
    lst = [1.5, None, "2020-01-01"]
    obj = np.array([pd.Timestamp("2020-01-01"), None], dtype=object)
    w = Watch()
    for label, o in (("arr", arr), ("td", td), ("dt", dt), ("ser", ser), ("lst", lst), ("obj", obj)):
        w.add(label, o)
    fs = {
        "convert": lambda: dc.convert_units(arr, "ft", "m"), "to_dt": lambda: dc.to_datetime64(arr), "to_td": lambda: dc.to_timedelta64(arr),
        "to_float": lambda: dc.to_float(td), "to_int": lambda: dc.to_int(dt), "ser": lambda: dc.to_datetime64(ser), "lst": lambda: dc.to_datetime64(lst),
        "obj": lambda: dc.to_datetime64(obj), "offset": lambda: dc.convert_units(arr, "degF", "degC"), "serf": lambda: dc.to_float(ser), "quant": lambda: dc.convert_units(arr * dc.get_unit("m"), "ft"),
    }
    for name, f in fs.items():
        _, st = run_watched(ctx, w, name, f)
        ctx.cover("conv", name, st)
