"""P01: every patch is internally consistent."""
from __future__ import annotations

import numpy as np
import pandas as pd

import dascore as dc
from vf import boot, gen, mon, ops
from vf.core import describe, family

describe(
    "P01",
    "An audit that recomputes shape, dimension names, coordinate shapes and every coordinate summary (min, max, step, units, dtype) "
    "from the held arrays runs on each patch produced by: random chains of up to 8 of the catalogued operations, construction "
    "from mixed forms, spool operations, writing and reading back, and coordinate updates through attributes. Non-trivial: "
    "distinct by (operation, previous operation, coordinate kinds of the patch, number of dimensions).",
    ["operations which refuse a request (raise) end a chain and are not judged here (see P25)"],
)


def audit(ctx, p, what):
    probs = mon.structure_problems(p)
    ctx.count("audits")
    ctx.check(not probs, "inconsistent:" + (probs[0][0] if probs else ""), lambda: f"after {what}: {probs[:4]} {gen.describe(p)}")
    # derived accessors
    ctx.check(p.dtype == p.data.dtype, "dtype-attr", what)
    ctx.check(dict(p.coord_shapes) == {n: tuple(c.shape) for n, c in p.coords.coord_map.items()}, "coord-shapes", what)
    for d in p.dims:
        ctx.check(p.get_axis(d) == p.dims.index(d), "get-axis", what)
        ctx.check(mon.same(p.get_array(d), p.coords.coord_map[d].values), "get-array", what)
    if "time" in p.dims and len(p.get_coord("time")) > 0:
        t = p.get_coord("time")
        at = p.attrs
        ctx.check(mon._summary_eq(at["time_min"], t.min()) and mon._summary_eq(at["time_max"], t.max()), "attrs-time-accessor", what)


def sample_patch(rng, i=0):
    big = gen.chance(rng, 0.25)
    kw = dict(sizes=(40, 56), ndim=2) if big else dict(sizes=(1, 10))
    names = ["time", "distance"] if gen.chance(rng, 0.5) else None
    if names and not big:
        kw["ndim"] = 2
    return gen.patch(rng, data_dtypes=("float64", "float64", "float64", "float32", "int32", "complex128"), names=names,
                     kinds=("even", "even", "even", "even-desc", "mono", "mono-desc", "unsorted"), **kw)


@family("P01", "chains", quick=6000, thorough=80000)
def chains(rng, ctx):
    p, info = sample_patch(rng)
    audit(ctx, p, "construction")
    prev = "construct"
    trail = []
    for _ in range(int(rng.integers(1, 8))):
        made = ops.random_call(rng, p)
        if made is None:
            break
        name, args, kwargs = made
        trail.append(f"{name}({str(args)[:80]},{str(kwargs)[:120]})")
        ctx.note(trail=" -> ".join(trail))
        try:
            out = ops.call(p, name, args, kwargs)
        except Exception as exc:  # refused: not judged here
            ctx.count(f"refused:{name}:{type(exc).__name__}")
            break
        audit(ctx, out, " -> ".join(trail))
        kinds = ",".join(sorted({type(p.get_coord(d)).__name__[5:] for d in p.dims}))
        ctx.cover(name, prev, kinds, p.ndim)
        prev = name
        p = out
        if p.size > 20000 or p.ndim > 5:
            break


@family("P01", "each-op", quick=9000, thorough=100000)
def each_op(rng, ctx):
    """Every catalogued operation in turn on a fresh patch."""
    names = list(ops.OPS)
    name = names[ctx.index % len(names)]
    for _ in range(30):
        p, info = sample_patch(rng)
        made = ops.OPS[name].make(rng, p)
        if made is not None:
            break
    else:
        ctx.skip("no applicable patch for " + name)
    ctx.note(op=name, args=str(made), patch=gen.describe(p))
    out = ops.call(p, name, *made)
    audit(ctx, out, f"{name} {str(made)[:200]}")
    kinds = ",".join(sorted(f"{info[d][0]}-{info[d][1]}" for d in p.dims if d in info))
    ctx.cover(name, kinds, p.ndim)


@family("P01", "construct", quick=2500, thorough=30000)
def construct(rng, ctx):
    """Different ways of describing the same patch, and updates through attributes."""
    p, info = sample_patch(rng)
    how = gen.pick(rng, ["dict", "tuples", "attrs-only", "attrs-update", "coords-update", "new-dims", "from-patch", "limits"])
    if how == "dict":
        q = dc.Patch(data=p.data, coords={d: p.get_array(d) for d in p.dims}, dims=p.dims)
    elif how == "tuples":
        q = dc.Patch(data=p.data, coords={n: (tuple(p.coords.dim_map[n]) or None, c.values) for n, c in p.coords.coord_map.items()}, dims=p.dims)
    elif how == "attrs-only":
        if not all(p.get_coord(d).evenly_sampled and p.get_coord(d).step is not None for d in p.dims):
            ctx.skip("needs even coords")
        at = {"dims": p.dims, **{f"{d}_{k}": getattr(p.get_coord(d), k) for d in p.dims for k in ("step", "units")},
              **{f"{d}_min": p.get_coord(d).min() for d in p.dims}, **{f"{d}_max": p.get_coord(d).max() for d in p.dims}}
        if any(len(p.get_coord(d)) < 2 or p.get_coord(d).reverse_sorted for d in p.dims):
            ctx.skip("needs ascending coords")
        q = dc.Patch(data=p.data, attrs=at)
    elif how == "attrs-update":
        d = gen.pick(rng, p.dims)
        c = p.get_coord(d)
        if not len(c):
            ctx.skip("empty")
        delta = np.timedelta64(int(rng.integers(1, 10**9)), "ns") if c.dtype.kind in "mM" else 3
        which = gen.pick(rng, ["min", "max", "units", "step"])
        if which == "units":
            val = "s" if c.dtype.kind != "f" or str(c.units) == "1 s" else gen.pick(rng, ["km", "ft"])
            if c.dtype.kind == "i":
                val = "m"
        elif which == "step":
            if not c.evenly_sampled or c.step is None or pd.isnull(c.step):
                ctx.skip("step of irregular coord")
            val = c.step * 2
        else:
            val = getattr(c, which)() + delta
        q = p.update_attrs(**{f"{d}_{which}": val})
        if which in ("min", "max"):
            got = getattr(q.get_coord(d), which)()
            ctx.check(mon.close(np.asarray(got), np.asarray(val).astype(np.asarray(got).dtype), rtol=1e-9, atol=1e-9 if c.dtype.kind == "f" else 0), "attr-limit-applied", lambda: f"{d}_{which}={val!r} -> {got!r}; {c}")
        audit(ctx, p, "update_attrs source")
    elif how == "coords-update":
        d = gen.pick(rng, p.dims)
        n = p.coord_shapes[d][0]
        q = p.update_coords(**{d: gen.coord_values(rng, n, gen.pick(rng, ["float", "time"]), "mono"), "extra_c": (d, rng.standard_normal(n))})
    elif how == "new-dims":
        q = p.new(dims=[f"n_{d}" for d in p.dims], coords={f"n_{d}": p.get_coord(d) for d in p.dims})
    elif how == "from-patch":
        q = dc.Patch(p)
        ctx.check(mon.fp_patch(p) == mon.fp_patch(q), "copy-differs", lambda: mon.diff_fp(mon.fp_patch(p), mon.fp_patch(q)))
    else:
        d = gen.pick(rng, p.dims)
        c = p.get_coord(d)
        if not (c.evenly_sampled and len(c) > 1):
            ctx.skip("needs even coord")
        q = p.update_coords(**{f"{d}_min": c.max()})
    audit(ctx, q, how)
    ctx.cover(how, gen.describe(p)[:60], p.ndim)


@family("P01", "spools", quick=400, thorough=6000)
def spools(rng, ctx):
    """Patches yielded by in-memory spools after spool operations."""
    n = int(rng.integers(1, 5))
    step = np.timedelta64(gen.pick(rng, [4_000_000, 10**9, 1000]), "ns")
    t = gen.BASE_TIME
    patches = []
    nd = int(rng.integers(2, 5))
    lat = rng.standard_normal(nd)
    for _ in range(n):
        nt = int(rng.integers(5, 20))
        patches.append(dc.Patch(data=rng.standard_normal((nt, nd)), coords={"time": t + np.arange(nt) * step, "distance": np.arange(nd) * 2.0,
                       "lat": ("distance", lat)}, dims=("time", "distance"), attrs={"tag": "a", "x_y_z": 1}))
        t = t + nt * step + step * int(gen.pick(rng, [0, 0, 1, 30]))
    sp = dc.spool(patches)
    how = gen.pick(rng, ["plain", "chunk", "merge", "select", "concat", "stack", "split", "overlap"])
    if how == "chunk":
        out = list(sp.chunk(time=float(step / np.timedelta64(1, "s")) * int(rng.integers(2, 9)), keep_partial=gen.chance(rng, 0.5)))
    elif how == "overlap":
        out = list(sp.chunk(time=step * 6, overlap=step * 2, keep_partial=True))
    elif how == "merge":
        out = list(sp.chunk(time=...))
    elif how == "select":
        out = list(sp.select(time=(gen.BASE_TIME + step * 3, gen.BASE_TIME + step * 12), distance=(2.0, ...)))
    elif how == "concat":
        out = list(sp.concatenate(time=None)) if gen.chance(rng, 0.5) else list(dc.spool([p.new() for p in patches[:1]] * 2).concatenate(new_dim=None))
    elif how == "stack":
        out = [dc.spool([patches[0]] * 3).stack()]
    elif how == "split":
        out = [p for s in sp.split(size=2) for p in s]
    else:
        out = list(sp)
    for q in out:
        audit(ctx, q, how)
    ctx.check(len(out) > 0 or how in ("select", "chunk", "overlap"), "nothing-yielded", how)
    ctx.cover("spool", how, n, len(out))


@family("P01", "files", quick=150, thorough=2500)
def files(rng, ctx):
    """Patches which come back from a file, whole or in part."""
    p, info = gen.patch(rng, sizes=(2, 12), data_dtypes=("float64", "float32", "int32"))
    d = boot.scratch_dir()
    fmt, ext = gen.pick(rng, [("dasdae", "h5"), ("dasdae", "h5"), ("pickle", "pkl")])
    path = d / f"f.{ext}"
    p.io.write(path, fmt)
    sp = dc.read(path)
    for q in sp:
        audit(ctx, q, f"read {fmt}")
    if fmt == "dasdae":
        dim = gen.pick(rng, p.dims)
        if len(np.unique(p.get_array(dim))) == len(p.get_array(dim)):
            v = np.sort(p.get_array(dim))
            for q in dc.read(path, **{dim: (v[0], v[len(v) // 2])}):
                audit(ctx, q, f"partial read {dim}")
        for q in dc.spool(path):
            audit(ctx, q, "file spool")
    ctx.cover("file", fmt, tuple(sorted((info[x][0], info[x][1]) for x in p.dims)))
