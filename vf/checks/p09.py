"""P09: a spool's contents table matches the patches it yields."""
from __future__ import annotations

import fnmatch

import numpy as np
import pandas as pd

import dascore as dc
from vf import boot, gen, mon
from vf.core import describe, family

describe(
    "P09",
    "Sets of patches with different tags, stations, extents, samplings and dimension orders, each sample carrying the number of its patch, become "
    "spools backed by memory, one file with several patches, or a directory of files. Random sequences of select (extent of each dimension, wildcard, "
    "collection, equality), sort, slice, integer and boolean index arrays, split, concatenation of selections and merging are applied to the spool and to a "
    "list model; after every step a monitor compares length, contents table, iteration, positive and negative indexing and the model row by row: number, "
    "order, extents, steps, dimensions, attributes, samples. Non-trivial: distinct by (backing, sequence of operations, rows left).",
    ["extent selections are chosen so that each kept patch has at least one sample inside", "attributes in the DASDAE file index are the ones its index stores"],
)

TAGS = ["a", "ab", "abc", "b", "random", "b?"[:1] + "2", ""]
STATIONS = ["s1", "s2", "t1", ""]
T0 = np.datetime64("2020-03-04T05:06:07", "ns")


class Row:
    """A part (index ranges) of a source patch."""

    def __init__(self, num, patch, t, d):
        self.num, self.patch, self.t, self.d = num, patch, t, d

    def labels(self, dim):
        lo, hi = self.t if dim == "time" else self.d
        return np.asarray(self.patch.get_array(dim))[lo:hi]

    def data(self):
        sl = [slice(*(self.t if x == "time" else self.d)) for x in self.patch.dims]
        return np.asarray(self.patch.data)[tuple(sl)]

    def cut(self, dim, lo, hi):
        """Restrict to labels in [lo, hi], None if nothing is left."""
        lab = np.asarray(self.patch.get_array(dim))
        a, b = self.t if dim == "time" else self.d
        keep = np.ones(len(lab), bool)
        keep[:a] = False
        keep[b:] = False
        if lo is not None:
            keep &= lab >= lo
        if hi is not None:
            keep &= lab <= hi
        ind = np.flatnonzero(keep)
        if not len(ind):
            return None
        new = (ind[0], ind[-1] + 1)
        return Row(self.num, self.patch, new if dim == "time" else self.t, new if dim != "time" else self.d)

    def overlaps(self, dim, lo, hi):
        lab = self.labels(dim)
        return (lo is None or lab.max() >= lo) and (hi is None or lab.min() <= hi)


def source(rng, num, unique):
    nt, nd = int(rng.integers(1, 9)), int(rng.integers(1, 6))
    step = np.timedelta64(int(gen.pick(rng, [10**9, 5 * 10**8, 10**7])), "ns")
    start = T0 + np.timedelta64(int(rng.integers(0, 40)) * 10**9, "ns")
    if unique:
        start = T0 + np.timedelta64(num * 100 * 10**9 + int(rng.integers(0, 4)) * 10**8, "ns")
    dims = ("time", "distance") if gen.chance(rng, 0.6) else ("distance", "time")
    shape = (nt, nd) if dims[0] == "time" else (nd, nt)
    coords = {
        "time": dc.get_coord(start=start, step=step, shape=nt, units="s"),
        "distance": dc.get_coord(start=float(rng.integers(0, 10)), step=float(gen.pick(rng, [1.0, 0.5, 2.0])), shape=nd, units="m"),
    }
    at = dict(tag=gen.pick(rng, TAGS), station=gen.pick(rng, STATIONS), network=gen.pick(rng, ["n", "m", ""]), data_type=gen.pick(rng, ["", "velocity", "strain_rate"]))
    if gen.chance(rng, 0.4):
        at["instrument_id"] = gen.pick(rng, ["i1", "i2"])
    if gen.chance(rng, 0.3):
        at["data_units"] = gen.pick(rng, ["m/s", "strain"])
    if gen.chance(rng, 0.5):
        at["my_attr"] = gen.pick(rng, ["x1", "x2", "y"])
    data = num * 1000.0 + np.arange(nt * nd).reshape(shape)
    p = dc.Patch(data=data, coords=coords, dims=dims, attrs=at)
    return Row(num, p, (0, nt), (0, nd))


def row_of(rows, patch, ctx, what):
    """The model row a patch comes from."""
    num = int(patch.data.ravel()[0] // 1000) if patch.size else -1
    return num


def eq(a, b):
    if pd.isnull(a) and pd.isnull(b):
        return True
    if isinstance(a, (float, np.floating)):
        return bool(np.isclose(a, b, rtol=1e-9, atol=1e-9))
    return a == b


def agree(ctx, spool, rows, what, order=True):
    """Spool, contents, iteration, indexing and the model agree. Returns rows in spool order."""
    n = len(spool)
    ctx.check(n == len(rows), "length", lambda: f"{what}: len {n} model {[r.num for r in rows]}")
    df = spool.get_contents()
    ctx.check(len(df) == n, "contents-length", lambda: f"{what}: {len(df)} rows for {n} patches")
    patches = list(spool)
    ctx.check(len(patches) == n, "iteration-length", lambda: f"{what}: {len(patches)} of {n}")
    if not order:
        pool = list(rows)
        new = []
        for p in patches:
            num = int(p.data.ravel()[0] // 1000)
            hit = next((r for r in pool if r.num == num and mon.same(r.data().ravel()[:1], p.data.ravel()[:1])), None)
            ctx.check(hit is not None, "foreign-patch", lambda: f"{what}: patch {num} among {[r.num for r in rows]}")
            pool.remove(hit)
            new.append(hit)
        rows = new
    for i, (p, r) in enumerate(zip(patches, rows)):
        w = f"{what} row {i} (patch {r.num})"
        ctx.check(p.dims == r.patch.dims and mon.same(p.data, r.data()), "samples", lambda: f"{w}: {p.data.ravel()[:6]}{p.shape} want {r.data().ravel()[:6]}{r.data().shape}")
        rec = df.iloc[i]
        for dim in ("time", "distance"):
            lab = r.labels(dim)
            got = np.asarray(p.get_array(dim))
            ctx.check(mon.same(got, lab) if lab.dtype.kind == "M" else mon.close(got, lab), "labels", lambda: f"{w}: {dim} {got} want {lab}")
            if dim == "distance" and f"{dim}_min" not in df.columns:
                ctx.check(what.startswith("directory"), "contents-columns", lambda: f"{w}: {list(df.columns)}")
                continue
            ctx.check(eq(rec[f"{dim}_min"], lab.min()) and eq(rec[f"{dim}_max"], lab.max()), "contents-extent", lambda: f"{w}: {dim} {rec[f'{dim}_min']}..{rec[f'{dim}_max']} patch {lab.min()}..{lab.max()}")
            st = r.patch.get_coord(dim).step
            ctx.check(eq(rec[f"{dim}_step"], st), "contents-step", lambda: f"{w}: {dim} {rec[f'{dim}_step']} patch {st}")
        dims = rec["dims"]
        dims = ",".join(dims) if not isinstance(dims, str) else dims
        ctx.check(dims == ",".join(p.dims), "contents-dims", lambda: f"{w}: {dims} {p.dims}")
        for key in ("tag", "station", "network", "data_type", "instrument_id"):
            got = getattr(p.attrs, key)
            ctx.check(got == getattr(r.patch.attrs, key), "attrs", lambda: f"{w}: {key} {got!r}")
            if key in df.columns:
                ctx.check((rec[key] or "") == got, "contents-attrs", lambda: f"{w}: {key} {rec[key]!r} patch {got!r}")
        ctx.check(mon.quant_same(p.attrs.data_units, r.patch.attrs.data_units), "attrs", lambda: f"{w}: data_units {p.attrs.data_units}")
        ctx.count("rows")
    for i in ([0, -1, n // 2, -n] if n else []):
        a = spool[int(i)]
        r = rows[i]
        ctx.check(mon.same(a.data, r.data()) and a.dims == r.patch.dims, "indexing", lambda: f"{what}: [{i}] is patch {a.data.ravel()[:1]}, want {r.num}")
    ctx.raises(lambda: spool[n], "index-beyond", IndexError)
    return rows


def bound(rng, rows, dim):
    """A range of labels and None bounds."""
    lab = np.concatenate([r.labels(dim) for r in rows])
    u = np.unique(lab)
    i = int(rng.integers(0, len(u)))
    j = int(rng.integers(i, len(u)))
    lo, hi = u[i], u[j]
    if gen.chance(rng, 0.2):
        lo = None
    elif gen.chance(rng, 0.2):
        hi = None
    return lo, hi


def raw(rng, dim, v):
    if v is None:
        return gen.pick(rng, [None, ...])
    if dim == "time" and gen.chance(rng, 0.3):
        return str(v)
    return v


def matches(pattern, value):
    return fnmatch.fnmatchcase(value or "", pattern)


def step_op(rng, ctx, spool, rows, what, memory):
    """One random operation; (name, spool, rows, ordered)."""
    ops = ["time", "time", "distance", "tag", "station", "both", "sort", "slice", "ints", "bools", "split", "custom"]
    op = gen.pick(rng, ops)
    n = len(rows)
    if op in ("time", "distance"):
        lo, hi = bound(rng, rows, op)
        new = []
        for r in rows:
            c = r.cut(op, lo, hi)
            if c is None and (r.overlaps(op, lo, hi) or (op == "distance" and not memory)):
                return None  # a range between two samples; the directory index has no distance
            if c is not None:
                new.append(c)
        val = (raw(rng, op, lo), raw(rng, op, hi))
        return f"select({op}={val})", spool.select(**{op: val}), new, True
    if op in ("tag", "station"):
        pool = TAGS if op == "tag" else STATIONS
        how = gen.pick(rng, ["exact", "wild", "list", "absent"])
        if how == "exact":
            q = gen.pick(rng, pool)
        elif how == "wild":
            q = gen.pick(rng, ["a*", "?", "*b*", "*", "s?", "*1", "ab?", "b?*"])
        elif how == "list":
            q = [gen.pick(rng, pool) for _ in range(int(rng.integers(1, 4)))]
            q = gen.pick(rng, [list, set, tuple])(q)
        else:
            q = "zzz"
        vals = [getattr(r.patch.attrs, op) for r in rows]
        keep = [v in q if not isinstance(q, str) else matches(q, v) for v in vals]
        return f"select({op}={q})", spool.select(**{op: q}), [r for r, k in zip(rows, keep) if k], True
    if op == "custom":
        if not memory or not any(getattr(r.patch.attrs, "my_attr", None) for r in rows):
            return None
        q = gen.pick(rng, ["x1", "x*", "y", ["x1", "y"]])
        vals = [getattr(r.patch.attrs, "my_attr", None) for r in rows]
        keep = [v is not None and (v in q if isinstance(q, list) else matches(q, v)) for v in vals]
        return f"select(my_attr={q})", spool.select(my_attr=q), [r for r, k in zip(rows, keep) if k], True
    if op == "both":
        lo, hi = bound(rng, rows, "time")
        q = gen.pick(rng, ["a*", "b", "*"])
        new = []
        for r in rows:
            c = r.cut("time", lo, hi)
            if c is None and r.overlaps("time", lo, hi):
                return None
            if c is not None and matches(q, r.patch.attrs.tag):
                new.append(c)
        return f"select(time={lo}..{hi}, tag={q})", spool.select(time=(lo, hi), tag=q), new, True
    if op == "sort":
        key = gen.pick(rng, ["time", "distance" if memory else "time", "tag", "time_max", "station", "time_min"])
        return f"sort({key})", spool.sort(key), rows, False
    if op == "slice":
        a, b = sorted(int(x) for x in rng.integers(-n, n + 1, 2))
        s = gen.pick(rng, [slice(a, b), slice(None, b), slice(a, None), slice(None, None, 2), slice(None, None, -1), slice(b, a, -1)])
        return f"[{s}]", spool[s], rows[s], True
    if op == "ints":
        k = int(rng.integers(1, n + 1))
        ind = rng.permutation(n)[:k]
        return f"[{list(ind)}]", spool[ind], [rows[i] for i in ind], True
    if op == "bools":
        m = rng.random(n) < 0.6
        return f"[{list(m)}]", spool[m], [r for r, k in zip(rows, m) if k], True
    # split
    size = int(rng.integers(1, n + 1))
    if gen.chance(rng, 0.5):
        parts = list(spool.split(size=size))
        per = size
        ctx.check(len(parts) == -(-n // size), "split-count", lambda: f"{what}: split(size={size}) of {n} gives {len(parts)}")
    else:
        parts = list(spool.split(count=size))
        per = -(-n // size)
    ctx.check(sum(len(x) for x in parts) == n, "split-cover", lambda: f"{what}: split {[len(x) for x in parts]} of {n}")
    k = int(rng.integers(0, len(parts)))
    return f"split[{k}]", parts[k], rows[k * per : (k + 1) * per], True


def drive(rng, ctx, spool, rows, backing):
    what = backing
    rows = agree(ctx, spool, rows, what, order=backing == "memory")
    names = []
    for _ in range(int(rng.integers(1, 5))):
        if not rows:
            break
        res = step_op(rng, ctx, spool, rows, what, backing != "directory")
        if res is None:
            continue
        name, spool, new, order = res
        what = f"{what} -> {name}"
        ctx.note(sequence=what)
        old = rows
        rows = agree(ctx, spool, new, what, order)
        if name.startswith("sort"):
            key = name[5:-1]
            vals = []
            for r in rows:
                if key in ("tag", "station"):
                    vals.append(getattr(r.patch.attrs, key))
                else:
                    lab = r.labels(key.split("_")[0])
                    vals.append(lab.max() if key.endswith("max") else lab.min())
            ctx.check(all(x <= y for x, y in zip(vals[:-1], vals[1:])), "sort-order", lambda: f"{what}: {vals}")
        names.append(name.split("=")[0].split("[")[0])
        del old
    ctx.cover(backing, tuple(names), len(rows))
    return spool, rows


@family("P09", "memory", quick=900, thorough=12000)
def memory(rng, ctx):
    n = int(rng.integers(1, 8))
    rows = [source(rng, i, False) for i in range(n)]
    arg = [r.patch for r in rows]
    how = gen.pick(rng, ["list", "tuple", "one"]) if n == 1 else gen.pick(rng, ["list", "tuple", "spool"])
    arg = {"list": list, "tuple": tuple, "one": lambda x: x[0], "spool": lambda x: dc.spool(x)}[how](arg)
    drive(rng, ctx, dc.spool(arg), rows, "memory")


def distinct(rows):
    """Patches of a file are told apart by extents or attributes."""
    keys = [(r.patch.attrs.tag, r.patch.attrs.station, r.patch.attrs.network, r.patch.dims, r.patch.attrs.data_type, str(r.patch.get_array("time")[0])) for r in rows]
    return len(set(keys)) == len(keys)


@family("P09", "file", quick=120, thorough=1500, timeout=300)
def file_backed(rng, ctx):
    """One file with several patches which do not overlap in time."""
    n = int(rng.integers(1, 6))
    rows = [source(rng, i, True) for i in range(n)]
    with boot.scratch_dir() as path:
        dc.write(dc.spool([rows[i].patch for i in rng.permutation(n)]), path / "a.h5", "dasdae")
        drive(rng, ctx, dc.spool(path / "a.h5"), rows, "file")


@family("P09", "directory", quick=120, thorough=1500, timeout=300)
def directory(rng, ctx):
    n = int(rng.integers(1, 6))
    several = gen.chance(rng, 0.3)
    rows = [source(rng, i, several) for i in range(n)]
    with boot.scratch_dir() as path:
        if several:
            half = int(rng.integers(0, n))
            for num, part in enumerate((rows[:half], rows[half:])):
                if part:
                    dc.write(dc.spool([r.patch for r in part]), path / f"f{num}.h5", "dasdae")
        else:
            for num, r in enumerate(rows):
                sub = path / gen.pick(rng, ["", "x", "x/y"])
                sub.mkdir(parents=True, exist_ok=True)
                dc.write(r.patch, sub / f"f{num}.h5", "dasdae")
        spool = dc.spool(path).update(progress=None)
        drive(rng, ctx, spool, rows, "directory")


@family("P09", "unpacked", quick=100, thorough=1200, timeout=300)
def unpacked(rng, ctx):
    """The spool of dc.read, and the spool built again from its patches."""
    n = int(rng.integers(1, 6))
    rows = [source(rng, i, True) for i in range(n)]
    with boot.scratch_dir() as path:
        dc.write(dc.spool([r.patch for r in rows]), path / "a.h5", "dasdae")
        spool = dc.read(path / "a.h5")
        rows = agree(ctx, spool, rows, "read", order=False)
        sp, rows = drive(rng, ctx, dc.spool(list(spool)), rows, "memory")
    agree(ctx, dc.spool(sp), rows, "again")


@family("P09", "merged", quick=300, thorough=3000)
def merged(rng, ctx):
    """Contents and patches agree after chunking, for trimmed and reordered spools."""
    n = int(rng.integers(1, 6))
    rows = [source(rng, i, False) for i in range(n)]
    spool = dc.spool([r.patch for r in rows])
    for _ in range(int(rng.integers(0, 3))):
        res = step_op(rng, ctx, spool, rows, "pre", True)
        if res is None or not res[2]:
            continue
        name, spool, rows, order = res
        rows = agree(ctx, spool, rows, name, order)
    length = gen.pick(rng, [None, 1, 2, 3])
    try:
        kwargs = {"overlap": length * gen.pick(rng, [0.25, 0.5])} if length is not None and gen.chance(rng, 0.3) else {}
        out = spool.chunk(time=length, keep_partial=length is not None, conflict="drop", **kwargs)
        patches = list(out)
    except (dc.exceptions.ChunkError, dc.exceptions.CoordMergeError, dc.exceptions.MergeError if hasattr(dc.exceptions, "MergeError") else dc.exceptions.ChunkError):
        ctx.skip("cannot be merged")
    after = gen.pick(rng, ["", "", "select", "slice", "array", "sort", "select slice", "distance"]) if patches else ""
    for what in after.split():
        if what == "select":  # from one sample to another
            everything = np.unique(np.concatenate([np.asarray(p.get_array("time")) for p in patches]))
            lo, hi = np.sort(rng.choice(everything, 2))
            want = [p.select(time=(lo, hi)) for p in patches]
            keep = [p for p in want if p.size]
            out = out.select(time=(lo, hi))
            # spools list patches by their extent, so those with a gap there may be left
            got = list(out)
            ctx.check([x.data.tolist() for x in got if x.size] == [x.data.tolist() for x in keep], "select-of-chunked", lambda: f"chunk(time={length}).select({lo}..{hi}): {[x.shape for x in got]} instead of {[x.shape for x in keep]}")
            patches = got
        elif what == "distance":
            out = out.select(distance=(None, float(np.max(patches[0].get_array("distance")))))
            patches = list(out)
        elif what == "slice":
            sl = gen.pick(rng, [slice(1, None), slice(None, None, 2), slice(None, None, -1)])
            out, patches = out[sl], patches[sl]
        elif what == "array":
            idx = rng.permutation(len(patches))
            out, patches = out[idx], [patches[i] for i in idx]
        elif what == "sort":
            out = out.sort("time_max")
            patches = list(out)
        if not patches:
            break
    df = out.get_contents()
    ctx.check(len(out) == len(df) == len(patches), "length", lambda: f"{after}: {len(out)} {len(df)} {len(patches)}")
    for i, p in enumerate(patches):
        rec = df.iloc[i]
        w = f"chunk(time={length}) {after} row {i}"
        if not p.size:
            continue
        ctx.check(mon.same(out[i].data, p.data), "position", w)
        t = np.asarray(p.get_array("time"))
        ctx.check(eq(rec["time_min"], t.min()) and eq(rec["time_max"], t.max()), "chunk-extent", lambda: f"{w}: {rec['time_min']}..{rec['time_max']} patch {t.min()}..{t.max()} of {len(t)}")
        for key in ("tag", "station", "network"):
            ctx.check(rec[key] == getattr(p.attrs, key), "chunk-attrs", lambda: f"{w}: {key} {rec[key]!r} {getattr(p.attrs, key)!r}")
        dims = rec["dims"] if isinstance(rec["dims"], str) else ",".join(rec["dims"])
        ctx.check(dims == ",".join(p.dims), "chunk-dims", lambda: f"{w}: {dims} {p.dims}")
        d = np.asarray(p.get_array("distance"))
        ctx.check(eq(rec["distance_min"], d.min()) and eq(rec["distance_max"], d.max()), "chunk-distance", lambda: f"{w}: {rec['distance_min']}..{rec['distance_max']} patch {d}")
        a = out[i]
        ctx.check(mon.same(a.data, p.data), "indexing", w)
    ctx.cover(length, n, len(patches))
