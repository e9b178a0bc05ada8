"""P11: scanning, reading and partial reading agree and reflect the file."""
from __future__ import annotations

import os

import numpy as np

import dascore as dc
from vf import files, gen, mon
from vf.core import describe, family

describe(
    "P11",
    "Files of every readable format (the vendors' layouts are written by the harness from drawn content: sizes, sampling, starts, dimension orders, storage layouts, units, "
    "several patches per file, unfinished or overlapping blocks; the writable formats through the library) are scanned, read whole and read with random ranges: on "
    "labels, between them, open, reversed, in one or all dimensions, single samples, before, after and around the content. Oracles: the content which was written (dimensions, data, "
    "labels, units, metadata), scan against read field by field, partial reads against selection from the whole, directory listings against single files, and the bytes which "
    "scanning a large file takes from the operating system. Non-trivial: distinct by (format, version, shape class, ranges).",
    [
        "no vendor files are available: the layouts follow what the readers and vendors' documents define, for files with a single segment and even sampling unless the format lists labels",
        "labels stored as float seconds are judged within what that type resolves",
        "febus_g1_csv files have no ranges on read",
    ],
)

VENDOR = list(files.MAKERS)


def shape_class(p):
    return tuple("1" if n == 1 else "s" if n < 5 else "l" for n in p.shape)


def as_float(val):
    if hasattr(val, "magnitude"):
        return float(val.magnitude)
    return val


def attr_same(a, b):
    """Equality of two metadata values which allows None, '' and NaN to stand for missing ones."""
    empty = lambda x: x is None or (isinstance(x, str) and x == "") or (isinstance(x, float) and np.isnan(x))  # noqa: E731
    if empty(a) and empty(b):
        return True
    if empty(a) != empty(b):
        return False
    if isinstance(a, float) and isinstance(b, float | int) and np.isclose(a, b, rtol=1e-9, atol=1e-12):
        return True
    try:
        if mon.scalar_same(a, b):
            return True
    except Exception:
        pass
    return bool(np.all(a == b))


def expected_attr(p, key, val):
    got = p.get(key)
    if key.endswith("units"):
        want = dc.get_quantity(val)
        return mon.quant_same(dc.get_quantity(got), want)
    if isinstance(val, float):
        return got is not None and abs(float(as_float(got)) - val) <= 1e-6 * max(1, abs(val))
    return str(got) == str(val)


def check_expected(ctx, made, patches, tag):
    """The patches are what the file holds."""
    if not ctx.soft(len(patches) == len(made.patches), f"{tag}-count", lambda: f"{made.fmt}: {len(patches)} patches, file holds {len(made.patches)}"):
        return
    for exp, p in zip(made.patches, patches):
        if not ctx.soft(p.dims == exp.dims, f"{tag}-dims", lambda: f"{made.fmt}: dims {p.dims}, file has {exp.dims}"):
            continue
        ctx.soft(p.shape == exp.data.shape and np.array_equal(p.data, exp.data), f"{tag}-data", lambda: f"{made.fmt} {made.version}: data differ, shape {p.shape} vs {exp.data.shape}")
        for name, (labels, units, tol) in exp.coords.items():
            coord = p.coords.coord_map.get(name)
            if not ctx.soft(coord is not None, f"{tag}-coord-missing", lambda: f"{made.fmt}: no {name}"):
                continue
            vals = coord.values
            same = vals.shape == np.shape(labels)
            if same and len(vals):
                diff = np.abs(vals - labels)
                diff = diff.astype("timedelta64[ns]").astype(np.int64) if diff.dtype.kind == "m" else diff
                same = diff.max() <= tol
            ctx.soft(same, f"{tag}-labels", lambda: f"{made.fmt} {made.version}: {name} is {vals[:3]}..{vals[-1:]} ({len(vals)}), file has {labels[:3]}..{labels[-1:]} ({len(labels)})")
            if name != "time" and units is not None:
                ctx.soft(mon.quant_same(coord.units, dc.get_quantity(units)), f"{tag}-units", lambda: f"{made.fmt}: {name} in {coord.units}, file says {units}")
        for key, val in exp.attrs.items():
            ctx.soft(expected_attr(p.attrs, key, val), f"{tag}-metadata", lambda: f"{made.fmt} {made.version}: {key} is {p.attrs.get(key)!r}, file says {val!r}")


def check_summary(ctx, made, attrs, p, tag="scan"):
    """A scan result against the patch which reading gives."""
    ctx.soft(tuple(attrs.dim_tuple) == p.dims, f"{tag}-dims", lambda: f"{made.fmt}: scan {attrs.dim_tuple}, read {p.dims}")
    sums, coords = attrs.coords, p.coords.coord_map
    ctx.soft(set(sums) == set(coords), f"{tag}-coord-names", lambda: f"{made.fmt}: scan {sorted(sums)}, read {sorted(coords)}")
    for name in set(sums) & set(coords):
        a = sums[name].to_summary() if hasattr(sums[name], "to_summary") else sums[name]
        b = coords[name].to_summary()
        for key in ("min", "max", "step", "units", "dtype", "len"):
            x, y = getattr(a, key, None), getattr(b, key, None)
            same = (mon.quant_same(x, y) if key == "units" else str(x) == str(y) if key == "dtype" else attr_same(x, y))
            ctx.soft(same, f"{tag}-coord-{key}", lambda: f"{made.fmt} {made.version}: {name} {key}: scan {x!r}, read {y!r}")
    da, db = attrs.model_dump(), p.attrs.model_dump()
    for key in sorted((set(da) | set(db)) - {"coords", "dims", "path", "file_format", "file_version", "history"}):
        x, y = da.get(key), db.get(key)
        same = mon.quant_same(dc.get_quantity(x), dc.get_quantity(y)) if key.endswith("units") else attr_same(x, y)
        ctx.soft(same, f"{tag}-metadata", lambda: f"{made.fmt} {made.version}: {key}: scan {x!r}, read {y!r}")


def same_patch(ctx, made, got, want, tag, what):
    """Two patches from the same file have the same contents."""
    if not ctx.soft(got.dims == want.dims and got.shape == want.shape, f"{tag}-shape", lambda: f"{made.fmt} {what}: {got.dims}{got.shape} vs {want.dims}{want.shape}"):
        return
    ctx.soft(np.array_equal(got.data, want.data, equal_nan=got.data.dtype.kind == "f"), f"{tag}-data", lambda: f"{made.fmt} {what}: data differ")
    ctx.soft(got.data.dtype == want.data.dtype, f"{tag}-dtype", lambda: f"{made.fmt} {what}: {got.data.dtype} vs {want.data.dtype}")
    ctx.soft(set(got.coords.coord_map) == set(want.coords.coord_map), f"{tag}-coord-names", lambda: f"{made.fmt} {what}: {sorted(got.coords.coord_map)} {sorted(want.coords.coord_map)}")
    for name in set(got.coords.coord_map) & set(want.coords.coord_map):
        a, b = got.coords.coord_map[name], want.coords.coord_map[name]
        same = a.shape == b.shape and mon.quant_same(a.units, b.units) and got.coords.dim_map[name] == want.coords.dim_map[name]
        if same and a.dtype.kind in "mM":
            same = a.values.dtype.kind == b.values.dtype.kind and (not len(a) or np.abs((a.values - b.values).astype("timedelta64[ns]").astype(np.int64)).max() <= 1)
        elif same:
            same = np.allclose(a.values.astype(float), b.values.astype(float), rtol=1e-9, atol=1e-9, equal_nan=True) if a.dtype.kind in "iuf" else np.array_equal(a.values, b.values)
        ctx.soft(same, f"{tag}-labels", lambda: f"{made.fmt} {what}: {name}: {a.values[:3]} vs {b.values[:3]} ({len(a)}, {len(b)}) units {a.units} {b.units}")
    da, db = got.attrs.model_dump(), want.attrs.model_dump()
    for key in sorted((set(da) | set(db)) - {"coords", "history", "dims"}):
        ctx.soft(attr_same(da.get(key), db.get(key)), f"{tag}-metadata", lambda: f"{made.fmt} {what}: {key}: {da.get(key)!r} vs {db.get(key)!r}")


def ordered(patches):
    """Patches in a repeatable order (directory formats have none)."""
    return sorted(patches, key=lambda p: p.get_coord("time").min())


def made_by_library(rng, folder):
    """A file written by the library."""
    fmt = gen.pick(rng, ["DASDAE", "DASDAE", "PICKLE"])
    n = 1 if gen.chance(rng, 0.5) else 3
    patches = []
    for num in range(n):
        p, _ = gen.patch(rng, ndim=gen.pick(rng, [1, 2, 2, 3]), sizes=(2, 12), extra=2, with_attrs=True, data_dtypes=("float64", "float32", "int32"), names=("time", "distance", "depth", "channel"),
                         dim_dtypes={"time": ("time",)})
        patches.append(p.update_attrs(tag=f"t{num}"))
    path = folder / f"lib.{'pkl' if fmt == 'PICKLE' else 'h5'}"
    dc.spool(patches).io.write(path, fmt) if False else dc.write(dc.spool(patches), path, fmt)
    exps = [files.Exp(p.dims, np.asarray(p.data), {}, {"tag": p.attrs.tag}) for p in patches]
    version = dc.get_format(path)[1]
    common = set.intersection(*[set(p.dims) for p in patches])
    return files.Made(fmt, version, path, exps, ranged=tuple(sorted(common & {"time", "distance"})))


def build(rng, ctx, folder, big=False):
    num = ctx.index % (len(VENDOR) + 1)
    if num == len(VENDOR) and not big:
        made = made_by_library(rng, folder)
    else:
        made = files.make(VENDOR[num % len(VENDOR)], rng, folder, stem=gen.pick(rng, ["file", "a b", "raw_1"]), big=big)
    ctx.note(format=f"{made.fmt} {made.version}")
    return made


def read_all(made, **kwargs):
    out = list(dc.read(made.path, **kwargs))
    if made.fmt == "XMLBinary":
        out = ordered(out)
    elif made.fmt in {"DASDAE", "PICKLE"} and out:
        out = sorted(out, key=lambda p: p.attrs.tag)
    return out


@family("P11", "one_file", quick=368, thorough=4000, timeout=120)
def one_file(rng, ctx):
    with files.folder() as folder:
        made = build(rng, ctx, folder)
        ctx.soft(dc.get_format(made.path) == (made.fmt, made.version), "format", lambda: f"{dc.get_format(made.path)} for {made.fmt} {made.version}")
        scanned = dc.scan(made.path)
        patches = read_all(made)
        check_expected(ctx, made, patches, "read")
        if made.fmt == "XMLBinary":
            scanned = sorted(scanned, key=lambda a: a.coords["time"].min)
        elif made.fmt in {"DASDAE", "PICKLE"}:
            scanned = sorted(scanned, key=lambda a: a.tag)
        if ctx.soft(len(scanned) == len(patches), "scan-count", lambda: f"{made.fmt}: scan lists {len(scanned)}, read gives {len(patches)}"):
            for attrs, p in zip(scanned, patches):
                check_summary(ctx, made, attrs, p)
                ctx.cover(made.fmt, made.version, p.dims, shape_class(p))
                ok = os.path.realpath(str(attrs.path)).startswith(os.path.realpath(made.path))
                ctx.soft(ok and attrs.file_format == made.fmt and str(attrs.file_version) == made.version, "scan-source",
                          lambda: f"{made.fmt} {made.version}: {attrs.path!r} {attrs.file_format!r} {attrs.file_version!r}")
        # with the format given, and by way of a spool
        again = read_all(made, file_format=made.fmt, file_version=made.version)
        if ctx.soft(len(again) == len(patches), "read-hint-count", lambda: f"{made.fmt}"):
            for a, b in zip(again, patches):
                same_patch(ctx, made, a, b, "read-hint", "")
        spool = dc.spool(made.path)
        spooled = [x for x in spool]
        if made.fmt == "XMLBinary":
            spooled = ordered(spooled)
        elif made.fmt in {"DASDAE", "PICKLE"}:
            spooled = sorted(spooled, key=lambda p: p.attrs.tag)
        if ctx.soft(len(spooled) == len(patches), "spool-count", lambda: f"{made.fmt}: {len(spooled)} vs {len(patches)}"):
            for a, b in zip(spooled, patches):
                same_patch(ctx, made, a, b, "spool", "via spool")
        df = dc.scan_to_df(made.path)
        ctx.soft(len(df) == len(patches), "table-count", lambda: f"{made.fmt}: {len(df)}")


def some_range(rng, coord):
    """A range request for a coordinate and a word for it."""
    vals = coord.values
    n = len(vals)
    lo, hi = sorted(int(x) for x in rng.integers(0, n, 2))
    is_time = vals.dtype.kind == "M"
    step = (vals[1] - vals[0]) if n > 1 else (np.timedelta64(1, "s") if is_time else 1.0)
    span = vals.max() - vals.min() + (np.timedelta64(1, "s") if is_time else 1)
    half = step // 2 if is_time else step / 2
    kind = gen.pick(rng, ["exact", "exact", "between", "open-left", "open-right", "before", "after", "around", "single", "gap"])
    a, b = vals[lo], vals[hi]
    if kind == "between":
        a, b = a - half, b + half
    elif kind == "open-left":
        a = gen.pick(rng, [None, ...])
    elif kind == "open-right":
        b = gen.pick(rng, [None, ...])
    elif kind == "before":
        a, b = vals.min() - span * 3, vals.min() - span * 2
    elif kind == "after":
        a, b = vals.max() + span * 2, vals.max() + span * 3
    elif kind == "around":
        a, b = vals.min() - span, vals.max() + span
    elif kind == "single":
        b = a
    elif kind == "gap":
        quarter = half // 2 if is_time else half / 2
        a, b = a + quarter, a + half
    if is_time and a is not None and b is not None and a is not ... and b is not ... and gen.chance(rng, 0.3):
        # a reversed pair of strings and so on is not meant here; only the form of the time changes
        form = gen.pick(rng, ["str", "left"])
        a, b = (str(a), str(b)) if form == "str" else (str(a), b)
    elif not is_time and kind not in ("open-left", "open-right"):
        a, b = float(a), float(b)
    if not is_time and a is not None and b is not None and a is not ... and b is not ... and a > b:
        a, b = b, a
    return (a, b), kind


@family("P11", "ranges", quick=368, thorough=4000, timeout=120)
def ranges(rng, ctx):
    with files.folder() as folder:
        made = build(rng, ctx, folder)
        if not made.ranged:
            return ctx.skip("no ranges")
        full = read_all(made)
        for _ in range(5):
            base = full[int(rng.integers(len(full)))]
            dims = [d for d in made.ranged if d in base.dims]
            chosen = [d for d in dims if gen.chance(rng, 0.6)] or dims[:1]
            kwargs, kinds = {}, {}
            for dim in chosen:
                kwargs[dim], kinds[dim] = some_range(rng, base.get_coord(dim))
            ctx.note(kwargs=kwargs)
            want = []
            for p in full:
                sub = p.select(**{k: v for k, v in kwargs.items() if k in p.dims})
                if sub.data.size:
                    want.append(sub)
            got = [p for p in read_all(made, **kwargs) if p.data.size]
            ctx.cover(made.fmt, made.version, tuple(sorted(kinds.items())), len(want) > 0)
            if not ctx.soft(len(got) == len(want), "range-count", lambda: f"{made.fmt} {made.version} {kwargs}: {len(got)} patches, selecting gives {len(want)}; shapes {[p.shape for p in got]} {[p.shape for p in want]}"):
                continue
            for a, b in zip(got, want):
                same_patch(ctx, made, a, b, "range", f"{made.version} {kwargs}")


@family("P11", "directory", quick=40, thorough=600, timeout=120)
def directory(rng, ctx):
    """The listing of a directory with files of many formats."""
    with files.folder() as folder:
        names = [str(x) for x in rng.permutation([x for x in VENDOR if x != "XMLBinary"])[: int(rng.integers(2, 7))]]
        mades = []
        for num, name in enumerate(names):
            sub = folder if gen.chance(rng, 0.7) else folder / f"sub{num % 2}"
            sub.mkdir(exist_ok=True)
            mades.append(files.make(name, rng, sub, stem=f"f{num}"))
        if gen.chance(rng, 0.5):
            mades.append(files.make("XMLBinary", rng, folder, stem="xml"))
        ctx.note(formats=[m.fmt for m in mades])
        scanned = dc.scan(folder)
        want = {}
        for m in mades:
            for p in dc.read(m.path):
                key = (m.fmt, m.version, str(p.get_coord("time").min()), str(p.get_coord("time").max()), p.dims)
                want[key] = want.get(key, 0) + 1
        got = {}
        for a in scanned:
            key = (a.file_format, str(a.file_version), str(a.coords["time"].min), str(a.coords["time"].max), tuple(a.dim_tuple))
            got[key] = got.get(key, 0) + 1
        ctx.cover(tuple(sorted(m.fmt for m in mades)))
        ctx.soft(got == want, "directory-scan", lambda: f"missing {[k for k in want if got.get(k) != want[k]]} extra {[k for k in got if want.get(k) != got[k]]}")
        df = dc.spool(folder).update(progress=None).get_contents() if gen.chance(rng, 0.5) else dc.scan_to_df(folder)
        ctx.soft(len(df) == sum(want.values()), "directory-table", lambda: f"{len(df)} rows for {sum(want.values())} patches")


def taken():
    """Bytes this process has read so far."""
    with open("/proc/self/io") as fh:
        for line in fh:
            if line.startswith("rchar"):
                return int(line.split()[1])
    return None


@family("P11", "no_load", quick=46, thorough=300, timeout=120)
def no_load(rng, ctx):
    """Scanning takes only a small part of a large file."""
    with files.folder() as folder:
        num = ctx.index % len(VENDOR)
        if VENDOR[num] in ("febus_g1_csv",):
            return ctx.skip("text")
        made = files.make(VENDOR[num], rng, folder, big=True)
        ctx.note(format=made.fmt)
        paths = [x for x in made.path.rglob("*") if x.is_file()] if made.path.is_dir() else [made.path]
        size = sum(x.stat().st_size for x in paths)
        data = sum(e.data.nbytes for e in made.patches)
        if made.fmt in ("SR4731", "segy"):  # documented to be small files read whole
            ctx.count("whole-file formats")
        before = taken()
        scanned = dc.scan(made.path, file_format=made.fmt, file_version=made.version)
        used = taken() - before
        ctx.soft(len(scanned) == len(made.patches), "big-count", lambda: f"{len(scanned)}")
        ctx.cover(made.fmt)
        ctx.count("bytes in files", size)
        ctx.count("bytes read by scan", used)
        if made.fmt not in ("SR4731",) and data > 200_000:
            ctx.soft(used < 0.5 * data, "scan-loads", lambda: f"{made.fmt}: scanning took {used} bytes of {size} (data {data})")
