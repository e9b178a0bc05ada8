"""P10: written patches read back identically."""
from __future__ import annotations

import warnings

import numpy as np

import dascore as dc
from vf import boot, gen, mon
from vf.core import describe, family

describe(
    "P10",
    "Random patches (1-4 dimensions, all supported data and label types, even, irregular, reversed, one-sample and empty dimensions, attached and "
    "dimension-less coordinates, units, custom metadata) are written with every writer and read back; a monitor compares values, types, dimensions, every "
    "coordinate (labels, units, dimensions, spacing) and metadata. Files receive several patches, in one or several calls, from every kind of spool, "
    "including patches which share names and times; after each write a monitor checks that each patch written so far is in the file exactly once "
    "and unchanged, and that the others are bit-identical. SEG-Y is compared within its number format; RSF and WAV files are read by the harness's own "
    "readers. Non-trivial: distinct by (format, patch shape and types, write sequence).",
    ["SEG-Y stores whole microsecond steps, start seconds and single precision", "RSF and WAV have no reader in the library; the harness parses them itself"],
)


def attr_diff(a, b, skip=()):
    """Names of attributes which differ."""
    da, db = a.model_dump(), b.model_dump()
    out = []
    for key in sorted(set(da) | set(db)):
        if key in skip or key == "coords":
            continue
        x, y = da.get(key), db.get(key)
        if key == "history":
            x, y = tuple(x or ()), tuple(y or ())
        if key.endswith("units"):
            if not mon.quant_same(x, y):
                out.append((key, x, y))
            continue
        try:
            ok = mon.scalar_same(x, y) or mon.same(x, y)
        except Exception:
            ok = x == y
        if not ok and not (np.ndim(x) == 0 and np.ndim(y) == 0 and x != x and y != y):
            out.append((key, x, y))
    return out


def compare(ctx, got, want, what, skip=()):
    """Two patches are the same in every observable respect."""
    ctx.check(got.dims == want.dims, "dims", lambda: f"{what}: {got.dims} want {want.dims}")
    ctx.check(got.data.dtype == want.data.dtype, "dtype", lambda: f"{what}: {got.data.dtype} want {want.data.dtype}")
    ctx.check(mon.same(got.data, want.data), "data", lambda: f"{what}: {np.ravel(got.data)[:8]} want {np.ravel(want.data)[:8]}")
    ctx.check(set(got.coords.coord_map) == set(want.coords.coord_map), "coord-names", lambda: f"{what}: {sorted(got.coords.coord_map)} want {sorted(want.coords.coord_map)}")
    for name, c in want.coords.coord_map.items():
        g = got.coords.coord_map[name]
        ctx.check(tuple(got.coords.dim_map[name]) == tuple(want.coords.dim_map[name]), "coord-dims", lambda: f"{what}: {name} {got.coords.dim_map[name]} want {want.coords.dim_map[name]}")
        ctx.check(g.shape == c.shape and g.dtype == c.dtype, "coord-type", lambda: f"{what}: {name} {g.dtype}{g.shape} want {c.dtype}{c.shape}")
        gv, cv = np.asarray(g.values), np.asarray(c.values)
        ok = mon.close(gv, cv, rtol=1e-12, atol=1e-12) if cv.dtype.kind == "f" else mon.same(gv, cv)
        ctx.check(ok, "coord-values", lambda: f"{what}: {name} {gv.ravel()[:6]} want {cv.ravel()[:6]}")
        ctx.check(mon.quant_same(g.units, c.units), "coord-units", lambda: f"{what}: {name} {g.units} want {c.units}")
        if c.evenly_sampled and len(c) > 1 and name in want.dims:
            ctx.check(g.evenly_sampled and (g.step == c.step or np.isclose(g.step / c.step, 1.0)), "coord-step", lambda: f"{what}: {name} {g} want {c}")
    bad = attr_diff(got.attrs, want.attrs, skip)
    ctx.check(not bad, "attrs", lambda: f"{what}: {bad}")
    ctx.check(got == want, "equality", lambda: f"{what}: {got} {want}")
    for mech, text in mon.structure_problems(got):
        ctx.check(False, f"structure-{mech}", lambda: f"{what}: {text}")


DATA = ("float64", "float32", "int64", "int32", "int16", "uint8", "complex128", "bool")


def rich(rng, **kw):
    p, info = gen.patch(rng, data_dtypes=DATA, **kw)
    new = {}
    if gen.chance(rng, 0.4):
        new = {k: v for k, v in (("my_str", "hello, wörld"), ("my_int", 3), ("my_float", 1.5), ("my_bool", True), ("my_none", None), ("empty", ""),
                                 ("my_time", np.datetime64("2020-01-01T00:00:00.123456789")), ("my_list", [1, 2, 3]), ("my_tuple", ("a", "b")), ("my_dict", {"a": 1})) if gen.chance(rng, 0.4)}
    if new:
        p = p.update_attrs(**new)
    return p


@family("P10", "dasdae", quick=500, thorough=6000, timeout=300)
def dasdae(rng, ctx):
    p = rich(rng)
    how = gen.pick(rng, ["write", "io", "spool", "list"])
    with boot.scratch_dir() as path:
        f = path / gen.pick(rng, ["a.h5", "a.hdf5", "noext", "x.y.z"])
        what = f"dasdae {how} {gen.describe(p)}"
        ctx.note(what=what)
        if how == "write":
            dc.write(p, f, gen.pick(rng, ["dasdae", "DASDAE"]))
        elif how == "io":
            p.io.write(f, "dasdae")
        elif how == "spool":
            dc.write(dc.spool(p), f, "dasdae", file_version="1")
        else:
            dc.write(dc.spool([p]), str(f), "dasdae")
        got = gen.pick(rng, [lambda: dc.read(f), lambda: dc.spool(f), lambda: dc.read(f, file_format="dasdae"), lambda: dc.read(f, "DASDAE", "1"), lambda: dc.spool(str(f))])()
        ctx.check(len(got) == 1, "count", lambda: f"{what}: {len(got)}")
        compare(ctx, got[0], p, what)
        ctx.cover("dasdae", how, p.shape, str(p.data.dtype), tuple(sorted(str(c.dtype) for c in p.coords.coord_map.values())))


@family("P10", "pickle", quick=200, thorough=2500, timeout=300)
def pickle_(rng, ctx):
    n = int(rng.integers(1, 4))
    ps = [rich(rng) for _ in range(n)]
    with boot.scratch_dir() as path:
        f = path / gen.pick(rng, ["a.pkl", "b", "c.h5"])
        dc.write(ps[0] if n == 1 and gen.chance(rng, 0.5) else dc.spool(ps), f, "pickle")
        got = list(gen.pick(rng, [lambda: dc.read(f), lambda: dc.spool(f)])())
        ctx.check(len(got) == n, "count", lambda: f"pickle: {len(got)} of {n}")
        for g, p in zip(got, ps):
            compare(ctx, g, p, f"pickle {gen.describe(p)}")
        ctx.cover("pickle", n, ps[0].shape, str(ps[0].data.dtype))


def similar(rng, base, k):
    """Patches which differ only a little from one another, so that names may collide."""
    out = [base]
    how = gen.pick(rng, ["tag", "time-ns", "distance", "units", "history", "custom", "dims", "shape"])
    for i in range(1, k):
        if how == "tag":
            p = base.update_attrs(tag=f"t{i}")
        elif how == "time-ns":
            c = base.get_coord("time")
            p = base.update_coords(time=c.update_limits(min=c.min() + np.timedelta64(i, "ms")))
        elif how == "distance":
            c = base.get_coord("distance")
            p = base.update_coords(distance=c.update_limits(min=c.min() + i * 100.0))
        elif how == "units":
            p = base.update_attrs(data_units=["m", "m/s", "m/s^2", "strain"][i % 4])
        elif how == "history":
            p = base.update_attrs(history=[f"step {i}"])
        elif how == "custom":
            p = base.update_attrs(my_attr=i)
        elif how == "dims":
            p = base.transpose() if i % 2 else base.update_attrs(station=f"s{i}")
        else:
            p = base.select(distance=(0, max(1, base.shape[base.dims.index("distance")] - i)), samples=True)
        out.append(p.update(data=np.asarray(p.data) + 1000.0 * i))
    seen, uniq = set(), []
    for p in out:
        key = (repr(attr_diff(p.attrs, dc.PatchAttrs())), p.dims, tuple(map(tuple, ((n, str(c.values)) for n, c in p.coords.coord_map.items()))))
        if key not in seen:
            seen.add(key)
            uniq.append(p)
    return uniq, how


def plain(rng, start=None):
    nt, nd = int(rng.integers(2, 7)), int(rng.integers(2, 5))
    dims = ("time", "distance") if gen.chance(rng, 0.5) else ("distance", "time")
    start = start or np.datetime64("2020-05-06T07:08:09", "ns") + np.timedelta64(int(rng.integers(0, 3)) * 250, "ms")
    coords = {"time": dc.get_coord(start=start, step=np.timedelta64(int(gen.pick(rng, [10**9, 10**7, 10**5])), "ns"), shape=nt, units="s"),
              "distance": dc.get_coord(start=0.0, step=1.0, shape=nd, units="m")}
    data = np.arange(nt * nd, dtype=float).reshape((nt, nd) if dims[0] == "time" else (nd, nt)) + float(rng.integers(0, 100)) * 100
    return dc.Patch(data=data, coords=coords, dims=dims, attrs=dict(tag="x", station=gen.pick(rng, ["s", ""]), data_units="m"))


def holds(ctx, f, want, what):
    """The file has exactly these patches."""
    got = list(dc.read(f))
    scan = dc.scan(f)
    ctx.check(len(got) == len(want), "file-count", lambda: f"{what}: {len(got)} patches in file, {len(want)} written")
    ctx.check(len(scan) == len(want), "file-scan-count", lambda: f"{what}: {len(scan)} scanned, {len(want)} written")
    pool = list(got)
    for p in want:
        hit = next((g for g in pool if g == p and mon.same(g.data, p.data)), None)
        if hit is None:
            near = next((g for g in pool if mon.same(g.data, p.data)), None)
            if near is not None:
                compare(ctx, near, p, what)
        ctx.check(hit is not None, "file-lost", lambda: f"{what}: a written patch is not in the file ({p.attrs.tag} {p.shape})")
        pool.remove(hit)
        ctx.count("patches")


@family("P10", "several", quick=220, thorough=2500, timeout=300)
def several(rng, ctx):
    """Several patches in one file, in one or several calls, some of them again."""
    ps, how = similar(rng, plain(rng), int(rng.integers(2, 6)))
    with boot.scratch_dir() as path:
        f = path / "a.h5"
        done = []
        todo = [ps[i] for i in rng.permutation(len(ps))]
        calls = []
        while todo:
            k = int(rng.integers(1, len(todo) + 1))
            part, todo = todo[:k], todo[k:]
            if done and gen.chance(rng, 0.3):
                part = part + [gen.pick(rng, done)]
            dc.write(dc.spool(part) if k > 1 or len(part) > 1 or gen.chance(rng, 0.5) else part[0], f, "dasdae")
            calls.append(len(part))
            done += [p for p in part if not any(p is x for x in done)]
            holds(ctx, f, done, f"{how} calls {calls}")
        ctx.cover(how, tuple(calls), len(ps))


@family("P10", "spools", quick=200, thorough=2500, timeout=300)
def spools(rng, ctx):
    """Writing spools which are themselves backed by files."""
    kind = gen.pick(rng, ["file", "directory", "chunked-file", "chunked-memory", "selected", "sorted"])
    base = plain(rng)
    ps = []
    step = base.get_coord("time").step
    n = base.shape[base.dims.index("time")]
    for i in range(int(rng.integers(1, 5))):
        c = base.get_coord("time")
        q = base.update_coords(time=c.update_limits(min=c.min() + i * n * step)).update_attrs(history=())
        ps.append(q.update(data=np.asarray(q.data) + 1000.0 * i))
    with boot.scratch_dir() as path:
        src = path / "src"
        src.mkdir()
        if kind in ("file", "chunked-file"):
            dc.write(dc.spool(ps), src / "a.h5", "dasdae")
            spool = dc.spool(src / "a.h5")
        elif kind == "directory":
            for i, p in enumerate(ps):
                dc.write(p, src / f"f{i}.h5", "dasdae")
            spool = dc.spool(src).update(progress=None)
        else:
            spool = dc.spool(ps)
        if kind.startswith("chunked"):
            spool = spool.chunk(time=2 * step, keep_partial=True)
        elif kind == "selected":
            c = base.get_coord("time")
            spool = spool.select(time=(c.min() + step, None))
        elif kind == "sorted":
            spool = dc.spool(ps[::-1]).sort("time")
        want = list(spool)
        f = path / "out.h5"
        dc.write(spool, f, "dasdae")
        what = f"{kind} of {len(ps)}"
        ctx.note(what=what)
        got = list(dc.read(f))
        ctx.check(len(got) == len(want), "file-count", lambda: f"{what}: {len(got)} of {len(want)} patches written")
        holds(ctx, f, want, what)
        ctx.cover(kind, len(ps), len(want))


@family("P10", "overwrite", quick=120, thorough=1200, timeout=300)
def overwrite(rng, ctx):
    """Writing the same patch again with other data replaces that patch only."""
    ps, how = similar(rng, plain(rng), int(rng.integers(2, 5)))
    with boot.scratch_dir() as path:
        f = path / "a.h5"
        dc.write(dc.spool(ps), f, "dasdae")
        k = int(rng.integers(0, len(ps)))
        new = ps[k].update(data=np.asarray(ps[k].data) * -1 - 5)
        dc.write(new, f, "dasdae")
        got = list(dc.read(f))
        for i, p in enumerate(ps):
            if i != k:
                ctx.check(any(g == p and mon.same(g.data, p.data) for g in got), "neighbour-altered", lambda: f"{how}: patch {i} changed when patch {k} was written again")
        ctx.check(any(g == new and mon.same(g.data, new.data) for g in got), "rewrite-lost", lambda: f"{how}: rewritten patch {k} not found")
        ctx.cover(how, len(ps), k)


@family("P10", "segy", quick=150, thorough=1500, timeout=300)
def segy(rng, ctx):
    nt, nc = int(rng.integers(2, 40)), int(rng.integers(1, 8))
    other = gen.pick(rng, ["channel", "distance"])
    dims = ("time", other) if gen.chance(rng, 0.5) else (other, "time")
    us = int(gen.pick(rng, [1, 2, 100, 1000, 4000, 10000, 20000]))
    start = np.datetime64("2019-01-01T00:00:00", "ns") + np.timedelta64(int(rng.integers(0, 86400 * 366)), "s")
    oc = np.arange(nc) if other == "channel" else np.arange(nc) * 2.0
    ints = gen.chance(rng, 0.5)
    data = rng.integers(-10**5, 10**5, (nt, nc)).astype(float) if ints else rng.normal(size=(nt, nc)) * 10.0 ** int(rng.integers(-6, 6))
    arr = data if dims[0] == "time" else data.T
    p = dc.Patch(data=arr.astype(gen.pick(rng, ["float64", "float32"])), dims=dims, coords={"time": dc.get_coord(start=start, step=np.timedelta64(us * 1000, "ns"), shape=nt, units="s"), other: oc})
    ver = gen.pick(rng, ["1.0", "2.0", "2.1", "0.0"])
    what = f"segy {ver} {dims} {nt}x{nc} step {us} us start {start}"
    ctx.note(what=what)
    with boot.scratch_dir() as path:
        f = path / "a.segy"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            dc.write(p, f, "segy", ver)
        fmt = dc.get_format(f)
        ctx.check(fmt[0].lower() == "segy" and fmt[1] == ver, "segy-format", lambda: f"{what}: {fmt}")
        got = dc.read(f)[0]
        ctx.check(set(got.dims) == {"time", "channel"}, "segy-dims", lambda: f"{what}: {got.dims}")
        g = got.transpose("time", "channel")
        ctx.check(g.shape == (nt, nc), "segy-shape", lambda: f"{what}: {g.shape}")
        tol = np.abs(data).max() * 0 + 2e-6 * np.abs(data)
        ctx.check(np.all(np.abs(g.data - data) <= (0 if ints else tol)), "segy-data", lambda: f"{what}: {np.abs(g.data - data).max()}")
        t = np.asarray(g.get_array("time"))
        ctx.check(mon.same(t, np.asarray(p.get_array("time"))), "segy-time", lambda: f"{what}: {t[:3]}")
        ctx.check(mon.same(np.asarray(g.get_array("channel")), np.arange(nc)), "segy-channel", what)
    ctx.cover("segy", ver, dims, nt, nc, us)


def read_rsf(path):
    raw = path.read_bytes()
    head, _, tail = raw.partition(b'in="stdin"\n\n')
    kv = {}
    for line in head.decode().splitlines()[1:]:
        if "=" in line:
            k, v = line.strip().split("=", 1)
            kv[k] = v.strip('"')
    return kv, tail


@family("P10", "rsf", quick=150, thorough=1500)
def rsf(rng, ctx):
    nt, nd = int(rng.integers(1, 9)), int(rng.integers(1, 7))
    dims = ("time", "distance") if gen.chance(rng, 0.5) else ("distance", "time")
    shape = (nt, nd) if dims[0] == "time" else (nd, nt)
    step = np.timedelta64(int(gen.pick(rng, [10**9, 4 * 10**6, 5 * 10**8])), "ns")
    start = np.datetime64("2020-01-02T03:04:05.5", "ns")
    coords = {"time": dc.get_coord(start=start, step=step, shape=nt, units="s"), "distance": dc.get_coord(start=3.0, step=0.5, shape=nd, units="m")}
    data = rng.integers(-1000, 1000, shape).astype(gen.pick(rng, ["float32", "float64", "int32"]))
    p = dc.Patch(data=gen.layout(rng, data), coords=coords, dims=dims)
    with boot.scratch_dir() as path:
        f = path / "a.rsf"
        sep = gen.chance(rng, 0.3)
        dc.write(p, f, "rsf", **({"data_path": path / "d"} if sep else {}))
        what = f"rsf {dims} {shape} {data.dtype} sep={sep}"
        ctx.note(what=what)
        if sep:
            kv = {}
            for line in f.read_text().splitlines()[1:]:
                if "=" not in line:
                    continue
                k, v = line.strip().split("=", 1)
                kv[k] = v.strip('"')
            tail = open(kv["in"], "rb").read()
        else:
            kv, tail = read_rsf(f)
        ctx.check(len(tail) == 4 * data.size, "rsf-size", lambda: f"{what}: {len(tail)} bytes")
        got = np.frombuffer(tail, dtype=np.float32).reshape([int(kv[f"n{i + 1}"]) for i in range(2)], order="F")
        ctx.check(mon.same(got, data.astype("float32")), "rsf-data", what)
        for i, dim in enumerate(dims):
            c = coords[dim]
            ctx.check(kv[f"label{i + 1}"] == dim and int(kv[f"n{i + 1}"]) == len(c), "rsf-axis", lambda: f"{what}: {kv}")
            d = float(c.step / np.timedelta64(1, "s")) if dim == "time" else c.step
            ctx.check(np.isclose(float(kv[f"d{i + 1}"]), d, rtol=1e-9), "rsf-step", lambda: f"{what}: {kv}")
            if dim == "distance":
                ctx.check(float(kv[f"o{i + 1}"]) == 3.0, "rsf-origin", lambda: f"{what}: {kv}")
            else:
                ref = (start - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                ctx.check(np.isclose(float(kv["starttime"]) + float(kv[f"o{i + 1}"]), ref, rtol=1e-12), "rsf-start", lambda: f"{what}: {kv}")
    ctx.cover("rsf", dims, shape, str(data.dtype), sep)


@family("P10", "wav", quick=120, thorough=1200)
def wav(rng, ctx):
    from scipy.io import wavfile

    nt, nd = int(rng.integers(8, 60)), int(rng.integers(1, 6))
    dims = ("time", "distance") if gen.chance(rng, 0.5) else ("distance", "time")
    sr = int(gen.pick(rng, [100, 250, 1000, 1]))
    coords = {"time": dc.get_coord(start=np.datetime64("2020-01-02", "ns"), step=np.timedelta64(10**9 // sr, "ns"), shape=nt, units="s"), "distance": dc.get_coord(start=3.0, step=0.5, shape=nd, units="m")}
    data = rng.normal(size=(nt, nd))
    p = dc.Patch(data=data if dims[0] == "time" else data.T, coords=coords, dims=dims)
    x = np.arange(nt)
    ref = np.stack([c - np.polyval(np.polyfit(x, c, 1), x) for c in data.T], axis=1)
    ref = ref / np.abs(ref).max(axis=0)
    with boot.scratch_dir() as path:
        single = gen.chance(rng, 0.5)
        what = f"wav {dims} {nt}x{nd} sr={sr} single={single}"
        ctx.note(what=what)
        f = path / ("a.wav" if single else "out")
        dc.write(p, f, "wav")
        if single:
            rate, got = wavfile.read(f)
            got = got.reshape(nt, -1)
        else:
            cols, rates = [], set()
            files = list(f.iterdir())
            ctx.check(len(files) == nd, "wav-files", lambda: f"{what}: {[x.name for x in files]}")
            for v in coords["distance"].values:
                r, c = wavfile.read(f / f"distance_{v}.wav")
                rates.add(r)
                cols.append(c)
            got, rate = np.stack(cols, axis=1), rates.pop()
        ctx.check(rate == sr, "wav-rate", lambda: f"{what}: {rate}")
        ctx.check(got.shape == ref.shape and mon.close(got, ref, rtol=1e-5, atol=1e-5), "wav-data", what)
    ctx.cover("wav", dims, nt, nd, sr, single)


