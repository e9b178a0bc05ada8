"""P05: coordinates faithfully represent their values."""
from __future__ import annotations

import numpy as np
import pandas as pd

import dascore as dc
from dascore.core.coords import get_coord
from vf import gen, mon
from vf.core import describe, family

describe(
    "P05",
    "Coordinates of every dtype, direction, regularity, length (0, 1, 2, ..., 1e5) and magnitude are built from arrays and from "
    "start/stop/step(/shape); the monitor compares every observable attribute and the result of every coordinate operation (indexing, "
    "slicing, sort, snap, update, change_length, units, index lookup, sample counts, reduction, alignment, summaries) and of chains of "
    "them with the same operation on the plain NumPy array. Non-trivial: distinct by (dtype, kind, length class, operation, outcome).",
    ["float labels of even coordinates may differ by rounding of order 1e-12 relative to the extent; arrays whose spacing varies by less than 0.1% are snapped (documented)"],
)

KINDS = ("even", "even-desc", "mono", "mono-desc", "unsorted", "dup")
DT = ("float", "time", "delta", "int")


def tol(vals):
    vals = np.asarray(vals)
    if vals.dtype.kind != "f" or not vals.size:
        return 0.0
    v = np.abs(vals[~np.isnan(vals)])
    return 1e-12 * float(v.max()) if v.size else 0.0


def eq(a, b, extra=1.0, scale=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        if a.dtype.kind not in "iuf" or b.dtype.kind not in "iuf":
            return False
        return bool(np.allclose(a, b, rtol=1e-11, atol=extra * max(tol(b), scale * 1e-12) + 1e-300, equal_nan=True))
    return mon.same(a, b)


def audit(ctx, coord, vals, what, units="skip"):
    """Every observable against the array it stands for."""
    vals = np.asarray(vals)
    n = len(vals)
    big = tol(vals) * 1e12  # largest magnitude of float labels and step
    if vals.dtype.kind == "f" and coord.step is not None and not pd.isnull(coord.step):
        big = max(big, abs(float(coord.step)))
    got = np.asarray(coord.values)
    ctx.check(eq(got, vals, 1, big), "values", lambda: f"{what}: {got} want {vals}")
    ctx.check(got.dtype.kind == vals.dtype.kind or not n, "dtype", lambda: f"{what}: {got.dtype} want {vals.dtype}")
    ctx.check(np.dtype(coord.dtype).kind == vals.dtype.kind or not n, "dtype-attr", lambda: f"{what}: {coord.dtype} want {vals.dtype}")
    ctx.check(len(coord) == n and tuple(coord.shape) == (n,) and coord.ndim == 1 and int(coord.size) == n, "length", lambda: f"{what}: len {len(coord)} shape {coord.shape} want {n}")
    ctx.check(bool(coord.degenerate) == (n == 0), "degenerate", lambda: what)
    if units != "skip":
        ctx.check(mon.quant_same(coord.units, units), "units", lambda: f"{what}: {coord.units} want {units}")
    ctx.check(mon.same(np.asarray(coord), got) and mon.same(coord.data, got), "array-protocol", what)
    if not n or vals.dtype.kind not in "iufmM" or pd.isnull(vals).all():
        return
    ctx.check(eq(coord.min(), np.asarray(mon._nanmin(vals)), 1, big) and eq(coord.max(), np.asarray(mon._nanmax(vals)), 1, big), "limits", lambda: f"{what}: {coord.min()},{coord.max()} want {vals.min()},{vals.max()}")
    ctx.check(eq(coord.limits[0], coord.min()) and eq(coord.limits[1], coord.max()), "limits-tuple", what)
    for mech, text in mon.coord_problems(coord):
        ctx.check(False, f"flag-{mech}", lambda: f"{what}: {text}")
    if n > 1 and not pd.isnull(vals).any():
        d = np.diff(vals)
        zero = np.timedelta64(0, "ns") if d.dtype.kind == "m" else 0
        if (d > zero).all():
            ctx.check(bool(coord.sorted) and not coord.reverse_sorted, "sorted-missed", lambda: what)
        elif (d < zero).all():
            ctx.check(bool(coord.reverse_sorted) and not coord.sorted, "reverse-missed", lambda: what)
        even = (d == d[0]).all() if d.dtype.kind in "im" else np.allclose(d, d[0], rtol=1e-9, atol=0)
        if even and d[0] != zero:
            ctx.check(bool(coord.evenly_sampled), "even-missed", lambda: f"{what}: {coord!r}")
            ctx.check(eq(coord.step, np.asarray(d[0])) or abs(float(coord.step) - float(d[0])) <= 8 * tol(vals) / 1e-12 * 2.3e-16, "step", lambda: f"{what}: {coord.step} want {d[0]}")
        irregular = d.dtype.kind in "im" and abs(d.astype("float64") - np.median(d.astype("float64"))).max() > 0.01 * abs(np.median(d.astype("float64")))
        if irregular:
            ctx.check(not coord.evenly_sampled and (coord.step is None or pd.isnull(coord.step)), "even-invented", lambda: f"{what}: {coord!r}")
        if coord.evenly_sampled:
            rng_ext = np.asarray(vals.max() - vals.min() + np.abs(coord.step))
            ctx.check(eq(coord.coord_range(), rng_ext, 1, big * 4), "coord-range", lambda: f"{what}: {coord.coord_range()} want {rng_ext}")
        ctx.check(eq(coord.coord_range(extend=False), np.asarray(vals.max() - vals.min()), 1, big * 4), "coord-range", lambda: f"{what}")
    s = coord.to_summary()
    ctx.check(mon._summary_eq(s.min, coord.min()) and mon._summary_eq(s.max, coord.max()) and mon._summary_eq(s.step, coord.step), "summary", lambda: f"{what}: {s}")


def make(rng, nmax=9, kinds=KINDS, dts=DT, n=None):
    dtype, kind = gen.pick(rng, dts), gen.pick(rng, kinds)
    n = n if n is not None else gen.pick(rng, [1, 2, 3, int(rng.integers(1, nmax + 1)), int(rng.integers(3, nmax + 1))])
    vals = gen.coord_values(rng, n, dtype, kind)
    units = "s" if dtype in ("time", "delta") else gen.pick(rng, [None, "m", "ft"])
    return vals, units, dtype, kind


def nclass(n):
    return n if n < 4 else ("many" if n < 1000 else "long")


# ------------------------------------------------------------------ construction

@family("P05", "build", quick=6000, thorough=80000)
def build(rng, ctx):
    n = gen.pick(rng, [0, 1, 2, 3, 4, 7, 30, int(rng.integers(2, 400))])
    vals, units, dtype, kind = make(rng, n=n)
    form = gen.pick(rng, ["array", "array", "list", "values", "strided", "readonly", "quantity"])
    arg = vals
    if form == "list" and dtype in ("float", "int") and n:
        arg = vals.tolist()
    elif form == "strided":
        arg = np.repeat(vals, 2)[::2]
    elif form == "readonly":
        arg = vals.copy()
        arg.setflags(write=False)
    keep = np.array(vals)
    if form == "quantity" and dtype in ("float", "int") and units:
        c = get_coord(data=vals * dc.get_unit(units))
    else:
        c = get_coord(**{"values" if form == "values" else "data": arg}, units=units)
    what = f"get_coord({form}, {dtype}, {kind}, n={n})"
    ctx.note(call=what, values=str(keep[:6]))
    audit(ctx, c, keep, what, units if n else "skip")
    c2 = get_coord(data=keep.copy(), units=units)
    ctx.check(c == c2, "rebuilt-unequal", lambda: what)
    again = get_coord(data=c)
    ctx.check(again == c, "coord-of-coord", what)
    ctx.cover(dtype, kind, nclass(n), form)


@family("P05", "range", quick=5000, thorough=60000)
def range_(rng, ctx):
    """start/stop/step, and shape variants, stand for start + k*step."""
    dtype = gen.pick(rng, DT)
    desc = gen.chance(rng, 0.4)
    n = gen.pick(rng, [1, 2, 3, 10, 101, int(rng.integers(1, 5000))])
    vals = gen.EVEN[dtype](rng, max(n, 2), desc)
    step = vals[1] - vals[0] if dtype != "float" else None
    if dtype == "float":
        st = gen.pick(rng, [1.0, 0.5, 0.1, 3.7, 1e-3, 1 / 3, 1e-9, 1e6]) * (-1 if desc else 1)
        start = gen.pick(rng, [0.0, 1.0, -7.3, 1e6, 1e-7])
        start = 0.25 if abs(st) > 1e5 and start else start
        if abs(start) > 1e3 and abs(st) < 1e-6:
            st = 0.25 * np.sign(st)
        step, vals = st, start + np.arange(n) * st
    vals = vals[:n]
    start = vals[0]
    form = gen.pick(rng, ["stop", "stop-short", "shape", "min-max", "shape-stop"])
    if form == "stop":
        c = get_coord(start=start, stop=start + step * n, step=step)
    elif form == "stop-short":
        # a stop inside the last interval still includes the last sample
        frac = 0.5 if dtype in ("float",) else None
        if frac is None:
            st_i = int(np.asarray(step).astype("int64"))
            if abs(st_i) < 10:
                ctx.skip("step too small to cut")
            part = type(np.asarray(step)[()])(st_i // 2) if dtype == "int" else np.timedelta64(st_i // 2, "ns")
            stop = start + step * (n - 1) + part
        else:
            stop = start + step * (n - 1) + step * frac
        c = get_coord(start=start, stop=stop, step=step)
    elif form == "shape":
        c = get_coord(start=start, step=step, shape=gen.pick(rng, [n, (n,)]))
    elif form == "shape-stop":
        c = get_coord(stop=start + step * n, step=step, shape=(n,))
    else:
        c = get_coord(min=start, max=start + step * n, step=step)
    what = f"get_coord({form}, start={start}, step={step}, n={n})"
    ctx.note(call=what)
    audit(ctx, c, vals, what, "s" if dtype in ("time", "delta") else None)
    ctx.check(eq(c.step, np.asarray(step)), "range-step", lambda: f"{what}: {c.step}")
    if n > 1:
        ctx.check(get_coord(data=vals) == c or dtype == "float", "range-vs-array", lambda: what)
    ctx.cover(dtype, desc, form, nclass(n))


@family("P05", "long-exact", quick=300, thorough=3000)
def long_exact(rng, ctx):
    """Labels stay exact far from the origin."""
    n = int(rng.integers(20000, 200000))
    dtype = gen.pick(rng, ["time", "delta", "int", "float"])
    desc = gen.chance(rng, 0.3)
    if dtype == "float":
        step = gen.pick(rng, [0.1, 1e-3, 1 / 3, 0.25, 1.0213]) * (-1 if desc else 1)
        start = gen.pick(rng, [0.0, 1e7, -3e5])
        vals = start + np.arange(n) * step
    else:
        vals = gen.EVEN[dtype](rng, n, desc)
        step = vals[1] - vals[0]
    from_array = gen.chance(rng, 0.5)
    c = get_coord(data=vals) if from_array else get_coord(start=vals[0], stop=vals[0] + step * n, step=step)
    ctx.check(len(c) == n, "long-length", lambda: f"{c} want {n}")
    got = np.asarray(c.values)
    if dtype == "float" and from_array:
        # the step is taken from the spacing of the labels, which are rounded
        err = np.abs(got - vals).max()
        ctx.check(err <= 2 * n * np.spacing(np.abs(vals).max()), "long-values", lambda: f"{c}: error {err}")
        vals = got
    ctx.check(eq(got, vals), "long-values", lambda: f"{c}: first bad {np.flatnonzero(got != vals)[:3]}")
    for k in rng.integers(0, n, 20):
        k = int(k)
        ctx.check(eq(c[k], np.asarray(vals[k])), "long-item", lambda: f"{c}[{k}]={c[k]} want {vals[k]}")
    if not desc:
        ks = np.sort(rng.integers(0, n, 5))
        ctx.check(list(c.get_next_index(vals[ks])) == ks.tolist(), "long-lookup", lambda: f"{c} {ks}")
    a, b = sorted(int(x) for x in rng.integers(0, n, 2))
    ctx.check(eq(c[a:b + 1].values, vals[a:b + 1]), "long-slice", lambda: f"{c}[{a}:{b + 1}]")
    ctx.cover(dtype, desc, str(step))


# ------------------------------------------------------------------ indexing

def rand_index(rng, n):
    form = gen.pick(rng, ["int", "slice", "stride", "rev", "bool", "ints", "ellipsis-slice"])
    if form == "int":
        return int(rng.integers(-n, n)), form
    if form == "slice":
        a, b = (int(x) for x in rng.integers(-n - 1, n + 2, 2))
        return slice(gen.pick(rng, [None, a]), gen.pick(rng, [None, b])), form
    if form == "stride":
        return slice(gen.pick(rng, [None, int(rng.integers(0, n))]), None, int(rng.integers(1, 4))), form
    if form == "rev":
        return slice(None, None, -int(rng.integers(1, 3))), form
    if form == "bool":
        return rng.random(n) < 0.6, form
    if form == "ints":
        return rng.integers(-n, n, int(rng.integers(1, n + 3))), form
    return slice(..., int(rng.integers(1, n + 1))), form


@family("P05", "index", quick=8000, thorough=100000)
def index(rng, ctx):
    vals, units, dtype, kind = make(rng, nmax=12)
    c = get_coord(data=vals, units=units)
    base = np.asarray(c.values)
    n = len(base)
    ind, form = rand_index(rng, n)
    if form == "ellipsis-slice" and not c.evenly_sampled:
        ctx.skip("only ranges take ... in slices")
    np_ind = slice(None, ind.stop) if form == "ellipsis-slice" else ind
    want = base[np_ind]
    what = f"{c!r}[{ind}]"
    ctx.note(call=what)
    got = c[ind]
    if form == "int":
        ctx.check(eq(got, want), "item", lambda: f"{what} = {got} want {want}")
        for bad in (n, -n - 1):
            ctx.raises(lambda: c[bad], "item-out-of-range", IndexError)
    else:
        audit(ctx, got, want, what, units)
        if c.evenly_sampled and isinstance(np_ind, slice) and len(want):
            st = c.step * (np_ind.step or 1)
            ctx.check(got.evenly_sampled and eq(got.step, np.asarray(st)), "slice-step", lambda: f"{what}: {got!r} want step {st}")
    ctx.cover(dtype, kind, nclass(n), form, "one" if np.size(want) == 1 else ("empty" if not np.size(want) else "some"))


# ------------------------------------------------------------------ operations

FACT = {("m", "ft"): 1 / 0.3048, ("ft", "m"): 0.3048, ("m", "km"): 1e-3, ("m", "cm"): 100.0, ("ft", "inch"): 12.0, ("km", "m"): 1e3, ("cm", "m"): 0.01, ("inch", "ft"): 1 / 12}


def op_sort(rng, c, v, u):
    rev = gen.chance(rng, 0.5)
    new, ind = c.sort(reverse=rev)
    w = np.sort(v)[::-1] if rev else np.sort(v)
    assert_ = [("sort-index", eq(v[ind], w), f"reverse={rev} {ind}")]
    return new, w, u, f"sort(reverse={rev})", assert_


def op_update_min(rng, c, v, u):
    if v.dtype.kind in "mM":
        m = v.min() + np.timedelta64(int(rng.integers(-10**12, 10**12)), "ns")
    else:
        m = v.min() + (float(rng.integers(-100, 100)) * 0.5 if v.dtype.kind == "f" else int(rng.integers(-100, 100)))
    which = gen.pick(rng, ["update", "update_limits"])
    return getattr(c, which)(min=m), v + (m - v.min()), u, f"{which}(min={m})", []


def op_update_max(rng, c, v, u):
    if v.dtype.kind in "mM":
        m = v.max() + np.timedelta64(int(rng.integers(-10**12, 10**12)), "ns")
    else:
        m = v.max() + (float(rng.integers(-100, 100)) * 0.5 if v.dtype.kind == "f" else int(rng.integers(-100, 100)))
    which = gen.pick(rng, ["update", "update_limits"])
    return getattr(c, which)(max=m), v + (m - v.max()), u, f"{which}(max={m})", []


def op_update_step(rng, c, v, u):
    if not c.evenly_sampled:
        return None
    k = gen.pick(rng, [2, 3, 5])
    step = c.step * k
    return c.update(step=step), v[0] + np.arange(len(v)) * step, u, f"update(step={step})", []


def op_update_data(rng, c, v, u):
    new, units, dtype, kind = make(rng, n=max(len(v), 1), dts=("float", "int") if v.dtype.kind in "iuf" else ("time",) if v.dtype.kind == "M" else ("delta",))
    return c.update(data=new), new, u, f"update(data={new[:4]})", []


def op_length(rng, c, v, u):
    if not c.evenly_sampled:
        return None
    n = gen.pick(rng, [1, 2, len(v), len(v) + 3, 40, 1000])
    return c.change_length(n), v[0] + np.arange(n) * c.step, u, f"change_length({n})", []


def op_units(rng, c, v, u):
    if v.dtype.kind != "f" or u is None:
        return None
    opts = [(b, f) for (a, b), f in FACT.items() if a == u]
    if not opts:
        return None
    to, f = gen.pick(rng, opts)
    return c.convert_units(to), v * f, to, f"convert_units({to})", []


def op_set_units(rng, c, v, u):
    if v.dtype.kind in "mM":
        return None
    to = gen.pick(rng, ["m", "ft", "km", "cm"])
    return c.set_units(to), v, to, f"set_units({to})", []


def op_index(rng, c, v, u):
    ind, form = rand_index(rng, len(v))
    if form in ("int", "ellipsis-slice"):
        return None
    return c[ind], v[ind], u, f"[{ind}]", []


def op_snap(rng, c, v, u):
    srt = np.sort(v)
    if len(v) < 2 or v.dtype.kind == "i" or not (c.sorted or c.reverse_sorted):
        return None
    if len(np.unique(v)) < len(v):
        return None
    new = c.snap()
    n = len(v)
    if v.dtype.kind == "f":
        w = np.linspace(v[0], v[-1], n)
        return new, w, u, "snap", []
    w = np.asarray(new.values)
    a = (v - v[0]).astype("int64").astype(float)
    ideal = np.linspace(0, a[-1], n)
    ok = np.all(np.abs((w - v[0]).astype("int64") - ideal) <= 0.5 * n + 1)
    return new, w, u, "snap", [("snap-times", bool(ok) and len(new) == n, f"{w} from {v}")]


def op_index_method(rng, c, v, u):
    idx = rng.permutation(len(v))
    return c.index(idx), v[idx], u, f"index({idx})", []


OPS = (op_sort, op_update_min, op_update_max, op_update_step, op_update_data, op_length, op_units, op_set_units, op_index, op_snap, op_index_method)


def run_op(rng, ctx, c, v, u, op):
    if not len(v):
        return None
    made = op(rng, c, v, u)
    if made is None:
        return None
    new, w, nu, name, extra = made
    what = f"{name} on {c!r}"
    ctx.note(call=what)
    for mech, ok, msg in extra:
        ctx.check(ok, mech, lambda: f"{what}: {msg}")
    audit(ctx, new, w, what, nu)
    return new, np.asarray(new.values), nu


@family("P05", "ops", quick=9000, thorough=120000)
def ops_(rng, ctx):
    op = OPS[ctx.index % len(OPS)]
    vals, units, dtype, kind = make(rng, nmax=12)
    c = get_coord(data=vals, units=units)
    fp = mon.fp_coord(c)
    out = run_op(rng, ctx, c, np.asarray(c.values), units, op)
    ctx.check(mon.fp_coord(c) == fp, "mutated", lambda: f"{op.__name__} changed its input")
    if out is None:
        ctx.skip(op.__name__)
    ctx.cover(op.__name__, dtype, kind, nclass(len(vals)))


@family("P05", "op-chains", quick=3000, thorough=40000)
def op_chains(rng, ctx):
    vals, units, dtype, kind = make(rng, nmax=12)
    c = get_coord(data=vals, units=units)
    cur = (c, np.asarray(c.values), units)
    names = []
    for _ in range(int(rng.integers(2, 9))):
        op = gen.pick(rng, OPS)
        out = run_op(rng, ctx, *cur, op)
        if out is None:
            continue
        cur = out
        names.append(op.__name__)
        if len(cur[1]) > 3000 or len(cur[1]) == 0:
            break
    ctx.cover("chain", dtype, kind, *names[:3])


@family("P05", "lookup", quick=5000, thorough=60000)
def lookup(rng, ctx):
    """get_next_index and get_sample_count against the array."""
    vals, units, dtype, kind = make(rng, nmax=30, kinds=("even", "even", "mono", "even-desc", "unsorted"))
    c = get_coord(data=vals, units=units)
    v = np.asarray(c.values)
    n = len(v)
    step = float(np.abs(c.step / np.timedelta64(1, "ns"))) if isinstance(c.step, np.timedelta64) else (float(abs(c.step)) if c.step is not None else None)
    if c.sorted and n > 1:
        k = int(rng.integers(0, n - 1))
        gap = v[k + 1] - v[k]
        form = gen.pick(rng, ["on", "between", "array", "oob", "samples", "relative"])
        if form == "on":
            ctx.check(int(c.get_next_index(v[k])) == k, "next-index-on", lambda: f"{c} {v[k]}: {c.get_next_index(v[k])} want {k}")
        elif form == "between":
            if dtype == "float":
                x = v[k] + gap * 0.4
            elif dtype == "int":
                x = v[k] + 0.4
            else:
                if gap < np.timedelta64(3, "ns"):
                    ctx.skip("gap")
                x = v[k] + gap // 2
            ctx.check(int(c.get_next_index(x)) == k + 1, "next-index-between", lambda: f"{c} {x}: {c.get_next_index(x)} want {k + 1}")
        elif form == "array":
            ks = rng.integers(0, n, 5)
            got = c.get_next_index(v[ks])
            ctx.check(list(got) == ks.tolist(), "next-index-array", lambda: f"{c}: {got} want {ks}")
        elif form == "oob":
            ctx.raises(lambda: c.get_next_index(v.max() + gap), "oob-accepted", ValueError)
            ctx.raises(lambda: c.get_next_index(v.min() - gap), "oob-accepted", ValueError)
            if c.evenly_sampled:
                ks = rng.integers(-5, n + 5, 6)
                xs = v[0] + ks * c.step
                got = c.get_next_index(xs, allow_out_of_bounds=True)
                ctx.check(list(got) == ks.tolist(), "oob-index", lambda: f"{c}: {got} want {ks}")
        elif form == "samples":
            got = c.get_next_index(-k - 1, samples=True)
            ctx.check(int(got) == n - k - 1, "next-index-samples", lambda: f"{c}: {got}")
        else:
            rel = v[k] - v[0]
            got = c.get_next_index(rel, relative=True)
            ctx.check(int(got) == k, "next-index-relative", lambda: f"{c} {rel}: {got} want {k}")
        ctx.cover("next", dtype, kind, form, nclass(n))
    if c.evenly_sampled and n > 1:
        k = int(rng.integers(-6, 12))
        dur = np.abs(c.step) * k
        got = c.get_sample_count(dur)
        ctx.check(int(got) == k, "sample-count", lambda: f"{c} {dur}: {got} want {k}")
        if k > 0 and step and not (dtype in ("time", "delta") and step < 4):
            part = np.abs(c.step) * 0.5 if dtype == "float" else (np.abs(c.step) // 2 if dtype != "int" else 0)
            if dtype == "float" or (dtype != "int"):
                got = c.get_sample_count(dur - part)
                ctx.check(int(got) == k, "sample-count-up", lambda: f"{c} {dur - part}: {got} want {k}")
            if units in ("m", "ft") and dtype == "float":
                q = float(dur - part) * dc.get_unit(units)
                got = c.get_sample_count(q.to("km"))
                ctx.check(int(got) == k, "sample-count-units", lambda: f"{c} {q}: {got} want {k}")
        ctx.check(c.get_sample_count(k, samples=True) == k, "sample-count-samples", lambda: f"{c} {k}")
        ctx.cover("count", dtype, kind, np.sign(k), nclass(n))


@family("P05", "align-reduce-summary", quick=4000, thorough=50000)
def align_reduce(rng, ctx):
    vals, units, dtype, kind = make(rng, nmax=12, kinds=("even", "even-desc", "mono", "mono-desc", "unsorted"))
    c = get_coord(data=vals, units=units)
    v = np.asarray(c.values)
    n = len(v)
    which = gen.pick(rng, ["align", "reduce", "summary", "empty", "equal"])
    if which == "align":
        other = rng.permutation(v)[: int(rng.integers(1, n + 1))]
        if gen.chance(rng, 0.5):
            other = np.sort(other)
        o = get_coord(data=other, units=units)
        ov = np.asarray(o.values)
        c1, c2, s1, s2 = c.align_to(o)
        want = np.intersect1d(v, ov)
        if dtype == "float" and len(want) != len(other):
            ctx.skip("labels moved by rounding")
        if c == o:
            want = v
        ctx.check(eq(v[s1], ov[s2]), "align-index", lambda: f"{c} {o}: {v[s1]} vs {ov[s2]}")
        ctx.check(eq(np.sort(v[s1]), np.sort(want)), "align-intersection", lambda: f"{c} {o}: {v[s1]} want {want}")
        ctx.check(eq(c1.values, v[s1]) and eq(c2.values, ov[s2]), "align-coords", lambda: f"{c} {o}")
    elif which == "reduce":
        how = gen.pick(rng, ["min", "max", "mean", "first", "last", "median", "empty", "squeeze"])
        r = c.reduce_coord(how)
        if how == "squeeze":
            ctx.check(r is None, "reduce-squeeze", "")
        elif how == "empty":
            ctx.check(len(r) == 1 and mon.quant_same(r.units, units), "reduce-empty", lambda: f"{c}: {r}")
            if n == 1:
                ctx.check(eq(r.values, v), "reduce-empty-one", lambda: f"{c}: {r}")
        else:
            f = {"min": np.min, "max": np.max, "first": lambda x: x[0], "last": lambda x: x[-1]}.get(how)
            if f:
                want = f(v)
            else:
                g = {"mean": np.mean, "median": np.median}[how]
                want = v[0] + np.timedelta64(int(np.round(float(g((v - v[0]).astype("int64"))))), "ns") if v.dtype.kind in "mM" else g(v)
            got = np.asarray(r.values)
            ok = len(got) == 1 and (abs(int((got[0] - want).astype("int64"))) <= max(2, 1e-9 * abs(int((v.max() - v.min()).astype("int64")))) if v.dtype.kind in "mM" else np.isclose(float(got[0]), float(want), rtol=1e-9, atol=1e-9))
            ctx.check(ok, "reduce-value", lambda: f"{how} of {c}: {r} want {want}")
            ctx.check(mon.quant_same(r.units, units), "reduce-units", lambda: f"{c}: {r}")
    elif which == "summary":
        s = c.to_summary()
        if c.evenly_sampled and n > 1:
            back = s.to_coord()
            ctx.check(eq(back.values, v) and mon.quant_same(back.units, units), "summary-roundtrip", lambda: f"{c} -> {back}")
        else:
            if c.step is None or pd.isnull(c.step):
                ctx.raises(lambda: s.to_coord(), "summary-irregular", Exception)
    elif which == "empty":
        e = c.empty()
        ctx.check(len(e) == 0 and e.degenerate and np.dtype(e.dtype).kind == v.dtype.kind and mon.quant_same(e.units, units), "empty", lambda: f"{c} -> {e!r}")
    else:
        ctx.check(c == get_coord(data=vals.copy(), units=units), "equal-copy", lambda: f"{c}")
        w = v.copy()
        k = int(rng.integers(n))
        w[k] = w[k] + ((v.max() - v.min()) * 2 + (np.timedelta64(10**9, "ns") if v.dtype.kind in "mM" else 5))
        ctx.check(not (c == get_coord(data=w, units=units)), "equal-missed", lambda: f"{v} {w}")
        if n > 1:
            ctx.check(not (c == c[:-1]), "equal-length", lambda: f"{c}")
        if units in ("m", "ft"):
            ctx.check(not (c == c.set_units("km")), "equal-units", lambda: f"{c}")
    ctx.cover(which, dtype, kind, nclass(n))


@family("P05", "near-even", quick=1500, thorough=15000)
def near_even(rng, ctx):
    """Jittered sampling is either kept exactly or snapped within the tolerance."""
    n = int(rng.integers(3, 200))
    dtype = gen.pick(rng, ["float", "time"])
    rel = gen.pick(rng, [1e-7, 1e-5, 4e-4, 5e-3, 0.05, 0.3])
    step = gen.pick(rng, [1e-9, 1e-4, 0.01, 1.0, 250.0]) if dtype == "float" else gen.pick(rng, [10**4, 10**6, 10**9])
    jit = np.clip(rng.standard_normal(n), -1, 1) * rel * step / 2
    if dtype == "float":
        vals = np.arange(n) * step + jit
        err_unit = step
    else:
        vals = gen.BASE_TIME + (np.arange(n) * step + jit).astype("int64").astype("timedelta64[ns]")
        err_unit = step
    c = get_coord(data=vals)
    got = np.asarray(c.values)
    ctx.check(len(c) == n, "jitter-length", lambda: f"{len(c)} {n}")
    err = np.abs(got - vals)
    err = err.astype("int64") if dtype == "time" else err
    if c.evenly_sampled:
        d = np.diff(vals).astype(float)
        spread = (d.max() - d.min()) / abs(np.median(d))
        ctx.check(spread <= 4e-3, "jitter-snapped", lambda: f"spacing varying by {spread} snapped: {c}")
        ctx.check(float(err.max()) <= 2e-3 * err_unit * n, "jitter-error", lambda: f"{err.max()} step {step} n {n}")
    else:
        ctx.check(mon.same(got, vals), "jitter-exact", lambda: f"{c}")
    ctx.cover("jitter", dtype, rel, step, bool(c.evenly_sampled))
