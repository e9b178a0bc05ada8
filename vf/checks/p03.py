"""P03: selection keeps exactly the requested labels."""
from __future__ import annotations

import warnings

import numpy as np
import pandas as pd

import dascore as dc
from vf import gen, mon
from vf.core import describe, family

describe(
    "P03",
    "Each case builds a random patch (1-4 dims, every coordinate kind and direction, extra 1D/2D coordinates, "
    "several dtypes and memory layouts) or a bare coordinate, draws selections (value/relative/sample ranges with bounds "
    "on, between and beyond labels, open bounds, index/value/boolean arrays, quantities) on one or more coordinates, runs "
    "Patch.select, and compares every retained value and every coordinate with a brute-force mask over the labels. "
    "Non-trivial: the selection is distinct by (coordinate dtype, kind, request form, bound placement, outcome class none/some/all).",
    ["bounds lie exactly on a label or at least 5% of a step away from one, so float rounding in the label arithmetic cannot make the answer ambiguous"],
)

KINDS = ("even", "even-desc", "mono", "mono-desc", "unsorted", "dup")


def _step(values):
    v = np.sort(values)
    d = np.diff(v)
    d = d[d > d.dtype.type(0)] if d.dtype.kind != "m" else d[d > np.timedelta64(0, "ns")]
    if not d.size:
        return np.timedelta64(1000, "ns") if values.dtype.kind in "mM" else 1.0
    return d.min()


def _bound(rng, values, side):
    """A bound and its placement class."""
    place = gen.pick(rng, ["on", "on", "between", "below", "above", "open", "ellipsis"])
    st = _step(values)
    srt = np.sort(values[~pd.isnull(values)])
    if place == "open" or not len(srt):
        return None, "open"
    if place == "ellipsis":
        return ..., "open"
    if place == "on":
        return srt[int(rng.integers(len(srt)))], "on"
    is_t = values.dtype.kind in "mM"
    if place == "between":
        base = srt[int(rng.integers(len(srt)))]
        if is_t:
            st_i = int(st.astype("int64"))
            if st_i < 2:
                return base, "on"
            return base + np.timedelta64(max(1, int(st_i * gen.pick(rng, [0.1, 0.5, 0.9]))), "ns"), "between"
        if values.dtype.kind == "i":
            return float(base) + gen.pick(rng, [0.1, 0.5, 0.9]), "between"
        return base + st * gen.pick(rng, [0.06, 0.5, 0.94]), "between"
    mult = int(rng.integers(1, 4))
    if place == "below":
        return srt[0] - st * mult, "below"
    return srt[-1] + st * mult, "above"


def _range(rng, values):
    lo, p1 = _bound(rng, values, 0)
    hi, p2 = _bound(rng, values, 1)
    real = [None if (x is ... or x is None) else x for x in (lo, hi)]
    if real[0] is not None and real[1] is not None and real[0] > real[1] and gen.chance(rng, 0.85):
        lo, hi, p1, p2 = hi, lo, p2, p1
        real = real[::-1]
    if real[0] is not None and real[1] is not None and real[0] > real[1]:
        real = real[::-1]  # documented: bounds are ordered
    mask = ~pd.isnull(values) if (real[0] is not None or real[1] is not None) else np.ones(len(values), bool)
    with np.errstate(all="ignore"):
        if real[0] is not None:
            mask &= values >= real[0]
        if real[1] is not None:
            mask &= values <= real[1]
    return (lo, hi), mask, f"{p1}-{p2}"


def _time_forms(rng, val):
    """Express a time bound in another accepted form."""
    if val is None or val is ...:
        return val
    if isinstance(val, np.datetime64):
        form = gen.pick(rng, ["np", "np", "str", "pd"])
        return {"np": val, "str": str(val), "pd": pd.Timestamp(val)}[form]
    if isinstance(val, np.timedelta64):
        form = gen.pick(rng, ["np", "pd"])
        return {"np": val, "pd": pd.Timedelta(val)}[form]
    return val


def make_request(rng, values, units, even, patch_ok=True):
    """Return (kwarg value, mask, mode kwargs, form)."""
    n = len(values)
    is_t = values.dtype.kind in "mM"
    forms = ["range"] * 4 + ["samples", "samples", "sample-int", "bool", "values", "sample-array", "slice"]
    if values.dtype.kind != "U":
        forms += ["relative", "relative"]
        if units is not None and not is_t and values.dtype.kind == "f":
            forms += ["quantity", "quantity"]
        if is_t:
            forms += ["quantity-time"]
    form = gen.pick(rng, forms)
    if form in ("range", "slice"):
        if values.dtype.kind == "U":
            form = "values"
        else:
            (lo, hi), mask, cls = _range(rng, values)
            lo, hi = _time_forms(rng, lo), _time_forms(rng, hi)
            arg = slice(None if lo is ... else lo, None if hi is ... else hi) if form == "slice" else (lo, hi)
            return arg, mask, {}, f"{form}:{cls}"
    if form == "samples":
        lo = gen.pick(rng, [None, int(rng.integers(-n - 1, n + 2))])
        hi = gen.pick(rng, [None, int(rng.integers(-n - 1, n + 2))])
        mask = np.zeros(n, bool)
        mask[slice(lo, hi)] = True
        return (lo, hi), mask, {"samples": True}, "samples"
    if form == "sample-int":
        if n == 0:
            return (None, None), np.ones(n, bool), {}, "range:open-open"
        i = int(rng.integers(-n, n))
        mask = np.zeros(n, bool)
        mask[i] = True
        return i, mask, {"samples": True}, "sample-int"
    if form == "bool":
        mask = rng.random(n) < gen.pick(rng, [0.0, 0.5, 0.9, 1.0])
        return mask.copy(), mask, {}, "bool"
    if form == "values":
        take = rng.random(n) < 0.5
        arr = values[take]
        if values.dtype.kind != "U" and gen.chance(rng, 0.4) and n:
            arr = np.concatenate([arr, [np.max(values) + _step(values) * 3]])
        arr = rng.permutation(arr)
        mask = np.isin(values, arr)
        if values.dtype.kind == "U" and not len(arr):
            return mask.copy(), mask, {}, "bool"
        return np.asarray(arr, dtype=values.dtype if values.dtype.kind != "f" else None), mask, {}, "values"
    if form == "sample-array":
        idx = rng.permutation(n)[: int(rng.integers(0, n + 1))]
        mask = np.zeros(n, bool)
        mask[idx] = True
        if n and gen.chance(rng, 0.4):
            idx = np.where(rng.random(len(idx)) < 0.5, idx - n, idx)
        return idx.astype(np.int64), mask, {"samples": True}, "sample-array"
    if form == "relative":
        srt = np.sort(values)
        mn, mx = srt[0], srt[-1]
        st = _step(values)
        frac = gen.pick(rng, [0, 0.5]) if values.dtype.kind == "f" else 0
        def rel(k):
            out = st * abs(k)
            if values.dtype.kind == "f":
                out = out + st * frac
            elif is_t and int(st.astype("int64")) > 3:
                out = out + np.timedelta64(int(int(st.astype("int64")) * gen.pick(rng, [0, 0.5])), "ns")
            return -out if k < 0 else out
        a = gen.pick(rng, [None, ..., rel(int(rng.integers(-n - 1, n + 2)))])
        b = gen.pick(rng, [None, ..., rel(int(rng.integers(-n - 1, n + 2)))])
        zero = np.timedelta64(0, "ns") if is_t else 0
        conv = lambda x: None if (x is None or x is ...) else (mn + x if x >= zero else mx + x)
        real = [conv(a), conv(b)]
        # avoid float ambiguity: bounds within rounding of a label are dropped
        if values.dtype.kind == "f":
            for r in real:
                if r is not None:
                    d = np.abs(values - r).min() / st
                    if 0 < d < 0.04:
                        return (None, None), np.ones(n, bool), {}, "range:open-open"
        if real[0] is not None and real[1] is not None and real[0] > real[1]:
            real = real[::-1]
        mask = np.ones(n, bool)
        if real[0] is not None:
            mask &= values >= real[0]
        if real[1] is not None:
            mask &= values <= real[1]
        if is_t and gen.chance(rng, 0.4):
            tof = lambda x: x if x is None or x is ... else float(x / np.timedelta64(1, "s"))
            fa, fb = tof(a), tof(b)
            ok = all(x is None or x is ... or int(round(y * 1e9)) == int(x.astype("int64")) for x, y in ((a, fa), (b, fb)))
            if ok:
                a, b = fa, fb
        return (a, b), mask, {"relative": True}, f"relative:{'neg' if any(x not in (None, ...) and x < 0 * x for x in (a, b)) else 'pos'}"
    if form == "quantity":
        q = {"m": [("km", 1e3), ("ft", 0.3048), ("cm", 0.01)], "s": [("ms", 1e-3), ("min", 60.0)]}
        opts = q.get(str(units), [(str(units), 1.0)])
        uname, fac = gen.pick(rng, opts)
        srt = np.sort(values)
        st = float(_step(values))
        def bnd():
            k = int(rng.integers(-1, n + 1))
            base = srt[0] - st if k < 0 else (srt[-1] if k >= n else srt[k])
            return float(base) + st * 0.4
        a, b = sorted([bnd(), bnd()])
        for r in (a, b):  # stay away from labels
            if np.abs(values - r).min() < 0.04 * st:
                return (None, None), np.ones(n, bool), {}, "range:open-open"
        lo, hi = (gen.pick(rng, [None, a]), gen.pick(rng, [None, b]))
        mask = np.ones(n, bool)
        if lo is not None:
            mask &= values >= lo
        if hi is not None:
            mask &= values <= hi
        un = dc.get_unit(uname)
        arg = tuple(None if x is None else (x / fac) * un for x in (lo, hi))
        return arg, mask, {}, f"quantity:{uname}"
    if form == "quantity-time":
        # relative duration with units
        st = _step(values)
        k = int(rng.integers(0, n + 1))
        st_i = int(st.astype("int64"))
        if st_i < 1000:
            return (None, None), np.ones(n, bool), {}, "range:open-open"
        rel_ns = st_i * k + st_i // 2
        mask = values <= (np.sort(values)[0] + np.timedelta64(rel_ns, "ns"))
        uname, fac = gen.pick(rng, [("s", 1e9), ("ms", 1e6), ("us", 1e3)])
        return (None, (rel_ns / fac) * dc.get_unit(uname)), mask, {"relative": True}, f"quantity-time:{uname}"
    raise AssertionError(form)


def expected_positions(mask):
    return np.flatnonzero(mask)


def compare(ctx, before, after, takes, what):
    """after must be before with, for each dim, positions takes[dim]."""
    ctx.check(after.dims == before.dims, "dims-changed", lambda: f"{before.dims}->{after.dims} {what}")
    want = np.asarray(before.data)
    for ax, d in enumerate(before.dims):
        if d in takes:
            want = np.take(want, takes[d], axis=ax)
    ctx.check(mon.same(after.data, want), "data", lambda: f"{what}: got shape {after.data.shape} want {want.shape}; {gen.describe(before)}\n{after.data}\n{want}")
    ctx.check(after.data.dtype == before.data.dtype, "dtype", what)
    ctx.check(set(after.coords.coord_map) == set(before.coords.coord_map), "coord-names", lambda: f"{what} {set(before.coords.coord_map) ^ set(after.coords.coord_map)}")
    for name, coord in before.coords.coord_map.items():
        cdims = before.coords.dim_map[name]
        ctx.check(tuple(after.coords.dim_map[name]) == tuple(cdims), "dim-map", lambda: f"{what} {name}")
        vals = np.asarray(coord.values)
        for ax, d in enumerate(cdims):
            if d in takes:
                vals = np.take(vals, takes[d], axis=ax)
        got = np.asarray(after.coords.coord_map[name].values)
        full = np.asarray(coord.values)
        scale = np.abs(full).max() if full.size and full.dtype.kind == "f" else 1.0
        ok = got.shape == vals.shape and (not vals.size or (mon.close(got, vals, rtol=1e-12, atol=1e-11 * scale) if vals.dtype.kind == "f" else mon.same(got, vals)))
        ctx.check(ok, "coord-values", lambda: f"{what}: coord {name}{cdims}: got {got} want {vals}; {gen.describe(before)}")
        if vals.size:
            ctx.check(mon.quant_same(after.coords.coord_map[name].units, coord.units), "coord-units", lambda: f"{what} {name}")


def outcome(mask):
    return "all" if mask.all() else ("none" if not mask.any() else "some")


@family("P03", "patch-select", quick=20000, thorough=250000)
def patch_select(rng, ctx):
    p, info = gen.patch(rng, kinds=KINDS)
    dims = list(p.dims)
    picks = [str(x) for x in rng.permutation(dims)[: int(rng.integers(1, len(dims) + 1))]]
    groups = {}
    for d in picks:
        # optionally select through a non-dimensional coordinate of the same dimension
        name = d
        for cand in (f"c_{d}", f"s_{d}"):
            if cand in p.coords.coord_map and gen.chance(rng, 0.25):
                name = cand
        c = p.coords.coord_map[name]
        arg, mask, kw, form = make_request(rng, np.asarray(c.values), c.units, c.evenly_sampled)
        groups.setdefault(tuple(sorted(kw.items())), []).append((d, name, arg, mask, form))
    cur, sels = p, {}
    for kw, items in groups.items():  # one call per mode
        kwargs = {name: arg for _, name, arg, _, _ in items}
        ctx.note(call=f"select({kwargs}, {dict(kw)})", patch=gen.describe(cur))
        copy = gen.chance(rng, 0.2)
        if dict(kw) == {"samples": True} and ctx.index % 5 == 0:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                nxt = cur.iselect(**kwargs, copy=copy)  # the deprecated form of the same request
        else:
            nxt = cur.select(**kwargs, **dict(kw), copy=copy)
        takes = {d: expected_positions(mask) for d, _, _, mask, _ in items}
        compare(ctx, cur, nxt, takes, f"{kwargs} {dict(kw)}")
        ctx.check(nxt.attrs.history == cur.attrs.history, "history", "select changed the history")
        for d, name, _, mask, form in items:
            dt, kind, _ = info[d]
            ctx.cover(dt if name == d else "extra", kind if name == d else "-", form, outcome(mask), p.ndim)
        sels.update(takes)
        cur = nxt
        if any(not len(t) for t in takes.values()):
            break


@family("P03", "coord-select", quick=20000, thorough=300000)
def coord_select(rng, ctx):
    """Coordinate-level selection including length 0/1/long coordinates and NaN labels."""
    n = gen.pick(rng, [1, 1, 2, 3, 5, 17, 400])
    dtype = gen.pick(rng, ["float", "float", "time", "delta", "int"])
    kind = gen.pick(rng, KINDS)
    values = gen.coord_values(rng, n, dtype, kind)
    if dtype == "float" and kind == "unsorted" and n > 3 and gen.chance(rng, 0.4):
        values = np.array(values)
        values[int(rng.integers(n))] = np.nan
        kind = "nan"
    units = "s" if dtype in ("time", "delta") else gen.pick(rng, [None, "m"])
    coord = dc.get_coord(data=values, units=units)
    vals = np.asarray(coord.values)
    if kind == "nan":
        (lo, hi), mask, cls = _range(rng, vals)
        arg, kw, form = (lo, hi), {}, "range:" + cls
    else:
        arg, mask, kw, form = make_request(rng, vals, units, coord.evenly_sampled)
    ctx.note(call=f"coord.select({arg!r}, {kw})", coord=repr(coord))
    new, index = coord.select(arg, **kw)
    want = vals[mask]
    got = np.asarray(new.values)
    scale = np.nanmax(np.abs(vals)) if vals.size and want.dtype.kind == "f" else 1
    ctx.check(len(new) == len(want), "coord-length", lambda: f"{coord} {arg} {kw}: {len(new)} vs {len(want)}")
    ok = mon.same(got, want) or (want.dtype.kind == "f" and mon.close(got, want, rtol=1e-12, atol=1e-11 * scale)) or not want.size
    ctx.check(ok, "coord-select-values", lambda: f"{coord} {arg} {kw}: {got} vs {want}")
    by_index = vals[index]
    ctx.check(mon.same(by_index, want), "coord-select-index", lambda: f"{coord} {arg} {kw}: index {index} gives {by_index} want {want}")
    ctx.cover(dtype, kind, form, outcome(mask), min(n, 4))


@family("P03", "long-precision", quick=2000, thorough=20000)
def long_precision(rng, ctx):
    """Bounds one nanosecond/one part in 1e9 from a label of long coordinates."""
    n = int(rng.integers(500, 20000))
    kind = gen.pick(rng, ["even", "even-desc"])
    values = gen.even_time(rng, n, kind.endswith("desc"))
    coord = dc.get_coord(data=values)
    step = int(np.abs(np.diff(values[:2]))[0].astype("int64"))
    for _ in range(4):
        i, j = sorted(int(x) for x in rng.integers(0, n, 2))
        offs = [0, 0]
        if step > 1000:
            eps = max(1, step // 1000)  # 0.1% of a step
            offs = [int(gen.pick(rng, [0, eps, -eps])) for _ in range(2)]
        lo, hi = sorted([values[i], values[j]])
        lo, hi = lo + np.timedelta64(offs[0], "ns"), hi + np.timedelta64(offs[1], "ns")
        if lo > hi:
            continue
        mask = (values >= lo) & (values <= hi)
        new, index = coord.select((lo, hi))
        ctx.check(mon.same(values[index], values[mask]), "long-index", lambda: f"{coord} ({lo},{hi}) got {index} want {np.flatnonzero(mask)[[0, -1]] if mask.any() else 'none'}")
        if mask.any():
            ctx.check(mon.same(new.values, values[mask]), "long-values", lambda: f"{coord} ({lo},{hi})")
        ctx.cover("long", kind, step, offs[0] != 0, offs[1] != 0, outcome(mask))


@family("P03", "chained", quick=3000, thorough=40000)
def chained(rng, ctx):
    """Successive selections equal one composed selection."""
    p, info = gen.patch(rng, ndim=2, sizes=(4, 14), kinds=KINDS[:5])
    cur, pos = p, {d: np.arange(s) for d, s in zip(p.dims, p.shape)}
    for num in range(int(rng.integers(2, 5))):
        d = gen.pick(rng, p.dims)
        c = cur.coords.coord_map[d]
        if len(c) == 0:
            break
        arg, mask, kw, form = make_request(rng, np.asarray(c.values), c.units, c.evenly_sampled)
        cur = cur.select(**{d: arg}, **kw)
        ctx.check(len(cur.coords.coord_map[d]) == int(mask.sum()), "chained-length", lambda: f"{c} {arg} {kw}")
        pos[d] = pos[d][mask]
        ctx.cover("chain", num, info[d][0], info[d][1], form.split(":")[0])
    compare(ctx, p, cur, pos, "chained")


@family("P03", "range-labels", quick=4000, thorough=50000)
def range_labels(rng, ctx):
    """Labels of coordinates given by start/stop/step select exactly themselves, whatever the magnitude of the labels."""
    from dascore.core.coords import get_coord

    n = int(rng.integers(3, 60))
    desc = gen.chance(rng, 0.3)
    if gen.chance(rng, 0.6):
        step = float(gen.pick(rng, [1e-3, 1 / 3, 1.0213, 0.1, 1e-6, 2.5e-4, 7.0, 0.30000001])) * (-1 if desc else 1)
        start = float(gen.pick(rng, [0.0, 1.0, 1e5, -1e5, 1e7, -12.5, 3e8 if abs(step) > 0.05 else 3e2, 1e6 / 3]))
        if abs(step) < 1e-5:
            start = min(abs(start), 1e3)
    else:
        n_off = int(rng.integers(0, 10**7))
        step = np.timedelta64(int(gen.pick(rng, [1, 1000, 333333, 10**6, 4 * 10**9, 86400 * 10**9, 1234567891])), "ns") * (-1 if desc else 1)
        start = np.datetime64("2001-01-01", "ns") + step * (n_off % 10000 if abs(int(step.astype("int64"))) > 10**12 else n_off % 10**6)
        if gen.chance(rng, 0.3) and abs(int(step.astype("int64"))) < 10**12:
            n = int(rng.integers(1000, 300000))
    c = get_coord(start=start, stop=start + step * n, step=step)
    if len(c) != n:
        ctx.skip("length")
    v = c.values
    i, j = sorted(int(x) for x in rng.integers(0, n, 2))
    a, b = (v[i], v[j]) if not desc else (v[j], v[i])
    out, index = c.select((a, b))
    got = np.arange(n)[index]
    ctx.note(coord=str(c), i=i, j=j)
    ctx.check(len(got) == j - i + 1 and (not len(got) or (got[0] == i and got[-1] == j)), "labels-not-selected", lambda: f"{c}.select({a}, {b}) gave {got[:1]}..{got[-1:]} want {i}..{j}")
    ctx.check(len(out) == j - i + 1, "labels-coord", lambda: f"{out}")
    # between labels: half a step beyond each end selects the same
    half = step / 2 if not isinstance(step, np.timedelta64) else step // 2
    if isinstance(step, np.timedelta64) and abs(int(step.astype("int64"))) < 4:
        half = np.timedelta64(0, "ns")
    lo, hi = v[i] - half, v[j] + half
    out, index = c.select((lo, hi) if not desc else (hi, lo))
    got = np.arange(n)[index]
    ctx.check(len(got) == j - i + 1 and got[0] == i, "between-labels", lambda: f"{c}.select({lo}, {hi}) gave {got[:1]}..{got[-1:]} want {i}..{j}")
    ctx.cover(str(step), desc, np.sign(i), j == n - 1, n > 999)


@family("P03", "shared-dims", quick=4000, thorough=50000)
def shared_dims(rng, ctx):
    """Several coordinates of the same dimension in one request: all conditions hold at once."""
    p, info = gen.patch(rng, kinds=KINDS, ndim=gen.pick(rng, [1, 2, 2, 3]), sizes=(2, 12))
    new = {}
    for d, n in zip(p.dims, p.shape):
        for k in range(int(rng.integers(0, 3))):
            new[f"x{k}_{d}"] = (d, gen.coord_values(rng, n, gen.pick(rng, ["float", "int", "time"]), gen.pick(rng, KINDS)))
    p = p.update_coords(**new)
    one_d = [c for c, ds in p.coords.dim_map.items() if len(ds) == 1]
    names = [str(x) for x in rng.permutation(one_d)[: int(rng.integers(2, 6))]]
    kwargs, masks, forms = {}, {}, []
    for name in names:
        vals = np.asarray(p.coords.coord_map[name].values)
        if vals.dtype.kind not in "iufmM":
            continue
        (lo, hi), mask, cls = _range(rng, vals)
        kwargs[name] = (lo, hi)
        d = p.coords.dim_map[name][0]
        masks.setdefault(d, np.ones(len(vals), bool))
        masks[d] &= mask
        forms.append(d)
    if len(kwargs) < 2:
        ctx.skip("few")
    ctx.note(call=f"select({kwargs})", patch=gen.describe(p))
    out = p.select(**kwargs)
    compare(ctx, p, out, {d: np.flatnonzero(m) for d, m in masks.items()}, f"{kwargs}")
    ctx.cover(len(kwargs), sorted(forms.count(d) for d in set(forms)), [outcome(m) for m in masks.values()], p.ndim)
