"""P04: rearranging a patch never separates a value from its labels."""
from __future__ import annotations

import numpy as np
import pandas as pd

import dascore as dc
from vf import gen, mon
from vf.core import describe, family

describe(
    "P04",
    "Every sample of a random patch holds a unique value, so each value can be traced through the real code. The monitor keeps the "
    "table value -> labels of all attached coordinates (dimensional, other 1D, 2D) before each rearrangement and compares it with the "
    "table afterwards under the documented relabelling, for single operations and for chains, including the exact order requested. "
    "Padding/alignment fills are checked cell by cell. Non-trivial: distinct by (operation, coordinate kinds touched, extra coordinates, ndim).",
    ["float labels may differ by rounding (1e-9 relative) where the library recomputes an even coordinate; times and integers must be exact"],
)

KINDS = ("even", "even-desc", "mono", "mono-desc", "unsorted")


def tab(p):
    """(value -> {coord: label}) restricted to coordinates attached to dims."""
    return mon.value_table(p)


def lab_close(a, b, scale):
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    if pd.isnull(a) or pd.isnull(b):
        return bool(pd.isnull(a) and pd.isnull(b))
    if isinstance(a, float | np.floating) or isinstance(b, float | np.floating):
        return abs(float(a) - float(b)) <= 1e-9 * scale
    return bool(a == b)


def scales(p):
    out = {}
    for n, c in p.coords.coord_map.items():
        v = np.asarray(c.values)
        out[n] = float(np.nanmax(np.abs(v))) if v.size and v.dtype.kind == "f" and not np.isnan(v).all() else 1.0
    return out


def same_table(ctx, before, after, what, rename=None, dropped=(), added=(), subset=False, sc=None):
    """Compare tables: after must equal before under renaming."""
    rename = rename or {}
    sc = sc or {}
    ctx.check(subset or set(before) == set(after), "values-lost", lambda: f"{what}: lost {sorted(map(str, set(before) - set(after)))[:5]} invented {sorted(map(str, set(after) - set(before)))[:5]}")
    for val, labels in before.items():
        if val not in after:
            continue
        got = after[val]
        want = {rename.get(k, k): v for k, v in labels.items() if k not in dropped}
        have = {k: v for k, v in got.items() if k not in added}
        ctx.check(set(want) == set(have), "coords-lost", lambda: f"{what}: coordinates {sorted(want)} -> {sorted(have)}")
        for k, v in want.items():
            ctx.check(lab_close(v, have[k], max(1.0, sc.get(k, 1.0))), "label-separated", lambda: f"{what}: value {val} had {k}={v} now {have[k]}")


def units_kept(ctx, p, q, what, rename=None, dropped=()):
    rename = rename or {}
    for n, c in p.coords.coord_map.items():
        if n in dropped:
            continue
        m = rename.get(n, n)
        ctx.check(m in q.coords.coord_map, "coord-missing", lambda: f"{what}: {n}")
        ctx.check(mon.quant_same(c.units, q.coords.coord_map[m].units), "coord-units", lambda: f"{what}: {n} {c.units} -> {q.coords.coord_map[m].units}")


def structure(ctx, q, what):
    for mech, text in mon.structure_problems(q):
        ctx.check(False, f"structure-{mech}", lambda: f"{what}: {text}")


def unique_dims(p):
    return [d for d in p.dims if len(np.unique(p.get_array(d))) == len(p.get_array(d))]


def unique_1d(p):
    out = []
    for n, c in p.coords.coord_map.items():
        if len(p.coords.dim_map[n]) == 1 and len(np.unique(np.asarray(c.values))) == len(c):
            out.append(n)
    return out


# ------------------------------------------------------------------ operations
# each returns (new patch, rename map, dropped coords, added coords)

def op_transpose(rng, p, ctx):
    dims = [str(x) for x in rng.permutation(list(p.dims))]
    args = list(dims)
    if len(dims) > 1 and gen.chance(rng, 0.3):
        keep = int(rng.integers(0, len(dims)))
        rest = [d for d in p.dims if d not in dims[:keep]]
        pos = int(rng.integers(0, keep + 1))
        args = dims[:keep]
        args.insert(pos, ...)
        dims = dims[:keep][:pos] + rest + dims[:keep][pos:]
    elif gen.chance(rng, 0.2):
        args, dims = [], list(p.dims)[::-1]
    out = p.transpose(*args) if gen.chance(rng, 0.8) or args else p.T
    ctx.check(tuple(out.dims) == tuple(dims), "transpose-order", lambda: f"{args}: {out.dims} want {dims}")
    return out, {}, (), (), f"transpose{args}"


def op_sort(rng, p, ctx):
    names = unique_1d(p)
    if not names:
        return None
    used, pick = set(), []
    for n in [str(x) for x in rng.permutation(names)]:
        if p.coords.dim_map[n][0] not in used and len(pick) < 2:
            used.add(p.coords.dim_map[n][0])
            pick.append(n)
    rev = gen.chance(rng, 0.4)
    out = p.sort_coords(*pick, reverse=rev)
    for n in pick:
        v = np.asarray(out.get_array(n))
        want = np.sort(np.asarray(p.get_array(n)))
        want = want[::-1] if rev else want
        ok = mon.same(v, want) or (want.dtype.kind == "f" and mon.close(v, want, rtol=1e-12, atol=1e-12 * np.abs(want).max()))
        ctx.check(ok, "sort-result", lambda: f"{n} reverse={rev}: {v} want {want}")
    return out, {}, (), (), f"sort_coords{pick} reverse={rev}"


def op_flip(rng, p, ctx):
    dims = [str(x) for x in rng.permutation(list(p.dims))[: int(rng.integers(1, p.ndim + 1))]]
    out = p.flip(*dims)
    want = np.flip(p.data, axis=tuple(p.dims.index(d) for d in dims))
    ctx.check(mon.same(out.data, want), "flip-data", lambda: f"{dims}")
    return out, {}, (), (), f"flip{dims}"


def op_roll(rng, p, ctx):
    dims = [d for d in p.dims if p.get_coord(d).evenly_sampled]
    if not dims:
        return None
    d = gen.pick(rng, dims)
    k = int(rng.integers(-9, 10))
    out = p.roll(**{d: k}, samples=True, update_coord=True)
    ctx.check(mon.same(out.data, np.roll(p.data, k, axis=p.dims.index(d))), "roll-data", lambda: f"{d} {k}")
    return out, {}, (), (), f"roll({d}={k})"


def op_rename(rng, p, ctx):
    names = [str(x) for x in rng.permutation(list(p.coords.coord_map))[: int(rng.integers(1, 3))]]
    ren = {n: f"r{int(rng.integers(1000))}_{n.split('_')[-1]}" for n in names}
    if len(set(ren.values())) < len(ren) or set(ren.values()) & set(p.coords.coord_map):
        return None
    out = p.rename_coords(**ren)
    ctx.check(tuple(out.dims) == tuple(ren.get(d, d) for d in p.dims), "rename-dims", lambda: f"{ren}: {p.dims} -> {out.dims}")
    for n, dims in p.coords.dim_map.items():
        want = tuple(ren.get(d, d) for d in dims)
        got = tuple(out.coords.dim_map[ren.get(n, n)])
        ctx.check(got == want, "rename-dim-map", lambda: f"{ren}: {n}{dims} -> {got}")
    return out, ren, (), (), f"rename{ren}"


def op_set_dims(rng, p, ctx):
    opts = [(d[0], n) for n, d in p.coords.dim_map.items() if n not in p.dims and len(d) == 1]
    if not opts:
        return None
    old, new = gen.pick(rng, opts)
    out = p.set_dims(**{old: new})
    ctx.check(tuple(out.dims) == tuple(new if d == old else d for d in p.dims), "set-dims", lambda: f"{old}->{new}: {out.dims}")
    ctx.check(tuple(out.coords.dim_map[old]) == (new,), "set-dims-old", lambda: f"{old}->{new}: {out.coords.dim_map}")
    return out, {}, (), (), f"set_dims({old}={new})"


def op_append_squeeze(rng, p, ctx):
    name = f"x{int(rng.integers(100))}"
    if name in p.coords.coord_map:
        return None
    if gen.chance(rng, 0.5):
        if all(x == 1 for x in p.shape):
            return None
        q = p.append_dims(name)
        out = q.squeeze(name) if gen.chance(rng, 0.5) else q.squeeze()
        ctx.check(tuple(q.dims) == (*p.dims, name) and q.shape == (*p.shape, 1), "append-shape", lambda: f"{q.dims} {q.shape}")
        # squeeze() also drops other length one dims
        dropped = [d for d in p.dims if d not in out.dims]
        drop = [n for n, ds in p.coords.dim_map.items() if set(ds) & set(dropped)]
        return out, {}, tuple(drop), (), f"append+squeeze {name}"
    labels = np.sort(rng.choice(1000, int(rng.integers(2, 4)), replace=False)).astype(float)
    q = p.append_dims(**{name: labels})
    ctx.check(mon.same(q.get_array(name), labels), "append-labels", lambda: f"{q.get_array(name)} {labels}")
    k = int(rng.integers(len(labels)))
    out = q.select(**{name: (k, k + 1)}, samples=True).squeeze(name)
    return out, {}, (), (), f"append{labels}+select+squeeze"


def op_add_drop(rng, p, ctx):
    d = gen.pick(rng, p.dims)
    n = len(p.get_coord(d))
    name = f"y{int(rng.integers(1000))}"
    if name in p.coords.coord_map:
        return None
    vals = rng.standard_normal(n)
    q = p.update_coords(**{name: (d, vals)})
    ctx.check(mon.close(q.get_array(name), vals, rtol=1e-12, atol=1e-12), "add-values", lambda: f"{q.get_array(name)} {vals}")
    if gen.chance(rng, 0.5):
        others = [c for c in q.coords.coord_map if c not in q.dims]
        drop = [str(x) for x in rng.permutation(others)[: int(rng.integers(1, len(others) + 1))]]
        q = q.drop_coords(*drop) if gen.chance(rng, 0.6) else q.update_coords(**{x: None for x in drop})
        added = () if name in drop else (name,)
        return q, {}, tuple(x for x in drop if x != name), added, f"add {name} drop {drop}"
    return q, {}, (), (name,), f"add {name}"


def op_order(rng, p, ctx):
    """A permutation of one dimension, by samples or values."""
    names = unique_1d(p)
    if not names:
        return None
    n = gen.pick(rng, names)
    d = p.coords.dim_map[n][0]
    vals = np.asarray(p.get_array(n))
    perm = rng.permutation(len(vals))
    if gen.chance(rng, 0.5):
        out = p.order(**{n: perm}, samples=True)
    else:
        if np.isnan(vals).any() if vals.dtype.kind == "f" else False:
            return None
        out = p.order(**{n: vals[perm]})
    want = np.take(p.data, perm, axis=p.dims.index(d))
    ctx.check(mon.same(out.data, want), "order-data", lambda: f"{n} {perm}: {out.data} want {want}")
    return out, {}, (), (), f"order {n} {perm}"


def op_broadcast(rng, p, ctx):
    shape = p.shape
    out = p.make_broadcastable_to(shape)
    return out, {}, (), (), f"broadcast {shape}"


OPS = (op_transpose, op_sort, op_flip, op_roll, op_rename, op_set_dims, op_append_squeeze, op_add_drop, op_order, op_broadcast)


def new_patch(rng, **kw):
    kw.setdefault("kinds", KINDS)
    return gen.patch(rng, **kw)


def apply(rng, p, ctx, func):
    sc = scales(p)
    before = tab(p)
    made = func(rng, p, ctx)
    if made is None:
        return None
    out, rename, dropped, added, what = made
    ctx.note(op=what, patch=gen.describe(p))
    for k, v in rename.items():
        sc[v] = sc.get(k, 1.0)
    what = f"{what} on {gen.describe(p)}"
    ctx.check(out.data.dtype == p.data.dtype, "dtype", what)
    same_table(ctx, before, tab(out), what, rename, dropped, added, sc=sc)
    units_kept(ctx, p, out, what, rename, dropped)
    structure(ctx, out, what)
    # coordinates with no dimension are untouched
    for n, ds in p.coords.dim_map.items():
        if not ds and n not in dropped:
            m = rename.get(n, n)
            ctx.check(m in out.coords.coord_map and mon.same(out.get_array(m), p.get_array(n)), "free-coord", lambda: f"{what}: {n}")
    return out


@family("P04", "single", quick=12000, thorough=150000)
def single(rng, ctx):
    func = OPS[ctx.index % len(OPS)]
    p, info = new_patch(rng)
    out = apply(rng, p, ctx, func)
    if out is None:
        ctx.skip(func.__name__)
    ctx.cover(func.__name__, tuple(sorted(str(info[d][1]) for d in p.dims)), p.ndim, "c_2d" in p.coords.coord_map)


@family("P04", "chains", quick=2500, thorough=40000)
def chains(rng, ctx):
    p, info = new_patch(rng)
    names = []
    for _ in range(int(rng.integers(2, 8))):
        func = gen.pick(rng, OPS)
        out = apply(rng, p, ctx, func)
        if out is None:
            continue
        p = out
        names.append(func.__name__)
    ctx.cover("chain", *names[:4])


@family("P04", "pad", quick=4000, thorough=50000)
def pad(rng, ctx):
    p, info = new_patch(rng, data_dtypes=("float64", "float32", "int32"))
    dims = [str(x) for x in rng.permutation(list(p.dims))[: int(rng.integers(1, p.ndim + 1))]]
    kw, widths = {}, {}
    samples = gen.chance(rng, 0.7)
    for d in dims:
        c = p.get_coord(d)
        n = len(c)
        forms = ["int", "tuple", "tuple"]
        if c.evenly_sampled or samples:
            forms += ["fft", "correlate"]
        form = gen.pick(rng, forms)
        if not samples and not c.evenly_sampled:
            ctx.skip("pad by value needs even sampling")
        if form in ("fft", "correlate"):
            from scipy.fft import next_fast_len
            target = next_fast_len(n if form == "fft" else 2 * n - 1)
            kw[d], widths[d] = form, (0, target - n)
            continue
        a, b = (int(x) for x in rng.integers(0, 4, 2))
        if form == "int":
            b = a
        widths[d] = (a, b)
        if samples:
            kw[d] = a if form == "int" else (a, b)
        else:
            step = c.step
            if not c.sorted or not (step > step * 0) or n < 2:
                ctx.skip("pad by value on reversed coordinate")
            mul = (lambda k: step * k) if not isinstance(step, np.timedelta64) else (lambda k: step * k)
            va, vb = mul(a), mul(b)
            if gen.chance(rng, 0.4) and c.units is not None and c.dtype.kind == "f":
                va, vb = float(va) * dc.get_unit(str(c.units.units)), float(vb) * dc.get_unit(str(c.units.units))
            kw[d] = va if form == "int" else (va, vb)
    fill = gen.pick(rng, [0, 3, -2])
    expand = gen.chance(rng, 0.75)
    if not expand and not samples:
        expand = True
    ctx.note(call=f"pad({kw}, samples={samples}, expand={expand})", patch=gen.describe(p))
    out = p.pad(samples=samples, constant_values=fill, expand_coords=expand, **kw)
    what = f"pad({kw}, samples={samples}, expand_coords={expand}) on {gen.describe(p)}"
    want = np.pad(np.asarray(p.data), [widths.get(d, (0, 0)) for d in p.dims], constant_values=fill)
    ctx.check(mon.same(out.data, want) and out.data.dtype == p.data.dtype, "pad-data", lambda: f"{what}: {out.shape} want {want.shape}\n{out.data}\n{want}")
    for d in p.dims:
        old, new = np.asarray(p.get_array(d)), np.asarray(out.get_array(d))
        a, b = widths.get(d, (0, 0))
        core = new[a: len(new) - b]
        tol = dict(rtol=1e-9, atol=1e-9 * (np.abs(old).max() if old.dtype.kind == "f" else 1)) if core.dtype.kind == "f" else {}
        ok = mon.close(core, old.astype(core.dtype) if core.dtype.kind == "f" else old, **tol) if tol else mon.same(core, old)
        ctx.check(ok, "pad-labels", lambda: f"{what}: {d}: {core} want {old}")
        ctx.check(mon.quant_same(p.get_coord(d).units, out.get_coord(d).units), "pad-units", lambda: f"{what}: {d}")
        if a + b and d in kw:
            c = p.get_coord(d)
            if expand and c.evenly_sampled and len(old) > 1:
                step = old[1] - old[0]
                full = np.concatenate([old[0] - step * np.arange(a, 0, -1), old, old[-1] + step * np.arange(1, b + 1)])
                ok = mon.same(new, full) or (new.dtype.kind == "f" and mon.close(new, full, rtol=1e-8, atol=1e-8 * np.abs(full).max()))
                ctx.check(ok, "pad-extension", lambda: f"{what}: {d}: {new} want {full}")
            elif not (expand and c.evenly_sampled):
                edge = np.concatenate([new[:a], new[len(new) - b:]])
                ctx.check(bool(pd.isnull(edge).all()), "pad-null-labels", lambda: f"{what}: {d}: {new}")
    # coordinates attached to unpadded dimensions only are unchanged
    for n, ds in p.coords.dim_map.items():
        if n not in p.dims and not any(sum(widths.get(x, (0, 0))) for x in ds):
            ctx.check(n in out.coords.coord_map and mon.same(out.get_array(n), p.get_array(n)), "pad-other-coord", lambda: f"{what}: {n}")
    structure(ctx, out, what)
    ctx.cover("pad", samples, expand, tuple(type(v).__name__ for v in kw.values()), tuple(info[d][1] for d in dims), fill != 0)


@family("P04", "align", quick=4000, thorough=50000)
def align(rng, ctx):
    ndim = gen.pick(rng, [2, 2, 3])
    names = [str(x) for x in rng.permutation(gen.DIM_NAMES)[:ndim]]
    d = gen.pick(rng, names)
    shape = tuple(int(rng.integers(3, 8)) for _ in names)
    coords = {}
    dt = gen.pick(rng, ["time", "float", "delta", "int"])
    for nm, n in zip(names, shape):
        dtype = dt if nm == d else "float"
        coords[nm] = dc.get_coord(data=gen.coord_values(rng, n, dtype, "even"))
    others = [x for x in names if x != d]
    cd = tuple(str(x) for x in rng.permutation(others)[: int(rng.integers(1, len(others) + 1))])
    cshape = tuple(shape[names.index(x)] for x in cd)
    mode = gen.pick(rng, ["full", "same", "valid"])
    n = shape[names.index(d)]
    lim = n - 1 if mode != "full" else n + 3
    shifts = rng.integers(-lim, lim + 1, cshape)
    if mode == "valid":
        shifts = rng.integers(-((n - 1) // 2), (n - 1) // 2 + 1, cshape)
    samples = gen.chance(rng, 0.5)
    if not samples and dt == "float" and mode != "full":
        shifts = np.clip(shifts, -(n - 2), n - 2)  # a shift of exactly the extent is a rounding matter
    step = coords[d].step
    reverse = gen.chance(rng, 0.3)
    frac = 0
    if samples:
        vals = shifts.astype(np.int64)
    else:
        # between-sample shifts are rounded away from zero to the next sample
        if dt in ("float",) and gen.chance(rng, 0.4):
            frac = 0.3
        vals = shifts * step
        if frac:
            vals = vals - np.sign(shifts) * step * frac
        if dt == "int":
            vals = vals.astype(np.int64)
    coords["shift"] = (cd, vals)
    data = gen.unique_data(rng, shape, "float64")
    p = dc.Patch(data=data, coords=coords, dims=tuple(names))
    fill = gen.pick(rng, [np.nan, -7.0])
    ctx.note(call=f"align_to_coord({d}='shift', mode={mode}, samples={samples}, reverse={reverse}) shifts={shifts.tolist()}", patch=gen.describe(p))
    out = p.align_to_coord(**{d: "shift"}, mode=mode, samples=samples, reverse=reverse, fill_value=fill)
    real = (-shifts if reverse else shifts).astype(np.int64)
    lo, hi = int(real.min()), int(real.max())
    if mode == "full":
        s0, s1 = lo, hi
    elif mode == "same":
        s0, s1 = 0, 0
    else:
        s0, s1 = max(hi, 0), min(lo, 0)
    length = n + s1 - s0
    want_shape = tuple(length if nm == d else s for nm, s in zip(names, shape))
    want = np.full(want_shape, fill)
    ax = names.index(d)
    cax = [names.index(x) for x in cd]
    for idx in np.ndindex(*shape):
        k = idx[ax] + int(real[tuple(idx[a] for a in cax)]) - s0
        if 0 <= k < length:
            pos = list(idx)
            pos[ax] = k
            want[tuple(pos)] = data[idx]
    what = f"align {d} {mode} samples={samples} reverse={reverse} shifts={vals.tolist()} dims={names} shape={shape}"
    ctx.check(out.data.shape == want_shape, "align-shape", lambda: f"{what}: {out.data.shape} want {want_shape}")
    ctx.check(mon.same(out.data, want), "align-data", lambda: f"{what}:\n{out.data}\nwant\n{want}")
    base = np.asarray(p.get_array(d))
    labels = base[0] + np.arange(s0, s0 + length) * (base[1] - base[0])
    got = np.asarray(out.get_array(d))
    ok = mon.same(got, labels) or (got.dtype.kind == "f" and mon.close(got, labels, rtol=1e-8, atol=1e-8 * np.abs(labels).max()))
    ctx.check(ok, "align-labels", lambda: f"{what}: {got} want {labels}")
    for nm in others:
        ctx.check(mon.same(out.get_array(nm), p.get_array(nm)), "align-other", lambda: f"{what}: {nm}")
    ctx.cover("align", mode, samples, reverse, dt, len(cd), np.isnan(fill), frac != 0, ndim)


@family("P04", "order-repeat", quick=2500, thorough=30000)
def order_repeat(rng, ctx):
    """order with repeated, missing and negative entries."""
    p, info = new_patch(rng, sizes=(2, 9))
    d = gen.pick(rng, p.dims)
    n = len(p.get_coord(d))
    idx = rng.integers(-n, n, int(rng.integers(1, n + 4)))
    out = p.order(**{d: idx}, samples=True)
    what = f"order({d}={idx}) on {gen.describe(p)}"
    ctx.check(mon.same(out.data, np.take(p.data, idx, axis=p.dims.index(d))), "order-data", lambda: what)
    for name, coord in p.coords.coord_map.items():
        ds = p.coords.dim_map[name]
        vals = np.asarray(coord.values)
        if d in ds:
            vals = np.take(vals, idx, axis=ds.index(d))
        got = np.asarray(out.get_array(name))
        ok = mon.same(got, vals) or (vals.dtype.kind == "f" and mon.close(got, vals, rtol=1e-12, atol=1e-12))
        ctx.check(ok, "order-coord", lambda: f"{what}: {name} {got} want {vals}")
    structure(ctx, out, what)
    if len(unique_dims(p)) == p.ndim:
        vals = np.asarray(p.get_array(d))
        out2 = p.order(**{d: vals[idx]})
        ctx.check(mon.same(out2.data, out.data), "order-values", lambda: f"order({d}={vals[idx]}) on {gen.describe(p)}:\n{out2.data}\n{out.data}")
    ctx.cover("order", info[d][:2], len(idx) > n, len(set(idx % n)) < len(idx))


@family("P04", "no-relabel", quick=2500, thorough=25000)
def no_relabel(rng, ctx):
    """flip/roll which are asked to leave coordinates alone move only data; roll by value."""
    p, info = new_patch(rng)
    if gen.chance(rng, 0.5):
        dims = [str(x) for x in rng.permutation(list(p.dims))[: int(rng.integers(1, p.ndim + 1))]]
        out = p.flip(*dims, flip_coords=False)
        want = np.flip(p.data, axis=tuple(p.dims.index(d) for d in dims))
        ctx.cover("flip-data-only", len(dims), tuple(info[d][1] for d in dims))
    else:
        dims = [d for d in p.dims if p.get_coord(d).evenly_sampled and len(p.get_coord(d)) > 1 and p.get_coord(d).sorted]
        if not dims:
            ctx.skip("no even dim")
        d = gen.pick(rng, dims)
        k = int(rng.integers(0, 6))
        out = p.roll(**{d: p.get_coord(d).step * k})
        want = np.roll(p.data, k, axis=p.dims.index(d))
        ctx.cover("roll-value", info[d], k)
    ctx.check(mon.same(out.data, want), "moved-data", lambda: gen.describe(p))
    ctx.check(mon.fp_cm(out.coords) == mon.fp_cm(p.coords), "coords-changed", lambda: str(mon.diff_fp(mon.fp_cm(p.coords), mon.fp_cm(out.coords))))


@family("P04", "snap", quick=2000, thorough=20000)
def snap(rng, ctx):
    """Snapping sorts, keeps the extent, and spaces labels evenly; each value keeps its rank."""
    p, info = new_patch(rng, sizes=(2, 9))
    dims = [d for d in unique_dims(p)]
    if not dims:
        ctx.skip("no unique dim")
    d = gen.pick(rng, dims)
    rev = gen.chance(rng, 0.3)
    out = p.snap_coords(d, reverse=rev)
    vals = np.asarray(p.get_array(d))
    order = np.argsort(vals, kind="stable")
    order = order[::-1] if rev else order
    what = f"snap({d}, reverse={rev}) on {gen.describe(p)}"
    ctx.check(mon.same(out.data, np.take(p.data, order, axis=p.dims.index(d))), "snap-data", lambda: what)
    got = np.asarray(out.get_array(d))
    srt = vals[order]
    sc = np.abs(srt).max() if srt.dtype.kind == "f" else 1
    if srt.dtype.kind == "f":
        want = np.linspace(srt[0], srt[-1], len(srt))
        ctx.check(mon.close(got, want, rtol=1e-9, atol=1e-9 * sc), "snap-labels", lambda: f"{what}: {got} want {want}")
    elif srt.dtype.kind in "mM":
        a = srt.astype("int64")
        want = (a[-1] - a[0]) * (np.arange(len(a)) / max(len(a) - 1, 1))
        ctx.check(bool(np.all(np.abs((got.astype("int64") - a[0]) - want) <= len(a) + 1)), "snap-labels", lambda: f"{what}: {got} want {want}")
    for name, coord in p.coords.coord_map.items():
        ds = p.coords.dim_map[name]
        if name != d and d in ds:
            v = np.take(np.asarray(coord.values), order, axis=ds.index(d))
            g = np.asarray(out.get_array(name))
            ctx.check(mon.same(g, v) or mon.close(g, v, rtol=1e-12, atol=1e-12), "snap-other", lambda: f"{what}: {name}")
    ctx.cover("snap", info[d][:2], rev, len(vals) > 2)


@family("P04", "from-table", quick=1500, thorough=15000)
def from_table(rng, ctx):
    """Attached coordinates from tables and origins sit at the right labels."""
    p, info = new_patch(rng, sizes=(2, 9), names=None)
    dims = [d for d in p.dims if p.get_array(d).dtype.kind == "f"]
    if not dims:
        ctx.skip("no float dim")
    d = gen.pick(rng, dims)
    vals = np.asarray(p.get_array(d))
    knots = np.sort(rng.choice(np.linspace(vals.min() - 1, vals.max() + 1, 40), 6, replace=False))
    df = pd.DataFrame({d: knots, "new_a": rng.standard_normal(6), "new_b": np.arange(6) * 2.0})
    extra = gen.chance(rng, 0.4)
    out = p.coords_from_df(df, extrapolate=extra)
    what = f"coords_from_df({d}, extrapolate={extra}) on {gen.describe(p)}"
    ctx.check(mon.same(out.data, p.data), "table-data", what)
    for col in ("new_a", "new_b"):
        ctx.check(tuple(out.coords.dim_map[col]) == (d,), "table-dims", what)
        if extra:
            y = df[col].values
            seg = np.clip(np.searchsorted(knots, vals) - 1, 0, 4)
            want = y[seg] + (y[seg + 1] - y[seg]) / (knots[seg + 1] - knots[seg]) * (vals - knots[seg])
        else:
            want = np.interp(vals, knots, df[col].values, left=np.nan, right=np.nan)
        ctx.check(mon.close(out.get_array(col), want, rtol=1e-7, atol=1e-7 + 2e-3 * float(np.ptp(want[~np.isnan(want)]) if (~np.isnan(want)).any() else 0)), "table-values", lambda: f"{what}: {out.get_array(col)} want {want}")
    same_table(ctx, tab(p), tab(out), what, added=("new_a", "new_b"), sc=scales(p))
    origin = pd.Series({"new_a": 0.5, "new_b": -1.0})
    q = out.add_distance_to(origin)
    dist = np.sqrt((out.get_array("new_a") - 0.5) ** 2 + (out.get_array("new_b") + 1.0) ** 2)
    ctx.check(mon.close(q.get_array("origin_distance"), dist, rtol=1e-9, atol=1e-12 + 2e-3 * float(np.nan_to_num(np.ptp(dist[~np.isnan(dist)]) if (~np.isnan(dist)).any() else 0))), "origin-distance", lambda: f"{what}: {q.get_array('origin_distance')} want {dist}")
    ctx.check(tuple(q.coords.dim_map["origin_distance"]) == (d,), "origin-dims", what)
    ctx.check(float(q.get_array("origin_new_a")[0]) == 0.5, "origin-value", what)
    same_table(ctx, tab(out), tab(q), what, added=("origin_distance",), sc=scales(out))
    ctx.cover("table", info[d][1], extra, p.ndim)
