"""P22: equality and conversions are trustworthy."""
from __future__ import annotations

import copy
import pickle

import numpy as np
import pandas as pd

import dascore as dc
from dascore.core import get_coord
from dascore.core.coordmanager import get_coord_manager
from dascore.utils.io import obspy_to_patch, xarray_to_patch
from dascore.utils.pd import dataframe_to_patch
from vf import boot, gen, mon
from vf.core import describe, family
from vf.ref import attrs_problem

describe(
    "P22",
    "Random patches, coordinates, coordinate managers, metadata and spools (memory, file and directory; nulls in data, labels and metadata; user defined metadata holding "
    "numbers, text, lists, mappings and arrays) are compared with themselves, with independent reconstructions from the same contents, with copies and pickles, with other "
    "types, and with versions of themselves in which exactly one thing was changed; then converted to mappings, tables, labelled arrays and streams and back. Monitors "
    "demand equality or inequality in both directions, that operands are not altered, and compare contents with fingerprints which don't use the library's equality. "
    "Non-trivial: distinct by (type, change or conversion, coordinate kind, data type).",
    [
        "float labels are compared with a tolerance, as documented; changes made here are at least a hundredth of the spacing of the labels",
        "two arrays which differ only in the type of number (int32, float64) may compare equal",
        "private, non-dimensional coordinates do not take part in equality (pinned by a repository test)",
        "an unordered collection of dimensions of a coordinate manager is not judged; the order of the dimensions of a patch is",
        "ObsPy streams are judged on 2-D patches with an even time dimension, on data, labels and string or number metadata",
    ],
)

DT = {d: ("float", "float", "int", "time", "delta") for d in gen.DIM_NAMES} | {"time": ("time", "time", "delta", "float")}


def extra_value(rng):
    return gen.pick(rng, [1, 2.5, "bob", None, np.nan, True, [1, 2, 3], (1, "a"), {"a": 1, "b": [1, 2]}, np.arange(3), np.array([1.5, np.nan]),
                          np.datetime64("2020-01-01", "ns"), np.timedelta64(3, "s"), pd.NaT])


def make(rng, ctx, nan=True, extras=True, **kwargs):
    kwargs = {"ndim": gen.pick(rng, [1, 2, 2, 3]), "sizes": (1, 7), "extra": 2, "with_attrs": True, "dim_dtypes": DT} | kwargs
    p, info = gen.patch(rng, **kwargs)
    if nan and p.data.dtype.kind in "fc" and p.data.size and gen.chance(rng, 0.4):
        data = np.array(p.data)
        data[rng.random(data.shape) < 0.3] = np.nan
        p = p.new(data=data)
    for d in p.dims:
        if p.get_array(d).dtype.kind in "fiu" and gen.chance(rng, 0.5):
            p = p.set_units(**{d: gen.pick(rng, ["m", "ft", "s"])})
    if extras and gen.chance(rng, 0.6):
        p = p.update_attrs(**{gen.pick(rng, ["bob", "my_thing", "note"]): extra_value(rng)})
    ctx.note(patch=gen.describe(p))
    return p, info


def judge(ctx, mech, a, b, equal, msg=""):
    """Equality (or not) in both directions, with both operators, without raising."""
    kinds = f"{type(a).__name__}"
    for x, y, way in ((a, b, ""), (b, a, "reversed ")):
        try:
            eq, ne = x == y, x != y
        except Exception as e:
            ctx.fail(f"{mech}-raises", f"{kinds}: {way}{type(e).__name__}: {e} {msg}")
        ctx.check(isinstance(eq, bool | np.bool_) and isinstance(ne, bool | np.bool_), f"{mech}-type", lambda: f"{eq!r}")
        ctx.check(bool(eq) == equal, f"{mech}-{'unequal' if equal else 'equal'}", lambda: f"{kinds} {way}{msg}")
        ctx.check(bool(ne) != bool(eq), f"{mech}-ne", lambda: f"{kinds} {msg}")


def rebuild(rng, p):
    """The same patch, made from its contents."""
    coords = {}
    for name, c in p.coords.coord_map.items():
        dims = p.coords.dim_map[name]
        if c._partial:
            coords[name] = (dims, c)
            continue
        coords[name] = (dims, c.__class__(**c.model_dump()))
    names = list(coords)
    rng.shuffle(names)
    attrs = copy.deepcopy({k: v for k, v in p.attrs.model_dump().items() if k not in ("coords", "dims")})
    keys = list(attrs)
    rng.shuffle(keys)
    return dc.Patch(data=np.array(p.data), dims=p.dims, coords={n: coords[n] for n in names}, attrs={k: attrs[k] for k in keys})


@family("P22", "same_contents", 2500, 25000)
def f_same(rng, ctx):
    p, info = make(rng, ctx)
    before = mon.fp_patch(p)
    items = {"patch": p, "coords": p.coords, "attrs": p.attrs}
    items |= {f"coord-{n}": c for n, c in p.coords.coord_map.items()}
    other = rebuild(rng, p)
    others = {"patch": other, "coords": other.coords, "attrs": other.attrs}
    for name, obj in items.items():
        kind = name.split("-")[0]
        judge(ctx, f"self-{kind}", obj, obj, True, name)
        for how, fn in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
            new = fn(obj)
            judge(ctx, f"{how}-{kind}", obj, new, True, name)
            if kind == "patch":
                ctx.check(mon.fp_patch(new) == before, f"{how}-contents", lambda: mon.diff_fp(before, mon.fp_patch(new)))
        if name in others:
            judge(ctx, f"rebuilt-{kind}", obj, others[name], True, name)
    for full in (True, False):
        for close in (True, False):
            if close and p.data.dtype.kind not in "fiubc":
                continue
            ctx.check(bool(p.equals(other, only_required_attrs=not full, close=close)), "equals-options", lambda: f"full={full} close={close}")
    for thing in (None, 1, "bob", {}, {"a": 1}, [1], (1, 2), object(), p.dims, p.get_coord(p.dims[0]) if p.dims else 0):
        for name, obj in items.items():
            if thing is obj or name.startswith("coord-"):
                continue
            judge(ctx, f"other-type-{name}", obj, thing, False, f"{type(thing)}")
        c = p.get_coord(p.dims[0])
        if thing is not c:
            judge(ctx, "other-type-coord", c, thing, False, f"{type(thing)}")
    ctx.check(mon.fp_patch(p) == before, "comparison-alters", "")
    for d in p.dims:
        ctx.cover("same", info[d][:2], p.data.dtype.name, p.ndim)


def moved_labels(rng, values):
    """Change one label (or all) by a bit of the spacing."""
    values = np.array(values)
    kind = values.dtype.kind
    i = tuple(int(rng.integers(0, n)) for n in values.shape)
    if kind in "UOS":
        values = values.astype(object)
        values[i] = str(values[i]) + "x"
        return values.astype(str)
    if kind in "mM":
        delta = np.timedelta64(int(gen.pick(rng, [1, 1000, 10**9])), "ns")
        if pd.isnull(values[i]):
            values[i] = np.array(5, dtype=values.dtype)
        elif gen.chance(rng, 0.3):
            values = values + delta
        else:
            values[i] = values[i] + delta if gen.chance(rng, 0.8) else values.dtype.type("NaT", "ns")
        return values
    if kind == "b":
        values[i] = not values[i]
        return values
    if kind in "iu":
        values[i] = values[i] + 1
        return values
    finite = values[np.isfinite(values)]
    spread = (finite.max() - finite.min()) / max(len(finite) - 1, 1) if finite.size else 1.0
    eps = np.finfo(values.dtype).eps * (np.abs(finite).max() if finite.size else 1)
    step = max(float(gen.pick(rng, [0.01, 0.1, 1.0])) * spread, 1000 * eps, 1e-300)
    if not np.isfinite(values[i]):
        values[i] = 1.0
    elif gen.chance(rng, 0.3):
        values = values + values.dtype.type(step)
    else:
        values[i] = values[i] + step if gen.chance(rng, 0.8) else np.nan
    return values


def c_data(rng, p):
    if not p.data.size:
        return None
    data = np.array(p.data)
    i = tuple(int(rng.integers(0, n)) for n in data.shape)
    k = data.dtype.kind
    if k == "b":
        data[i] = not data[i]
    elif k in "iu":
        data[i] = data[i] ^ 1
    elif k in "mM":
        data[i] = np.array(3, data.dtype)
    elif k not in "fc":
        return None
    elif np.isnan(data[i]):
        data[i] = 0
    elif k == "f" and gen.chance(rng, 0.5):
        data[i] = np.nextafter(data[i], np.inf, dtype=data.dtype)
    elif gen.chance(rng, 0.5):
        data[i] = np.nan
    else:
        data[i] = data[i] + 1
    return p.new(data=data)


def c_label(rng, p):
    name = gen.pick(rng, [n for n, c in p.coords.coord_map.items() if not c._partial and c.size and not n.startswith("_")] or [None])
    if name is None:
        return None
    c = p.get_coord(name)
    new = get_coord(data=moved_labels(rng, c.values), units=c.units)
    if mon.same(np.asarray(new.values), np.asarray(c.values)):
        return None
    return dc.Patch(data=p.data, dims=p.dims, coords={n: (p.coords.dim_map[n], c if n != name else new) for n, c in p.coords.coord_map.items()},
                    attrs=p.attrs.model_copy(update={"coords": {}}))


def c_units(rng, p):
    names = [n for n, c in p.coords.coord_map.items() if not c._partial and np.asarray(c.values).dtype.kind in "fiu"]
    if not names:
        return None
    name = gen.pick(rng, names)
    old = p.get_coord(name).units
    new = gen.pick(rng, ["m", "cm", "km", "s", "10 m", None])
    if mon.quant_same(old, new):
        return None
    return p.set_units(**{name: new})


def c_data_units(rng, p):
    new = gen.pick(rng, ["m", "m/s", "cm", "10 m", "strain", None])
    return None if mon.quant_same(p.attrs.data_units, new) else p.update_attrs(data_units=new)


def c_attr(rng, p):
    name = gen.pick(rng, ["data_type", "data_category", "instrument_id", "acquisition_id", "tag", "station", "network"])
    new = {"data_type": "strain_rate", "data_category": "DAS"}.get(name, "other")
    old = getattr(p.attrs, name)
    return p.update_attrs(**{name: new if old != new else ""})


def c_extra_coord(rng, p):
    dim = gen.pick(rng, list(p.dims))
    return p.update_coords(brand_new=(dim, np.arange(p.coords.coord_size(dim)) + 1.0)) if gen.chance(rng, 0.7) else p.update_coords(brand_new=((), np.array([1.0])) if False else (None, np.arange(3)))


def c_drop(rng, p):
    names = [n for n in p.coords.coord_map if n not in p.dims and not n.startswith("_")]
    return p.drop_coords(gen.pick(rng, names)) if names else None


def c_rename(rng, p):
    return p.rename_coords(**{gen.pick(rng, [n for n in p.coords.coord_map if not n.startswith("_")]): "renamed"})


def c_transpose(rng, p):
    dims = [str(d) for d in rng.permutation(p.dims)]
    return None if tuple(dims) == p.dims else p.transpose(*dims)


def c_move_coord(rng, p):
    """The same values attached to another dimension of the same length."""
    for n, dims in p.coords.dim_map.items():
        if n in p.dims or n.startswith("_") or len(dims) != 1:
            continue
        for d in p.dims:
            if d not in dims and p.coords.coord_size(d) == p.coords.coord_size(dims[0]):
                return p.update_coords(**{n: (d, np.array(p.get_array(n)))}).set_units(**{n: p.get_coord(n).units})
    return None


def c_swap_labels(rng, p):
    """Two labels are exchanged (the same set of labels)."""
    name = gen.pick(rng, list(p.dims))
    c = p.get_coord(name)
    vals = np.array(c.values)
    if c._partial or len(vals) < 2:
        return None
    i = int(rng.integers(0, len(vals) - 1))
    vals[[i, i + 1]] = vals[[i + 1, i]]
    if mon.same(vals, c.values):
        return None
    return p.new(coords=p.coords.update(**{name: get_coord(data=vals, units=c.units)}))


def c_one_less(rng, p):
    dim = gen.pick(rng, list(p.dims))
    n = p.coords.coord_size(dim)
    if n < 2:
        return None
    return p.select(**{dim: (0, n - 1)}, samples=True) if gen.chance(rng, 0.5) else p.select(**{dim: (1, n)}, samples=True)


CHANGES = {f.__name__[2:]: f for f in (c_data, c_label, c_units, c_data_units, c_attr, c_extra_coord, c_drop, c_rename, c_transpose, c_move_coord, c_swap_labels, c_one_less)}


@family("P22", "single_change", 4000, 40000)
def f_change(rng, ctx):
    p, info = make(rng, ctx, sizes=(1, 6), extra=3)
    if gen.chance(rng, 0.15):  # labels which are small, or far from 0
        dim = gen.pick(rng, list(p.dims))
        n = p.coords.coord_size(dim)
        if n > 1:
            vals = gen.pick(rng, [np.arange(n) * 1e-9, 1.6e9 + np.arange(n) * 0.01, 1e6 + np.arange(n), np.arange(n) + 10**7, -3e8 - np.cumsum(rng.random(n) + 0.5)])
            p = p.update_coords(**{dim: vals})
    kind = gen.pick(rng, list(CHANGES))
    ctx.note(change=kind)
    q = CHANGES[kind](rng, p)
    if q is None:
        ctx.skip("no such change")
    fa, fb = mon.fp_patch(p), mon.fp_patch(q)
    judge(ctx, f"change-{kind}", p, q, False, kind)
    for full in (True, False):
        ctx.check(not p.equals(q, only_required_attrs=not full) and not q.equals(p, only_required_attrs=not full), f"change-{kind}-equals", kind)
    if kind in ("label", "units", "extra_coord", "drop", "rename", "move_coord", "swap_labels", "one_less"):
        judge(ctx, f"change-coords-{kind}", p.coords, q.coords, False, kind)
        if kind in ("label", "units", "swap_labels"):
            bad = [n for n in p.coords.coord_map if mon.fp_coord(p.get_coord(n)) != mon.fp_coord(q.get_coord(n))]
            for n in bad:
                judge(ctx, f"change-coord-{kind}", p.get_coord(n), q.get_coord(n), False, n)
    if kind in ("attr", "data_units"):
        judge(ctx, f"change-attrs-{kind}", p.attrs, q.attrs, False, kind)
    if kind == "data" and p.data.dtype.kind in "fc":
        want = np.allclose(p.data, q.data, equal_nan=True)
        ctx.check(bool(p.equals(q, close=True)) == bool(want), "equals-close", lambda: f"expected {want}")
    ctx.check(mon.fp_patch(p) == fa and mon.fp_patch(q) == fb, "comparison-alters", kind)
    ctx.cover("change", kind, p.data.dtype.name, p.ndim, sorted(info[d][0] for d in p.dims if d in info))


@family("P22", "user_metadata", 2000, 20000)
def f_meta(rng, ctx):
    """User defined metadata counts only when asked for; history never does for ==."""
    p, _ = make(rng, ctx, extras=False)
    v1, v2 = extra_value(rng), extra_value(rng)
    one, two = repr(v1), repr(v2)
    null = [not isinstance(v, (list, tuple, dict, np.ndarray)) and bool(pd.isnull(v)) for v in (v1, v2)]
    a, b = p.update_attrs(thing=v1), p.update_attrs(thing=copy.deepcopy(v2))
    ctx.note(v1=one, v2=two)
    same = one == two or all(null) or {one, two} == {"1", "True"}
    judge(ctx, "extra-ignored", a, b, True)
    judge(ctx, "extra-ignored", a, p, True)
    ctx.check(not a.equals(p, only_required_attrs=False) and not p.equals(a, only_required_attrs=False), "extra-missing", "")
    try:
        got = a.equals(b, only_required_attrs=False), b.equals(a, only_required_attrs=False)
    except Exception as e:
        ctx.fail("extra-raises", f"{one} {two}: {type(e).__name__}: {e}")
    ctx.check(got == (same, same), "extra-equality", lambda: f"{one} {two}: {got}, expected {same}")
    judge(ctx, "extra-attrs", a.attrs, b.attrs, same, f"{one} {two}")
    h = p.update_attrs(history=(*tuple(p.attrs.history), "something"))
    judge(ctx, "history-ignored", p, h, True)
    ctx.check(not p.equals(h, only_required_attrs=False), "history-full", "")
    ctx.cover("meta", type(v1).__name__, type(v2).__name__)


@family("P22", "coord_equality", 4000, 40000)
def f_coord(rng, ctx):
    dtype = gen.pick(rng, ["float", "float", "int", "time", "delta"])
    n = int(rng.integers(1, 9))
    kind = gen.pick(rng, ["even", "even-desc", "mono", "mono-desc", "jitter", "unsorted"])
    values = np.asarray(gen.coord_values(rng, n, dtype, kind))
    units = gen.pick(rng, [None, "m", "ft"]) if values.dtype.kind in "fiu" else None
    a = get_coord(data=values, units=units)
    b = get_coord(data=values.copy(), units=units)
    ctx.note(values=str(values), units=units, dtype=dtype, kind=kind)
    judge(ctx, "coord-same", a, b, True)
    ctx.check(bool(a.approx_equal(b)) and bool(b.approx_equal(a)), "coord-approx", "")
    changed = moved_labels(rng, values)
    c = get_coord(data=changed, units=units)
    if not mon.same(np.asarray(a.values), np.asarray(c.values)):
        judge(ctx, "coord-changed", a, c, False, f"{values} {changed}")
        ctx.check(not a.approx_equal(c) and not c.approx_equal(a), "coord-approx-changed", lambda: f"{values} {changed}")
    if values.dtype.kind == "f":
        near = values * (1 + 1e-15)
        ctx.check(bool(a.approx_equal(get_coord(data=near, units=units))), "coord-rounding", lambda: f"{values}")
    if n > 1:
        judge(ctx, "coord-shorter", a, a[:-1], False)
    # copies through other representations
    for how, new in (
        ("new", a.new()),
        ("fields", a.__class__(**a.model_dump())),
        ("coord", get_coord(data=a)),
        ("update", a.update()),
        ("index", a[:]),
    ):
        judge(ctx, f"coord-{how}", a, new, True)
        ctx.check(bool(a.approx_equal(new)), f"coord-{how}-approx", "")
        ctx.check(mon.fp_coord(new) == mon.fp_coord(a), f"coord-{how}-contents", lambda: f"{new} {a}")
    new = get_coord(data=np.asarray(a), units=a.units)
    ctx.check(bool(a.approx_equal(new)) and bool(new.approx_equal(a)), "coord-array", lambda: f"{new} {a}")
    if a.evenly_sampled and len(a) > 1:
        s = a.to_summary().to_coord()
        ctx.check(s.shape == a.shape and s.approx_equal(a), "coord-summary", lambda: f"{s} {a}")
    judge(ctx, "coord-summary-eq", a.to_summary(), b.to_summary(), True)
    ctx.cover("coord", dtype, kind, units)


# ----------------------------------------------------------------------------------------- mappings


@family("P22", "mappings", 2000, 20000)
def f_mappings(rng, ctx):
    p, info = make(rng, ctx)
    cm = p.coords
    way = gen.pick(rng, ["arrays", "coords", "tuple_map", "fields", "attrs_dump", "attrs_items", "attrs_flat", "parts", "patch", "new", "update_coords"])
    ctx.note(way=way)
    if way in ("arrays", "coords", "tuple_map", "fields"):
        if way == "arrays":
            if any(c._partial for c in cm.coord_map.values()):
                ctx.skip("partial")
            new = get_coord_manager({n: (cm.dim_map[n], np.array(c.values)) for n, c in cm.coord_map.items()}, dims=cm.dims)
            new = new.set_units(**{n: c.units for n, c in cm.coord_map.items() if c.units is not None})
        elif way == "coords":
            new = get_coord_manager({n: (cm.dim_map[n], c) for n, c in cm.coord_map.items()}, dims=cm.dims)
        elif way == "tuple_map":
            new = get_coord_manager(cm.get_coord_tuple_map(), dims=cm.dims)
        else:
            new = cm.__class__(dims=cm.dims, coord_map=dict(cm.coord_map), dim_map=dict(cm.dim_map))
        judge(ctx, f"mapping-{way}", cm, new, True)
        ctx.check(new.dims == cm.dims and dict(new.dim_map) == dict(cm.dim_map), f"mapping-{way}-contents", lambda: f"{cm} {new}")
    elif way.startswith("attrs"):
        a = p.attrs
        if way == "attrs_dump":
            new = dc.PatchAttrs(**a.model_dump())
        elif way == "attrs_items":
            new = dc.PatchAttrs.from_dict(dict(a.items()))
        else:
            # The flat form can only name dimensions.
            a = p.drop_coords(*(set(p.coords.coord_map) - set(p.dims))).attrs
            new = dc.PatchAttrs.from_dict(a.flat_dump())
            ctx.check(set(new.coords) == set(a.coords), "flat-coords", lambda: f"{set(a.coords) ^ set(new.coords)}")
        judge(ctx, f"mapping-{way}", a, new, True, f"{a} {new}")
    else:
        if way == "parts":
            new = dc.Patch.from_parts(p.data, p.coords, p.attrs)
        elif way == "patch":
            new = dc.Patch(p)
        elif way == "new":
            new = p.new()
        else:
            new = p.update_coords()
        judge(ctx, f"mapping-{way}", p, new, True)
        a, b = mon.fp_patch(p), mon.fp_patch(new)
        if way != "update_coords":
            ctx.check(a == b, f"mapping-{way}-contents", lambda: mon.diff_fp(a, b))
    ctx.cover("mapping", way, p.ndim, sorted(info[d][:2] for d in p.dims))


@family("P22", "table", 1500, 15000)
def f_table(rng, ctx):
    p, info = make(rng, ctx, ndim=2, extra=0, data_dtypes=("float64", "float32", "int32", "complex128"), nan=True)
    before = mon.fp_patch(p)
    df = p.io.to_dataframe()
    ctx.check(np.array_equal(df.to_numpy(), p.data, equal_nan=p.data.dtype.kind in "fc"), "table-values", "")
    ctx.check(mon.same(df.index.to_numpy(), p.get_array(p.dims[0])) and mon.same(df.columns.to_numpy(), p.get_array(p.dims[1])), "table-labels",
              lambda: f"{df.index.to_numpy()} {p.get_array(p.dims[0])}")
    ctx.check((df.index.name, df.columns.name) == p.dims, "table-names", "")
    ctx.check(not (bad := [k for k in p.attrs.model_dump() if k not in df.attrs]), "table-attrs", lambda: f"{bad}")
    out = dataframe_to_patch(df, attrs=gen.pick(rng, [df.attrs, p.attrs.model_dump()]))
    ctx.check(out.dims == p.dims and mon.same(out.data, p.data) and out.data.dtype == p.data.dtype, "table-back", "")
    judge(ctx, "table-equal", p, out, True)
    bare = dataframe_to_patch(df)
    ctx.check(bare.dims == p.dims and all(mon.close(np.asarray(bare.get_array(d)), np.asarray(p.get_array(d))) for d in p.dims), "table-bare", "")
    # Without names the dimensions come from the attrs.
    df2 = pd.DataFrame(np.array(p.data), index=df.index.to_numpy(), columns=df.columns.to_numpy())
    out2 = dataframe_to_patch(df2, attrs={"dims": p.dims, "tag": "x"})
    ctx.check(out2.dims == p.dims and out2.attrs.tag == "x" and mon.same(out2.data, p.data), "table-unnamed", "")
    ctx.raises(lambda: dataframe_to_patch(df2), "table-no-names", ValueError)
    # The patch is not affected by changing the table.
    if df.size and p.data.dtype.kind in "fc":
        keep = np.array(p.data)
        df.iloc[0, 0] = 12345
        ctx.check(np.array_equal(p.data, keep, equal_nan=True), "table-aliases", "")
    ctx.check(mon.fp_patch(p) == before, "table-alters", "")
    # Lists of patches to a table of contents.
    rows = dc.spool([p]).get_contents()
    flat = p.attrs.flat_dump()
    for d in p.dims:
        if p.get_array(d).dtype.kind in "fiumM" and f"{d}_min" in rows:
            ctx.check(mon.scalar_same(rows[f"{d}_min"].iloc[0], flat[f"{d}_min"]) and mon.scalar_same(rows[f"{d}_max"].iloc[0], flat[f"{d}_max"]), "table-contents",
                      lambda d=d: f"{rows[f'{d}_min'].iloc[0]} {flat[f'{d}_min']}")
    ctx.cover("table", p.data.dtype.name, info[p.dims[0]][:2], info[p.dims[1]][:2])


@family("P22", "labelled_array", 1500, 15000)
def f_xarray(rng, ctx):
    import xarray as xr

    p, info = make(rng, ctx)
    before = mon.fp_patch(p)
    da = p.io.to_xarray()
    ctx.check(isinstance(da, xr.DataArray) and da.dims == p.dims and da.shape == p.shape, "xarray-dims", lambda: f"{da.dims}")
    ctx.check(mon.same(da.data, p.data), "xarray-values", "")
    for n, c in p.coords.coord_map.items():
        if c._partial or not p.coords.dim_map[n]:
            continue
        ctx.check(n in da.coords and tuple(da.coords[n].dims) == p.coords.dim_map[n] and mon.same(da.coords[n].values, np.asarray(c.values)), "xarray-labels",
                  lambda n=n, c=c: f"{n} {da.coords.get(n)} {c}")
    out = xarray_to_patch(da)
    if all(not c._partial and p.coords.dim_map[n] for n, c in p.coords.coord_map.items()):
        for n, c in p.coords.coord_map.items():
            ctx.check(mon.quant_same(out.get_coord(n).units, c.units), "xarray-units", lambda n=n, c=c: f"{n}: {c.units} -> {out.get_coord(n).units}")
        judge(ctx, "xarray-equal", p, out, True)
    ctx.check(out.dims == p.dims and mon.same(out.data, p.data) and out.data.dtype == p.data.dtype, "xarray-data", "")
    ctx.check(not (why := attrs_problem(p, out)), "xarray-attrs", lambda: why)
    ctx.check(mon.fp_patch(p) == before, "xarray-alters", "")
    ctx.cover("xarray", p.data.dtype.name, p.ndim, sorted(info[d][:2] for d in p.dims))


@family("P22", "stream", 600, 5000)
def f_obspy(rng, ctx):
    import obspy

    other = gen.pick(rng, ["distance", "offset", "depth"])
    names = [other, "time"] if gen.chance(rng, 0.5) else ["time", other]
    shape = {"time": int(rng.integers(2, 40)), other: int(rng.integers(1, 6))}
    p, info = gen.patch(rng, names=names, shape=tuple(shape[x] for x in names), kinds=("even", "mono", "unsorted"), data_dtypes=("float64", "float32", "int32"), with_attrs=True,
                        dim_dtypes={"time": ("time",), other: ("float", "int")}, extra=0)
    step = np.timedelta64(int(gen.pick(rng, [1_000_000_000, 500_000, 2_000_000, 1_000_000, 250_000_000, 100_000, 123_457, 7, 60_000_000_000])), "ns")
    start = np.datetime64(int(gen.pick(rng, [0, 1_500_000_000_123_456_789, 1_600_000_000_000_000_000, -5_000_000_000])), "ns")
    p = p.update_coords(time=start + np.arange(shape["time"]) * step)
    names = p.dims
    ctx.note(patch=gen.describe(p), step=str(step))
    before = mon.fp_patch(p)
    st = p.io.to_obspy()
    data = p.data if p.dims[-1] == "time" else p.data.T
    labels = np.asarray(p.get_array(other))
    t = np.asarray(p.get_array("time"))
    ctx.check(isinstance(st, obspy.Stream) and len(st) == len(labels), "stream-count", lambda: f"{len(st)}")
    for i, tr in enumerate(st):
        ctx.check(mon.same(tr.data, data[i]) and tr.data.dtype == data.dtype, "stream-values", lambda: f"trace {i}")
        ctx.check(tr.stats[other] == labels[i], "stream-labels", lambda: f"{tr.stats[other]} {labels[i]}")
        ctx.check(tr.stats.starttime.ns == int(t[0].astype("int64")), "stream-start", lambda: f"{tr.stats.starttime.ns} {t[0]}")
        ctx.check(abs(tr.stats.delta * 1e9 - int(step.astype("int64"))) <= 1e-6 * max(1, int(step.astype("int64"))) * 1e-3, "stream-delta", lambda: f"{tr.stats.delta} {step}")
        ctx.check(all(tr.stats.get(k) == v for k, v in p.attrs.model_dump().items() if k in ("tag", "data_type", "instrument_id")), "stream-attrs", lambda: f"{tr.stats}")
        ctx.check(tr.stats.npts == len(t), "stream-npts", "")
    out = obspy_to_patch(st, dim=other)
    ctx.check(out.dims == (other, "time"), "stream-back-dims", lambda: f"{out.dims}")
    ctx.check(mon.same(out.data, data) and out.data.dtype == data.dtype, "stream-back-values", "")
    ctx.check(mon.close(np.asarray(out.get_array(other)), labels), "stream-back-labels", lambda: f"{out.get_array(other)} {labels}")
    drift = np.abs(np.asarray(out.get_array("time")).astype("int64") - t.astype("int64")).max()
    ctx.check(drift == 0, "stream-back-times", lambda: f"times differ by up to {drift} ns; step {step}")
    ctx.check(not (why := attrs_problem(p, out, ["channel", "location", "processing", "_format"])), "stream-back-attrs", lambda: why)
    back = out.transpose(*p.dims).set_units(**{d: p.get_coord(d).units for d in p.dims})
    judge(ctx, "stream-equal", p, back, True)
    ctx.check(mon.fp_patch(p) == before, "stream-alters", "")
    ctx.cover("stream", str(step), info[other][:2], p.data.dtype.name, p.dims)


# ------------------------------------------------------------------------------------------- spools


def spool_patches(rng, ctx, k):
    out = []
    t = gen.BASE_TIME
    for i in range(k):
        n = int(rng.integers(2, 6))
        data = rng.standard_normal((n, 3))
        if gen.chance(rng, 0.3):
            data[0, 0] = np.nan
        p = dc.Patch(data=data, dims=("time", "distance"), coords={"time": t + np.arange(n) * np.timedelta64(1, "s"), "distance": np.arange(3.0) * 2},
                     attrs={"tag": gen.pick(rng, ["", "a", "b"]), "station": "s"})
        t = t + np.timedelta64(n + int(rng.integers(0, 3)), "s")
        out.append(p)
    return out


@family("P22", "spools", 400, 4000)
def f_spools(rng, ctx):
    k = int(rng.integers(1, 5))
    ps = spool_patches(rng, ctx, k)
    copies = [copy.deepcopy(p) for p in ps]
    kind = gen.pick(rng, ["memory", "memory", "directory", "file"])
    change = gen.pick(rng, ["none", "data", "attr", "order", "less", "more", "label"])
    ctx.note(kind=kind, change=change, k=k)
    if kind == "memory":
        a, b = dc.spool(ps), dc.spool(copies)
        if gen.chance(rng, 0.5):
            a.get_contents()
        if gen.chance(rng, 0.3):
            b[0]
        judge(ctx, "spool-same", a, b, True)
        judge(ctx, "spool-self", a, a, True)
        for how, fn in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
            new = fn(a)
            judge(ctx, f"spool-{how}", a, new, True)
            ctx.check(len(new) == k and all(mon.fp_patch(x) == mon.fp_patch(y) for x, y in zip(new, ps)), f"spool-{how}-contents", "")
        i = int(rng.integers(0, k))
        if change == "data":
            data = np.array(copies[i].data)
            data[-1, -1] += 1
            copies[i] = copies[i].new(data=data)
        elif change == "attr":
            copies[i] = copies[i].update_attrs(station="other")
        elif change == "label":
            copies[i] = copies[i].update_coords(distance=np.array([0.0, 2.0, 5.0]))
        elif change == "order":
            copies = copies[::-1]
        elif change == "less":
            copies = copies[1:]
        elif change == "more":
            copies = [*copies, copies[-1]]
        if change == "none" or (change == "order" and k == 1):
            ctx.cover("spool", kind, change, k)
            return
        judge(ctx, f"spool-{change}", a, dc.spool(copies) if copies else dc.spool([]), False, change)
        judge(ctx, "spool-select", a, dc.spool(ps).select(distance=(0, 2)), False)
        judge(ctx, "spool-select-same", a.select(distance=(0, 2)), dc.spool(ps).select(distance=(0, 2)), True)
        judge(ctx, "spool-other", a, None, False)
    else:
        with boot.scratch_dir() as path:
            (path / "d").mkdir()
            for i, p in enumerate(ps):
                dc.write(p, path / "d" / f"{i}.h5", "dasdae")
            target = path / "d" if kind == "directory" else path / "d" / "0.h5"

            def get():
                return dc.spool(target).update(progress=None) if kind == "directory" else dc.spool(target)

            a, b = get(), get()
            judge(ctx, f"{kind}-same", a, b, True)
            if gen.chance(rng, 0.5):
                a[0]
                judge(ctx, f"{kind}-after-use", a, b, True)
            for how, fn in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
                new = fn(a)
                judge(ctx, f"{kind}-{how}", a, new, True)
                ctx.check(len(new) == len(b) and all(mon.fp_patch(x) == mon.fp_patch(y) for x, y in zip(new, b)), f"{kind}-{how}-contents", "")
            judge(ctx, f"{kind}-select", a, get().select(time=(ps[0].get_coord("time").min(), ps[0].get_array("time")[0])), False)
            judge(ctx, f"{kind}-memory", a, dc.spool(ps), False)
            if kind == "directory" and k > 1:
                judge(ctx, "directory-slice", a, get()[1:], False)
                judge(ctx, "directory-slice-same", a[1:], get()[1:], True)
    ctx.cover("spool", kind, change, k)
