"""Monitors shared by several checks."""
from __future__ import annotations

import numpy as np
import pandas as pd

import dascore as dc


# ---------------------------------------------------------------- comparisons

def same(a, b):
    """Exact equality of two arrays, nulls equal to nulls, dtype kind equal."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
        return bool(np.all(a.astype(str) == b.astype(str)))
    if (a.dtype.kind in "mM") != (b.dtype.kind in "mM"):
        return False
    with np.errstate(all="ignore"):
        eq = a == b
        null = pd.isnull(a) & pd.isnull(b) if a.ndim else np.asarray(pd.isnull(a) and pd.isnull(b))
    return bool(np.all(eq | null))


def scalar_same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    if pd.isnull(a) and pd.isnull(b):
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def close(a, b, rtol=1e-9, atol=0.0):
    """Closeness for floats/complex, exactness for everything else."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "mM" or b.dtype.kind in "mM":
        if a.dtype.kind != b.dtype.kind:
            return False
        ai, bi = a.astype("int64"), b.astype("int64")
        return bool(np.all(np.abs(ai - bi) <= 1)) if atol else same(a, b)
    if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
        return same(a, b)
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def quant_same(a, b):
    a, b = dc.get_quantity(a), dc.get_quantity(b)
    if a is None or b is None:
        return a is None and b is None
    try:
        return bool(a == b)
    except Exception:
        return False


# ---------------------------------------------------------------- fingerprints

def fp_array(arr):
    arr = np.asarray(arr)
    if arr.dtype == object:
        return ("O", arr.shape, repr(arr.tolist()))
    return (arr.dtype.str, arr.shape, np.ascontiguousarray(arr).tobytes())


def fp_coord(c):
    return (type(c).__name__, str(c.units), repr(c.step), c.shape, str(c.dtype), fp_array(c.values),
            repr(c.min()), repr(c.max()), bool(c.sorted), bool(c.reverse_sorted), bool(c.evenly_sampled))


def fp_cm(cm):
    return (tuple(cm.dims), tuple(sorted((k, tuple(v)) for k, v in cm.dim_map.items())),
            tuple((k, fp_coord(v)) for k, v in sorted(cm.coord_map.items())))


def fp_attrs(a):
    return tuple(sorted((k, repr(v)) for k, v in dict(a.model_dump()).items()))


def fp_patch(p):
    return (tuple(p.dims), fp_array(p.data), fp_cm(p.coords), fp_attrs(p.attrs))


def fp_any(obj, depth=0):
    """Deep fingerprint of anything the workload passes to the library."""
    if isinstance(obj, dc.Patch):
        return ("patch", fp_patch(obj))
    if isinstance(obj, np.ndarray):
        return ("arr", fp_array(obj))
    if isinstance(obj, pd.DataFrame):
        return ("df", tuple(map(str, obj.columns)), repr(obj.index.tolist()), obj.to_csv(), tuple(map(str, obj.dtypes)))
    if isinstance(obj, pd.Series):
        return ("ser", repr(obj.index.tolist()), repr(obj.tolist()), str(obj.dtype))
    if isinstance(obj, dc.BaseSpool):
        return ("spool", fp_any(obj.get_contents()), len(obj))
    if isinstance(obj, dict):
        return ("dict", tuple((repr(k), fp_any(v, depth + 1)) for k, v in obj.items()))
    if isinstance(obj, list | tuple):
        return (type(obj).__name__, tuple(fp_any(v, depth + 1) for v in obj))
    if isinstance(obj, set | frozenset):
        return ("set", tuple(sorted(map(repr, obj))))
    if hasattr(obj, "coord_map") and hasattr(obj, "dim_map"):
        return ("cm", fp_cm(obj))
    if hasattr(obj, "evenly_sampled") and hasattr(obj, "values"):
        return ("coord", fp_coord(obj))
    if hasattr(obj, "model_dump"):
        return ("model", repr(obj.model_dump()))
    if hasattr(obj, "magnitude") and hasattr(obj, "units"):
        return ("quant", fp_any(np.asarray(obj.magnitude)), str(obj.units))
    return ("other", repr(obj))


def diff_fp(a, b, path=""):
    """Locate the first difference between two fingerprints."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_fp(x, y, f"{path}/{i}")
            if d:
                return d
    return f"{path}: {str(a)[:150]} != {str(b)[:150]}"


# ---------------------------------------------------------------- structure

gen_names = {f"{c}{n}" for n in ("time", "distance", "depth", "channel") for c in ("", "c_")} | {"c_2d", "c_none"}


def structure_problems(p):
    """Independent consistency audit of a patch; returns a list of (mech, text)."""
    out = []

    def bad(mech, text):
        out.append((mech, text))

    dims = tuple(p.dims)
    data = p.data
    cm = p.coords
    if len(set(dims)) != len(dims):
        bad("dims-unique", f"duplicate dims {dims}")
    if tuple(cm.dims) != dims:
        bad("dims-coords", f"{cm.dims} {dims}")
    shape = tuple(np.shape(data))
    if len(shape) != len(dims):
        bad("ndim", f"data.ndim={len(shape)} dims={dims}")
    if tuple(p.shape) != shape or p.ndim != len(shape) or p.size != int(np.prod(shape)):
        bad("shape-attr", f"patch.shape={p.shape} ndim={p.ndim} size={p.size} data shape={shape}")
    sizes = dict(zip(dims, shape))
    for dim in dims:
        if dim not in cm.coord_map:
            bad("missing-dim-coord", dim)
            continue
        coord = cm.coord_map[dim]
        if tuple(cm.dim_map.get(dim, ())) != (dim,):
            bad("dim-map", f"{dim} -> {cm.dim_map.get(dim)}")
        if len(coord.shape) != 1 or coord.shape[0] != sizes[dim]:
            bad("coord-shape", f"{dim}: coord {coord.shape} data {sizes[dim]}")
    if tuple(cm.shape) != shape:
        bad("cm-shape", f"{cm.shape} {shape}")
    for name, coord in cm.coord_map.items():
        cdims = tuple(cm.dim_map[name])
        values = np.asarray(coord.values)
        if tuple(values.shape) != tuple(coord.shape):
            bad("values-shape", f"{name}: values {values.shape} shape {coord.shape}")
        if cdims:
            if any(d not in sizes for d in cdims):
                bad("foreign-dim", f"{name} {cdims} not in {dims}")
            else:
                want = tuple(sizes[d] for d in cdims)
                if tuple(coord.shape) != want:
                    bad("nondim-shape", f"{name}: {coord.shape} want {want}")
    # metadata against coordinates
    at = p.attrs
    if tuple(at.dim_tuple) != dims:
        bad("attrs-dims", f"{at.dim_tuple} vs {dims}")
    for key in at.model_extra or {}:
        base, _, suffix = key.rpartition("_")
        if suffix in ("min", "max", "step", "dtype") and (base in cm.coord_map or base in gen_names):
            bad("attrs-stale", f"attribute {key} shadows a coordinate summary")
    acoords = at.coords
    if set(acoords) != set(cm.coord_map):
        bad("attrs-coord-names", f"{sorted(acoords)} vs {sorted(cm.coord_map)}")
    for name, coord in cm.coord_map.items():
        if name not in acoords:
            continue
        s = acoords[name]
        if getattr(coord, "_partial", False) or not np.size(coord.values) or np.asarray(coord.values).dtype.kind not in "iufmM":
            continue
        values = np.asarray(coord.values)
        with np.errstate(all="ignore"):
            mn, mx = _nanmin(values), _nanmax(values)
        if not _summary_eq(s.min, mn):
            bad("attrs-min", f"{name}: {s.min!r} vs {mn!r}")
        if not _summary_eq(s.max, mx):
            bad("attrs-max", f"{name}: {s.max!r} vs {mx!r}")
        if not _summary_eq(s.step, coord.step):
            bad("attrs-step", f"{name}: {s.step!r} vs {coord.step!r}")
        if not quant_same(s.units, coord.units):
            bad("attrs-units", f"{name}: {s.units} vs {coord.units}")
        if str(s.dtype).split("[")[0] != str(values.dtype).split("[")[0]:
            bad("attrs-dtype", f"{name}: {s.dtype} vs {values.dtype}")
        out.extend((f"coord-{m}", f"{name}: {t}") for m, t in coord_problems(coord))
    return out


def _nanmin(values):
    ok = values[~pd.isnull(values)] if values.ndim else values
    return ok.min() if ok.size else None


def _nanmax(values):
    ok = values[~pd.isnull(values)] if values.ndim else values
    return ok.max() if ok.size else None


def _summary_eq(a, b):
    if a is None or b is None or pd.isnull(a) or pd.isnull(b):
        return (a is None or pd.isnull(a)) and (b is None or pd.isnull(b))
    if isinstance(a, np.datetime64 | np.timedelta64) or isinstance(b, np.datetime64 | np.timedelta64):
        return np.asarray(a).dtype.kind == np.asarray(b).dtype.kind and a == b
    return bool(np.isclose(float(a), float(b), rtol=1e-9, atol=1e-12 * max(1.0, abs(float(b)))))


def coord_problems(coord):
    """Internal consistency of a 1D coordinate with its own values."""
    out = []
    values = np.asarray(coord.values)
    if values.ndim != 1 or not values.size or values.dtype.kind not in "iufmM":
        return out
    if len(coord) != len(values):
        out.append(("len", f"len {len(coord)} values {len(values)}"))
    nulls = pd.isnull(values)
    if nulls.all():
        return out
    mn, mx = _nanmin(values), _nanmax(values)
    if not _summary_eq(coord.min(), mn):
        out.append(("min", f"{coord.min()!r} vs {mn!r}"))
    if not _summary_eq(coord.max(), mx):
        out.append(("max", f"{coord.max()!r} vs {mx!r}"))
    if nulls.any():
        return out
    diffs = np.diff(values)
    zero = diffs.dtype.type(0) if diffs.dtype.kind != "m" else np.timedelta64(0, "ns")
    if coord.sorted and not (diffs >= zero).all():
        out.append(("sorted-flag", "flag says sorted"))
    if coord.reverse_sorted and not (diffs <= zero).all():
        out.append(("reverse-flag", "flag says reverse sorted"))
    if coord.evenly_sampled and len(values) > 1:
        step = coord.step
        if values.dtype.kind in "mM":
            ok = (diffs == step).all()
        elif values.dtype.kind in "iu" and isinstance(step, int | np.integer):
            ok = (diffs == step).all()
        else:
            scale = np.abs(values).max() * 1e-14 + abs(float(step)) * 1e-6
            ok = np.allclose(diffs, float(step), rtol=0, atol=scale)
        if not ok:
            out.append(("step", f"step {step!r} vs diffs {diffs[:4]}"))
    return out


# ---------------------------------------------------------------- label maps

def label_index(p, dims=None):
    """Per-dimension label lists as hashables."""
    return {d: label_list(p.get_array(d)) for d in (dims or p.dims)}


def label_list(values):
    values = np.asarray(values)
    if values.dtype.kind in "mM":
        return values.astype("int64").tolist()
    return values.tolist()


def value_table(p):
    """
    Map each (unique) data value to all labels attached to it.

    Returns dict value -> {coord_name: label}; needs unique data values.
    """
    out = {}
    dims = p.dims
    arrays = {n: label_array(c.values) for n, c in p.coords.coord_map.items() if p.coords.dim_map[n]}
    cdims = {n: p.coords.dim_map[n] for n in arrays}
    data = np.asarray(p.data)
    for idx in np.ndindex(*data.shape):
        pos = dict(zip(dims, idx))
        out.setdefault(_key(data[idx]), {})
        out[_key(data[idx])] = {n: arrays[n][tuple(pos[d] for d in cdims[n])] for n in arrays}
    return out


def _key(v):
    return complex(v) if isinstance(v, complex | np.complexfloating) else float(v)


def label_array(values):
    values = np.asarray(values)
    if values.dtype.kind in "mM":
        return values.astype("int64")
    return values
