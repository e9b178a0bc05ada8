"""Reference calculations on plain arrays, shared by checks of numerical operations."""
from __future__ import annotations

import numpy as np


def offsets(values):
    """Labels as floats (seconds for times), counted from the first one."""
    values = np.asarray(values)
    if values.dtype.kind in "mM":
        return (values - values[0]).astype("timedelta64[ns]").astype(np.int64) / 1e9 if len(values) else np.zeros(0)
    values = values.astype(np.float64)
    return values - values[0] if len(values) else values


def spacing(values):
    """The mean (signed) sampling interval of even labels, in seconds for times."""
    off = offsets(values)
    return off[-1] / (len(off) - 1)


def along(func, data, axis):
    """Apply func to each 1-D slice along axis, one at a time."""
    moved = np.moveaxis(np.asarray(data), axis, -1)
    rows = [np.asarray(func(np.ascontiguousarray(row))) for row in moved.reshape(-1, moved.shape[-1])]
    out = np.stack(rows).reshape(moved.shape[:-1] + rows[0].shape)
    return np.moveaxis(out, list(range(moved.ndim - 1, out.ndim)), list(range(axis, axis + rows[0].ndim))) if rows[0].ndim else out


def by_name(p, dims):
    """The data of a patch as an array with the named order of dimensions."""
    return np.transpose(np.asarray(p.data), [p.dims.index(d) for d in dims])


def matches(got, want, rtol=1e-8, scale=None):
    """Closeness relative to the magnitude of the values."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if not got.size:
        return True
    if scale is None:
        scale = np.nanmax(np.abs(want)) if np.isfinite(want).any() else 1.0
    return bool(np.allclose(got, want, rtol=0, atol=rtol * max(scale, 1e-300), equal_nan=True))


def tol(dtype):
    """A relative tolerance for data of a type."""
    dtype = np.dtype(dtype)
    return {2: 1e-2, 4: 2e-5}.get(dtype.itemsize if dtype.kind == "f" else dtype.itemsize // 2 if dtype.kind == "c" else 8, 1e-9)


def transposed(rng, p):
    """The patch with another order of dimensions."""
    return p.transpose(*[str(x) for x in rng.permutation(list(p.dims))])


def attrs_problem(a, b, changed=()):
    """The first attribute which differs, other than those in changed, dims, coords and private ones."""
    da, db = a.attrs.model_dump(), b.attrs.model_dump()
    for key in sorted(set(da) | set(db)):
        if key in changed or key in ("history", "dims", "coords") or key.startswith("_"):
            continue
        if repr(da.get(key)) != repr(db.get(key)):
            return f"{key}: {da.get(key)!r} -> {db.get(key)!r}"
    return None


def coords_problem(a, b, skip=()):
    """The first coordinate which differs between patches, other than those skipped."""
    ca, cb = a.coords, b.coords
    names = (set(ca.coord_map) | set(cb.coord_map)) - set(skip)
    for name in sorted(names):
        if name not in ca.coord_map or name not in cb.coord_map:
            return f"coordinate {name} only in one: {sorted(ca.coord_map)} {sorted(cb.coord_map)}"
        x, y = ca.coord_map[name], cb.coord_map[name]
        vx, vy = np.asarray(x.values), np.asarray(y.values)
        if tuple(ca.dim_map[name]) != tuple(cb.dim_map[name]):
            return f"{name}: dims {ca.dim_map[name]} -> {cb.dim_map[name]}"
        if vx.dtype != vy.dtype or vx.shape != vy.shape or vx.tobytes() != vy.tobytes():
            return f"{name}: values {vx.dtype}{vx.shape} {vx.ravel()[:4]} -> {vy.dtype}{vy.shape} {vy.ravel()[:4]}"
        if str(x.units) != str(y.units):
            return f"{name}: units {x.units} -> {y.units}"
        if repr(x.step) != repr(y.step):
            return f"{name}: step {x.step!r} -> {y.step!r}"
    return None
