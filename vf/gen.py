"""Random inputs: coordinates, patches, spools, metadata."""
from __future__ import annotations

import string

import numpy as np

import dascore as dc

DIM_NAMES = ("time", "distance", "depth", "channel")
BASE_TIME = np.datetime64("2017-09-18T01:00:01", "ns")


def pick(rng, seq):
    seq = list(seq)
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


# ---------------------------------------------------------------- coordinates

def even_float(rng, n, desc=False):
    step = pick(rng, [1.0, 0.5, 0.25, 2.0, 0.1, 3.7, 1e-3, 12.5, 1 / 3, 1e3])
    start = pick(rng, [0.0, 10.0, -5.0, 0.3, 1234.5, -0.75, 1e5, 7.77])
    if desc:
        step = -step
    return start + np.arange(n) * step


def even_int(rng, n, desc=False):
    step = int(pick(rng, [1, 2, 5, 10])) * (-1 if desc else 1)
    return int(rng.integers(-50, 50)) + np.arange(n, dtype=np.int64) * step


TIME_STEPS_NS = (1_000_000_000, 500_000_000, 4_000_000, 1_000_000, 10_000_000, 333_333_333, 1_000, 2_500, 1, 7, 60_000_000_000, 20_000_000)


def even_time(rng, n, desc=False):
    step = int(pick(rng, TIME_STEPS_NS)) * (-1 if desc else 1)
    base = BASE_TIME + np.timedelta64(int(rng.integers(0, 10**12)), "ns")
    if chance(rng, 0.15):
        base = np.datetime64(pick(rng, ["1970-01-01", "1969-12-31T23:59:58.5", "2023-06-01", "1999-12-31T23:59:59"]), "ns")
    return base + np.arange(n).astype(np.int64) * np.timedelta64(step, "ns")


def even_delta(rng, n, desc=False):
    step = int(pick(rng, TIME_STEPS_NS)) * (-1 if desc else 1)
    base = int(pick(rng, [0, 0, 10**9, -5 * 10**9, 123456789]))
    return (base + np.arange(n, dtype=np.int64) * step).astype("timedelta64[ns]")


EVEN = {"float": even_float, "int": even_int, "time": even_time, "delta": even_delta}


def coord_values(rng, n, dtype="float", shape="even"):
    """
    Values of a coordinate.

    shape: even, even-desc, mono, mono-desc, unsorted, dup (repeated labels).
    Irregular ones deviate by far more than any snapping tolerance.
    """
    desc = shape.endswith("-desc")
    kind = shape.removesuffix("-desc")
    base = EVEN[dtype](rng, max(n, 1), desc)
    if kind == "even" or n < 3:
        return base[:n]
    step = base[1] - base[0]
    # irregular: cumulative random multiples of the step
    mult = rng.integers(1, 6, size=n - 1)
    if len(set(mult.tolist())) == 1:
        mult[-1] = mult[0] + 2
    vals = base[0] + np.concatenate([[0], np.cumsum(mult)]).astype(np.int64) * step
    if kind == "mono":
        return vals
    perm = rng.permutation(n)
    while np.all(np.diff(perm) > 0) or np.all(np.diff(perm) < 0):
        perm = rng.permutation(n)
    out = vals[perm]
    if kind == "dup":
        out = np.array(out)
        out[int(rng.integers(1, n))] = out[0]
    return out


UNITS = {"time": "s", "distance": "m", "depth": "m", "channel": None}


def dim_coord(rng, name, n, kinds=None, dtypes=None):
    """Return (values, units, dtype, kind) for a dimension."""
    if dtypes is None:
        dtypes = ("time", "time", "time", "float", "delta") if name == "time" else ("float", "float", "float", "int")
    kinds = kinds or ("even", "even", "even", "even-desc", "mono", "mono-desc", "unsorted")
    dtype, kind = pick(rng, dtypes), pick(rng, kinds)
    vals = coord_values(rng, n, dtype, kind)
    units = UNITS.get(name)
    if dtype in ("time", "delta"):
        units = "s"
    elif chance(rng, 0.3):
        units = None
    return vals, units, dtype, kind


# ---------------------------------------------------------------- data

DTYPES = ("float64", "float64", "float32", "int32", "int16", "complex128")


def unique_data(rng, shape, dtype="float64"):
    """Distinct finite values, so each sample can be traced."""
    n = int(np.prod(shape))
    vals = rng.permutation(n) + 1
    if dtype.startswith("complex"):
        out = vals + 1j * rng.permutation(n)
    else:
        out = vals
        if dtype.startswith("float"):
            out = out + 0.5
    return out.astype(dtype).reshape(shape)


def smooth_data(rng, shape, dtype="float64"):
    return rng.standard_normal(shape).astype(dtype)


def layout(rng, arr):
    """Give the same values another memory layout."""
    how = pick(rng, ["C", "C", "F", "strided", "neg"])
    if how == "F":
        return np.asfortranarray(arr)
    if how == "strided" and arr.ndim:
        big = np.zeros(tuple(2 * s for s in arr.shape), dtype=arr.dtype)
        view = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        view[...] = arr
        return view
    if how == "neg" and arr.ndim:
        return np.ascontiguousarray(arr[::-1])[::-1]
    return arr


# ---------------------------------------------------------------- metadata

def word(rng, n=6, alphabet=string.ascii_lowercase):
    return "".join(pick(rng, alphabet) for _ in range(n))


def attrs(rng, rich=True):
    out = {}
    if chance(rng, 0.8):
        out["tag"] = pick(rng, ["", "raw", "tag_1", "some tag", "x" * 20])
        out["station"] = pick(rng, ["", "sta", "A1"])
        out["network"] = pick(rng, ["", "net", "UU"])
    if chance(rng, 0.6):
        out["data_units"] = pick(rng, ["m/s", "strain", "1/s", "mm", "radians", "counts" if False else "V"])
    if chance(rng, 0.5):
        out["data_type"] = pick(rng, ["velocity", "strain_rate", "strain", ""])
    if chance(rng, 0.5):
        out["data_category"] = pick(rng, ["DAS", "DTS", ""])
    if chance(rng, 0.4):
        out["instrument_id"] = "inst_" + word(rng, 3)
    if chance(rng, 0.4):
        out["acquisition_id"] = "acq_" + word(rng, 3)
    if chance(rng, 0.4):
        out["history"] = tuple(f"step_{i}(a={i})" for i in range(int(rng.integers(1, 4))))
    if rich and chance(rng, 0.6):
        out["gauge_length"] = float(rng.integers(1, 20))
        out["my_extra"] = pick(rng, [3, 2.5, "text", "ünïcødé", True])
    return out


# ---------------------------------------------------------------- patches

def patch(rng, ndim=None, sizes=(1, 9), kinds=None, dtypes=None, data_dtypes=DTYPES, extra=True,
          data="unique", names=None, with_attrs=True, dim_dtypes=None, two_d=True, lay=True, shape=None):
    """A random patch; returns (patch, info) with info describing what was made."""
    if ndim is None:
        ndim = pick(rng, [1, 2, 2, 2, 3])
    if names is None:
        names = ["time", "distance"][:ndim] if ndim <= 2 and chance(rng, 0.6) else list(rng.permutation(DIM_NAMES)[:ndim])
        names = [str(n) for n in names]
        rng.shuffle(names)
    names = list(names)
    ndim = len(names)
    if shape is None:
        shape = tuple(int(rng.integers(sizes[0], sizes[1] + 1)) for _ in names)
    coords, info = {}, {}
    for name, n in zip(names, shape):
        dt = (dim_dtypes or {}).get(name, dtypes)
        vals, units, dtype, kind = dim_coord(rng, name, n, kinds, dt)
        coords[name] = dc.get_coord(data=vals, units=units)
        info[name] = (dtype, kind, n)
    if extra:
        add_extra_coords(rng, coords, names, shape, two_d=two_d)
    ddtype = pick(rng, data_dtypes)
    arr = unique_data(rng, shape, ddtype) if data == "unique" else smooth_data(rng, shape, ddtype)
    if lay:
        arr = layout(rng, arr)
    at = attrs(rng) if with_attrs else None
    out = dc.Patch(data=arr, coords=coords, dims=tuple(names), attrs=at)
    info["_dtype"] = ddtype
    return out, info


def add_extra_coords(rng, coords, names, shape, two_d=True):
    """Non-dimensional coordinates of several kinds."""
    for num, (name, n) in enumerate(zip(names, shape)):
        if chance(rng, 0.5):
            vals = coord_values(rng, n, pick(rng, ["float", "int"]), pick(rng, ["even", "mono", "unsorted", "even-desc"]))
            coords[f"c_{name}"] = ((name,), dc.get_coord(data=vals, units=pick(rng, [None, "m"])))
    if two_d and len(names) >= 2 and chance(rng, 0.35):
        i, j = (int(x) for x in rng.permutation(len(names))[:2])
        vals = rng.permutation(shape[i] * shape[j]).reshape(shape[i], shape[j]).astype(float)
        coords["c_2d"] = ((names[i], names[j]), vals)
    if chance(rng, 0.25):
        coords["c_none"] = (None, np.arange(int(rng.integers(1, 4))) * 1.5)


def describe(p):
    out = [f"dims={p.dims} shape={p.shape} dtype={p.data.dtype}"]
    for n, c in p.coords.coord_map.items():
        out.append(f"{n}:{type(c).__name__}{p.coords.dim_map[n]}")
    return "; ".join(out)
