"""P06: patch arithmetic aligns by labels and matches array arithmetic."""
from __future__ import annotations

import operator as op

import numpy as np

import dascore as dc
from vf import gen, mon
from vf.core import describe, family

describe(
    "P06",
    "Random operands (patch with scalar, array, or patch; both operand orders; operators, ufuncs, reductions, accumulations and "
    "array functions) over random dtypes, layouts and coordinates. For two patches the operands draw their dimensions and labels from a "
    "common universe (subsets, permutations, shifts, missing and length-one dimensions, transposed); an oracle looks each operand up by "
    "label and applies NumPy to the two numbers. Non-trivial: distinct by (operator, operand forms, dims relation, label relation, outcome).",
    ["labels of float coordinates coincide when they differ only by rounding; attributes of operands are compatible (incompatible ones are checked to be refused in P25)"],
)

BIN = {
    "add": (op.add, np.add), "sub": (op.sub, np.subtract), "mul": (op.mul, np.multiply), "truediv": (op.truediv, np.divide),
    "floordiv": (op.floordiv, np.floor_divide), "mod": (op.mod, np.mod), "pow": (op.pow, np.power),
    "gt": (op.gt, np.greater), "ge": (op.ge, np.greater_equal), "lt": (op.lt, np.less), "le": (op.le, np.less_equal),
}
UF2 = {"np.add": np.add, "np.maximum": np.maximum, "np.hypot": np.hypot, "np.arctan2": np.arctan2, "np.subtract": np.subtract,
       "np.multiply": np.multiply, "np.logaddexp": np.logaddexp, "np.copysign": np.copysign, "np.greater": np.greater, "np.not_equal": np.not_equal}
UF1 = [np.sin, np.exp, np.sqrt, np.abs, np.negative, np.square, np.isnan, np.isfinite, np.floor, np.sign, np.conjugate, np.log1p, np.rint]
DT = ("float64", "float32", "int64", "int32", "complex128")


def num(rng, shape, dtype):
    arr = rng.integers(1, 9, shape)
    if dtype.startswith(("float", "complex")):
        arr = arr + rng.random(shape)
        if gen.chance(rng, 0.5):
            arr = arr * rng.choice([-1, 1], shape)
    if dtype.startswith("complex"):
        arr = arr + 1j * rng.integers(-4, 5, shape)
    return arr.astype(dtype)


def np_call(f, *a, **k):
    with np.errstate(all="ignore"):
        return f(*a, **k)


def match(got, want):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or got.dtype != want.dtype:
        return False
    if want.dtype.kind in "fc":  # vectorised loops may round differently for other memory layouts
        eps = np.finfo(want.dtype).eps
        return np.allclose(got, want, rtol=8 * eps, atol=1e-300 if eps < 1e-10 else 1e-38, equal_nan=True)
    return np.array_equal(got, want)


@family("P06", "scalar-array", quick=5000, thorough=60000)
def scalar_array(rng, ctx):
    p, info = gen.patch(rng, sizes=(1, 6), data_dtypes=("float64",), with_attrs=gen.chance(rng, 0.6))
    dtype = gen.pick(rng, DT)
    data = num(rng, p.shape, dtype)
    p = p.new(data=gen.layout(rng, data))
    units = p.attrs.data_units
    name = gen.pick(rng, list(BIN) + list(UF2))
    form = gen.pick(rng, ["int", "float", "npscalar", "array", "array", "row", "ones", "0d", "list"])
    shape = p.shape
    if form == "int":
        other = int(rng.integers(1, 7))
    elif form == "float":
        other = float(rng.integers(1, 7)) + 0.5
    elif form == "npscalar":
        other = gen.pick(rng, [np.float32(2.5), np.int64(3), np.float64(0.5)])
    elif form in ("array", "list"):
        other = num(rng, shape, gen.pick(rng, DT))
    elif form == "row":
        k = int(rng.integers(0, len(shape)))
        other = num(rng, shape[k:], gen.pick(rng, DT))
    elif form == "ones":
        other = num(rng, tuple(1 if gen.chance(rng, 0.5) else n for n in shape), gen.pick(rng, DT))
    else:
        other = np.array(2.0)
    reverse = gen.chance(rng, 0.4)
    f_op, f_np = BIN.get(name, (UF2.get(name), UF2.get(name)))
    args = (other, data) if reverse else (data, other)
    try:
        want = np_call(f_np, *args)
    except (TypeError, ValueError):
        ctx.skip("numpy refuses")
    if form == "list":
        other = other.tolist()
        if isinstance(other, list) and reverse and name in BIN and name not in ("gt", "ge", "lt", "le"):
            pass
        try:
            want = np_call(f_np, *((other, data) if reverse else (data, other)))
        except (TypeError, ValueError):
            ctx.skip("numpy refuses")
    fp = mon.fp_patch(p)
    what = f"{name} reverse={reverse} {form} dtype={dtype} shape={shape}"
    ctx.note(call=what)
    with np.errstate(all="ignore"):
        out = f_op(other, p) if reverse else f_op(p, other)
    ctx.check(isinstance(out, dc.Patch), "not-a-patch", lambda: f"{what}: {type(out)}")
    ctx.check(match(out.data, want), "data", lambda: f"{what}: {out.data} ({out.data.dtype}) want {want} ({want.dtype})")
    ctx.check(out.dims == p.dims, "dims", what)
    ctx.check(mon.fp_cm(out.coords) == mon.fp_cm(p.coords), "coords", lambda: what)
    want_units = None if want.dtype.kind == "b" else units
    ctx.check(mon.quant_same(out.attrs.data_units, want_units), "data-units", lambda: f"{what}: {out.attrs.data_units} want {want_units}")
    for key, val in p.attrs.model_dump().items():
        if key in ("history", "data_units", "coords", "dims"):
            continue
        ctx.check(mon.same(np.asarray(out.attrs.get(key)), np.asarray(val)) or out.attrs.get(key) == val, "attrs", lambda: f"{what}: {key}")
    ctx.check(mon.fp_patch(p) == fp, "mutated", what)
    ctx.cover(name, form, reverse, dtype, len(shape))


@family("P06", "unary", quick=2500, thorough=25000)
def unary(rng, ctx):
    p, info = gen.patch(rng, sizes=(1, 6), data_dtypes=("float64",))
    dtype = gen.pick(rng, DT)
    data = num(rng, p.shape, dtype)
    if dtype.startswith("float") and gen.chance(rng, 0.3):
        data[tuple(0 for _ in p.shape)] = np.nan
    p = p.new(data=gen.layout(rng, data))
    forms = {"-p": lambda x: -x, "+p": lambda x: +x}
    if gen.chance(rng, 0.25):
        name = gen.pick(rng, list(forms))
        f = forms[name]
    else:
        f = gen.pick(rng, UF1)
        name = f.__name__
    try:
        want = np_call(f, data)
    except TypeError:
        ctx.skip("numpy refuses")
    if name == "+p" and not hasattr(type(p), "__pos__"):
        ctx.skip("no unary plus")
    with np.errstate(all="ignore"):
        out = f(p)
    ctx.check(match(out.data, want), "unary-data", lambda: f"{name} {dtype}: {out.data} want {want}")
    ctx.check(mon.fp_cm(out.coords) == mon.fp_cm(p.coords), "unary-coords", name)
    if want.dtype.kind == "b":
        ctx.check(out.attrs.data_units is None, "bool-units", name)
    ctx.cover(name, dtype, p.ndim)


# ------------------------------------------------------------------ two patches

UNIV = ("time", "distance", "depth", "channel")


def universe(rng):
    out = {}
    for d in UNIV:
        n = int(rng.integers(2, 8))
        kind = gen.pick(rng, ["dyadic", "float", "time", "delta", "int"])
        k = np.arange(n)
        if kind == "dyadic":
            vals = 10.0 + k * 0.25
        elif kind == "float":
            vals = gen.pick(rng, [0.3, -55.1, 1e4]) + k * gen.pick(rng, [0.1, 1 / 3, 1.021])
        elif kind == "time":
            vals = gen.BASE_TIME + k * np.timedelta64(int(gen.pick(rng, [1, 10**6, 333333333])), "ns")
        elif kind == "delta":
            vals = k * np.timedelta64(10**7, "ns")
        else:
            vals = k * 3 - 4
        if kind != "float" and gen.chance(rng, 0.3) and n > 2:  # irregular
            keep = np.sort(rng.permutation(n)[: max(2, n - 2)])
            vals = vals[keep]
        out[d] = (vals, kind)
    return out


def operand(rng, univ, dims, dtype, extra):
    coords, idx = {}, {}
    for d in dims:
        vals, kind = univ[d]
        n = len(vals)
        how = gen.pick(rng, ["all", "all", "slice", "slice", "one", "perm", "rev", "subset"])
        ind = np.arange(n)
        if how == "slice":
            a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
            ind = ind[a:max(b, a + 1)] if a < n else ind[-1:]
        elif how == "one":
            ind = ind[[int(rng.integers(n))]]
        elif how == "perm" and kind != "float":
            ind = rng.permutation(n)
        elif how == "rev":
            ind = ind[::-1]
        elif how == "subset" and kind != "float":
            ind = np.sort(rng.permutation(n)[: int(rng.integers(1, n + 1))])
        if kind == "float" and len(ind) < 2:
            ind = np.arange(n)  # a lone float label has no grid to be compared on
        idx[d] = ind
        if kind == "float" and gen.chance(rng, 0.7):
            # the same grid, reached by slicing a full coordinate: equal up to rounding
            coords[d] = dc.get_coord(data=vals)[slice(int(ind[0]), int(ind[-1]) + 1) if len(ind) < 2 or ind[1] > ind[0] else slice(None, None, -1)]
        else:
            coords[d] = dc.get_coord(data=vals[ind])
        if extra.get(d):
            coords[f"x_{d}"] = (d, np.asarray(ind) * 7.0 + 1)
    shape = tuple(len(idx[d]) for d in dims)
    data = num(rng, shape, dtype)
    return dc.Patch(data=gen.layout(rng, data), dims=tuple(dims), coords=coords), idx, data


@family("P06", "two-patches", quick=6000, thorough=80000)
def two_patches(rng, ctx):
    univ = universe(rng)
    nd = int(rng.integers(1, 4))
    dims1 = [str(x) for x in rng.permutation(UNIV)[:nd]]
    rel = gen.pick(rng, ["same", "same", "transposed", "fewer", "more", "other"])
    if rel == "same":
        dims2 = list(dims1)
    elif rel == "transposed":
        dims2 = [str(x) for x in rng.permutation(dims1)]
    elif rel == "fewer":
        dims2 = [str(x) for x in rng.permutation(dims1)[: max(1, nd - 1)]]
    else:
        rest = [d for d in UNIV if d not in dims1]
        keep = dims1 if rel == "more" else dims1[:1]
        dims2 = [str(x) for x in rng.permutation(keep + rest[:1])]
    extra = {d: gen.chance(rng, 0.3) for d in UNIV}
    d1, d2 = gen.pick(rng, DT), gen.pick(rng, DT)
    p, i1, a1 = operand(rng, univ, dims1, d1, extra)
    q, i2, a2 = operand(rng, univ, dims2, d2, extra if gen.chance(rng, 0.7) else {})
    if gen.chance(rng, 0.3) and rel in ("same", "transposed"):
        # same labels altogether
        q = p.transpose(*dims2).new(data=num(rng, tuple(p.shape[dims1.index(d)] for d in dims2), d2))
        i2, a2 = i1, np.asarray(q.data)
    name = gen.pick(rng, list(BIN) + list(UF2))
    f_op, f_np = BIN.get(name, (UF2.get(name), UF2.get(name)))
    try:
        np_call(f_np, a1.ravel()[:1], a2.ravel()[:1])
    except (TypeError, ValueError):
        ctx.skip("numpy refuses")
    what = f"{name} {gen.describe(p)} | {gen.describe(q)}"
    ctx.note(call=what)
    fps = mon.fp_patch(p), mon.fp_patch(q)
    inter = {d: [i for i in i1[d] if i in set(i2[d].tolist())] for d in set(dims1) & set(dims2)}
    empty = any(not v for v in inter.values())
    try:
        with np.errstate(all="ignore"):
            out = f_op(p, q)
    except Exception as exc:
        if empty:
            ctx.cover("refused-empty", rel)
            return
        raise exc
    ctx.check(fps == (mon.fp_patch(p), mon.fp_patch(q)), "mutated", what)
    want_labels = {}
    for d in dict.fromkeys(dims1 + dims2):
        if d in inter:
            want_labels[d] = set(int(i) for i in inter[d])
        else:
            want_labels[d] = set(int(i) for i in (i1.get(d) if d in i1 else i2[d]))
    ctx.check(set(out.dims) == set(want_labels), "dims", lambda: f"{what}: {out.dims}")
    # translate output labels to universe positions
    pos = {}
    for d in out.dims:
        lab, full = np.asarray(out.get_array(d)), univ[d][0]
        if lab.dtype.kind == "f":
            ind = [int(np.argmin(np.abs(full - x))) for x in lab]
            ok = all(abs(full[k] - x) <= 1e-9 * max(1, abs(x)) for k, x in zip(ind, lab))
        else:
            look = {v: k for k, v in enumerate(full.tolist())}
            ok = all(x in look for x in lab.tolist())
            ind = [look.get(x) for x in lab.tolist()]
        ctx.check(ok, "labels-invented", lambda: f"{what}: {d} {lab} not in {full}")
        ctx.check(len(set(ind)) == len(ind) and set(ind) == want_labels[d], "labels", lambda: f"{what}: {d} has {sorted(ind)} want {sorted(want_labels[d])}")
        pos[d] = np.asarray(ind, dtype=int)
    mats = []
    for dims, idx, arr in ((dims1, i1, a1), (dims2, i2, a2)):
        arr = np.asarray(arr)
        for ax, d in enumerate(dims):
            back = {int(u): k for k, u in enumerate(idx[d])}
            arr = np.take(arr, [back[int(u)] for u in pos[d]], axis=ax)
        arr = np.transpose(arr, [dims.index(d) for d in out.dims if d in dims])
        arr = arr.reshape([len(pos[d]) if d in dims else 1 for d in out.dims])
        mats.append(arr)
    want = np_call(f_np, *mats)
    ctx.check(match(out.data, want), "data", lambda: f"{what}: {out.data} want {want}")
    for d in out.dims:  # attached coordinates follow their labels
        xn = f"x_{d}"
        if xn in out.coords.coord_map and out.coords.dim_map[xn] == (d,):
            ctx.check(np.array_equal(out.get_array(xn), pos[d] * 7.0 + 1), "attached-coord", lambda: f"{what}: {xn} {out.get_array(xn)} want {pos[d] * 7.0 + 1}")
            ctx.count("attached coords kept")
    lab_rel = "empty" if empty else ("equal" if all(list(i1[d]) == list(i2[d]) for d in inter) else "partial")
    ctx.cover(name, rel, lab_rel, len(out.dims), sorted(univ[d][1] for d in inter)[:2])
    for mech, text in mon.structure_problems(out):
        ctx.check(False, f"structure-{mech}", lambda: f"{what}: {text}")


# ------------------------------------------------------------------ units of operands

UNITS = {"m": ("m", 1.0), "km": ("m", 1e3), "s": ("s", 1.0), "ms": ("s", 1e-3)}


@family("P06", "operand-units", quick=1500, thorough=15000)
def operand_units(rng, ctx):
    """Quantities and patches with data units combine as physical quantities."""
    p, _ = gen.patch(rng, sizes=(1, 5), data_dtypes=("float64",), with_attrs=False)
    u1, u2 = gen.pick(rng, list(UNITS)), gen.pick(rng, list(UNITS))
    a, b = num(rng, p.shape, "float64"), num(rng, p.shape, "float64")
    p1 = p.new(data=a).set_units(u1)
    form = gen.pick(rng, ["patch", "patch-same", "quantity", "quantity-array", "unit"])
    if form.startswith("patch"):
        u2 = u1 if form == "patch-same" else u2
        if form == "patch" and u1 != u2:
            ctx.skip("different attributes are not compatible")
        other = p.new(data=b).set_units(u2)
    elif form == "quantity":
        b = np.asarray(float(rng.integers(1, 9)))
        other = float(b) * dc.get_unit(u2)
    elif form == "quantity-array":
        other = b * dc.get_unit(u2)
    else:
        b = np.asarray(1.0)
        other = dc.get_unit(u2)
    name = gen.pick(rng, ["add", "sub", "mul", "truediv", "gt", "lt"])
    if form == "unit" and name in ("add", "sub", "gt", "lt"):
        ctx.skip("units alone only scale")
    reverse = gen.chance(rng, 0.35)
    f = BIN[name][0]
    (base1, s1), (base2, s2) = UNITS[u1], UNITS[u2]
    si_a, si_b = a * s1, b * s2
    what = f"{name} {u1} {form} {u2} reverse={reverse}"
    ctx.note(call=what)
    call = (lambda: f(other, p1)) if reverse else (lambda: f(p1, other))
    if reverse and not form.startswith("patch"):  # pint does not defer to patches, so name the operation
        call = lambda: dc.utils.array.apply_ufunc(BIN[name][1], other, p1)
    if name in ("add", "sub", "gt", "lt") and base1 != base2:
        ctx.raises(call, "incompatible-accepted", Exception, what)
        ctx.cover("refused", name, form)
        return
    out = call()
    want = BIN[name][1](si_b, si_a) if reverse else BIN[name][1](si_a, si_b)
    if name in ("gt", "lt"):
        ctx.check(np.array_equal(out.data, want) and out.attrs.data_units is None, "unit-compare", lambda: f"{what}: {out.data} {want}")
    else:
        q = dc.get_quantity(out.attrs.data_units)
        q = q if q is not None else dc.get_quantity("dimensionless")
        power = {"add": (1, 0), "sub": (1, 0), "mul": (1, 1), "truediv": (1, -1)}[name]
        if reverse and name == "truediv":
            power = (-1, 1)
        dims = {"m": 0, "s": 0}
        dims[base1] += power[0]
        dims[base2] += power[1]
        target = " * ".join(f"{k}**{v}" for k, v in dims.items() if v) or "dimensionless"
        factor = q.to(dc.get_quantity(target).units)
        ctx.check(mon.close(out.data * float(factor.magnitude), want, rtol=1e-10), "unit-result", lambda: f"{what}: {out.data} {out.attrs.data_units} want {want} {target}")
    ctx.cover(name, form, u1, u2, reverse)


# ------------------------------------------------------------------ reductions

@family("P06", "reduce", quick=3000, thorough=30000)
def reduce_(rng, ctx):
    p, info = gen.patch(rng, sizes=(1, 6), data_dtypes=("float64",))
    dtype = gen.pick(rng, ("float64", "int64", "float32"))
    data = num(rng, p.shape, dtype)
    p = p.new(data=gen.layout(rng, data))
    form = gen.pick(rng, ["ufunc.reduce", "ufunc.accumulate", "np", "np", "bound.reduce", "bound.accumulate", "cum"])
    uf = gen.pick(rng, [np.add, np.multiply, np.maximum, np.minimum])
    dim = gen.pick(rng, list(p.dims))
    ax = p.dims.index(dim)
    what = f"{form} {dim}"
    if form == "ufunc.reduce":
        out, want = uf.reduce(p, axis=ax), uf.reduce(data, axis=ax, keepdims=True)
    elif form == "ufunc.accumulate":
        out, want = uf.accumulate(p, axis=ax), uf.accumulate(data, axis=ax)
    elif form in ("bound.reduce", "bound.accumulate"):
        b = {np.add: p.add, np.multiply: p.multiply}.get(uf)
        if b is None:
            ctx.skip("not bound")
        if form == "bound.reduce":
            out, want = b.reduce(dim=dim), uf.reduce(data, axis=ax, keepdims=True)
        else:
            out, want = b.accumulate(dim=dim), uf.accumulate(data, axis=ax)
    elif form == "cum":
        f = gen.pick(rng, [np.cumsum, np.cumprod])
        out, want = f(p, axis=ax), f(data, axis=ax)
        what += f.__name__
    else:
        f = gen.pick(rng, [np.sum, np.mean, np.max, np.min, np.std, np.median, np.any, np.all, np.prod, np.ptp, np.nanmean, np.argmax])
        what += f.__name__
        mode = gen.pick(rng, ["axis", "neg", "dim", "all"])
        if mode == "all" and f is np.argmax and p.ndim > 1:
            mode = "axis"
        if mode == "all":
            out, want = f(p), np.asarray(f(data)).reshape((1,) * data.ndim)
            what += " all"
        else:
            kw = {"axis": {"axis": ax}, "neg": {"axis": ax - data.ndim}, "dim": {"dim": dim}}[mode]
            out = f(p, **kw) if mode != "dim" else dc.utils.array.apply_array_func(f, p, dim=dim)
            want = f(data, axis=ax, keepdims=True) if f is not np.ptp else np.expand_dims(f(data, axis=ax), ax)
        what += mode
    ctx.note(call=what, patch=gen.describe(p))
    want = np.asarray(want)
    ok = out.data.shape == want.shape and (mon.close(out.data, want, rtol=1e-6 if dtype == "float32" else 1e-12) if want.dtype.kind == "f" else np.array_equal(out.data, want))
    ctx.check(ok, "reduce-data", lambda: f"{what}: {out.data} want {want}")
    ctx.check(out.data.dtype == want.dtype, "reduce-dtype", lambda: f"{what}: {out.data.dtype} want {want.dtype}")
    ctx.check(out.dims == p.dims, "reduce-dims", what)
    for d, n in zip(out.dims, out.shape):
        if n == p.shape[p.dims.index(d)]:
            if "all" not in what and d != dim:
                ctx.check(mon.fp_coord(out.get_coord(d)) == mon.fp_coord(p.get_coord(d)), "reduce-coord", lambda: f"{what}: {d}")
    ctx.cover(what.replace(dim, ""), dtype, p.ndim, ax)


@family("P06", "laws", quick=800, thorough=8000)
def laws(rng, ctx):
    """Operators, functions, and methods of the same operation agree; a - b is -(b - a)."""
    p, _ = gen.patch(rng, sizes=(1, 6), data_dtypes=("float64",), with_attrs=gen.chance(rng, 0.5))
    p = p.new(data=num(rng, p.shape, "float64"))
    q = p.new(data=num(rng, p.shape, "float64"))
    dims = [str(x) for x in rng.permutation(p.dims)]
    qt = q.transpose(*dims)
    ctx.note(patch=gen.describe(p), dims=str(dims))
    for name in ("add", "sub", "mul"):
        f, g = BIN[name]
        a, b, c = f(p, qt), g(p, qt), getattr(p, g.__name__)(qt)
        want = g(p.data, q.data)
        for got in (a, b, c):
            ctx.check(got.dims == p.dims and match(got.data, want), "forms-disagree", lambda: f"{name}: {got.data} want {want}")
        rev = f(qt, p)
        ctx.check(rev.dims == tuple(dims), "left-dims", lambda: f"{rev.dims}")
        ctx.check(match(rev.transpose(*p.dims).data, g(q.data, p.data)), "operand-order", lambda: name)
    ctx.cover(p.ndim, tuple(p.dims.index(d) for d in dims))


METHODS = {
    "add": np.add, "subtract": np.subtract, "multiply": np.multiply, "divide": np.divide, "maximum": np.maximum, "minimum": np.minimum,
    "exp": np.exp, "log": np.log, "log10": np.log10, "log2": np.log2, "is_finite": np.isfinite, "isnan": np.isnan, "isinf": np.isinf,
}


@family("P06", "methods", quick=600, thorough=8000)
def methods(rng, ctx):
    """The named methods of patches, and functions over several axes, are NumPy's on the data, with the labels kept."""
    p, _ = gen.patch(rng, sizes=(1, 6), data_dtypes=("float64",), with_attrs=gen.chance(rng, 0.5))
    dtype = gen.pick(rng, ("float64", "float32", "int64"))
    data = num(rng, p.shape, dtype)
    if dtype != "int64" and data.size and gen.chance(rng, 0.4):
        data[tuple(int(rng.integers(s)) for s in data.shape)] = gen.pick(rng, [np.nan, np.inf, -np.inf, 0])
    p = p.new(data=gen.layout(rng, data))
    before = mon.fp_cm(p.coords)
    if gen.chance(rng, 0.3):
        axes = tuple(int(x) for x in rng.permutation(p.ndim)[: int(rng.integers(1, p.ndim + 1))])
        f = gen.pick(rng, [np.sum, np.mean, np.max, np.min, np.std, np.any, np.all])
        given = tuple(a - p.ndim if gen.chance(rng, 0.3) else a for a in axes)
        ctx.note(call=f"{f.__name__} axis={given}", patch=gen.describe(p))
        with np.errstate(all="ignore"):
            want = np_call(lambda x: f(x, axis=axes, keepdims=True), data)
            out = f(p, axis=given)
        tol = 1e-5 if dtype == "float32" else 1e-12
        ctx.check(out.dims == p.dims and out.shape == want.shape and np.allclose(out.data, want, rtol=tol, atol=tol, equal_nan=True), "axes-data", lambda: f"{f.__name__} {given}: {out.shape} {out.data}, expected {want}")
        for i, d in enumerate(p.dims):
            if i not in axes:
                ctx.check(np.array_equal(out.get_array(d), p.get_array(d)), "axes-coords", lambda: f"{f.__name__} {given}: {d}")
        ctx.cover(f.__name__, len(axes), p.ndim, dtype)
        return
    name = gen.pick(rng, list(METHODS))
    f = METHODS[name]
    args, plain = (), ()
    if f.nin == 2:
        kind = gen.pick(rng, ["number", "array", "patch", "row"])
        other = num(rng, p.shape, dtype)
        if kind == "number":
            args = plain = (float(rng.integers(1, 9)) / 2,)
        elif kind == "array":
            args = plain = (other,)
        elif kind == "row":
            args = plain = (other[tuple([0] * (p.ndim - 1))],)
        else:
            perm = [str(x) for x in rng.permutation(p.dims)]
            args, plain = (p.new(data=other).transpose(*perm),), (other,)
        name += ":" + kind
    ctx.note(call=name, patch=gen.describe(p))
    with np.errstate(all="ignore"):
        want = np_call(lambda x: f(x, *plain), data)
        out = getattr(p, name.split(":")[0])(*args)
    got = np.asarray(out.data)
    if p.attrs.data_units is not None and got.dtype.kind == "f" and want.dtype.kind == "i":
        got = got.astype(want.dtype) if (got == want).all() else got  # bringing integers to common units makes floats of them
    ctx.check(out.dims == p.dims and match(got, want), "method-data", lambda: f"{name} {dtype}: {out.data}, expected {want}")
    ctx.check(mon.fp_cm(out.coords) == before, "method-coords", name)
    ctx.cover(name, dtype, p.ndim)
