"""P07: unit handling preserves physical quantities."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.exceptions import UnitError
from vf import gen, mon
from vf.core import describe, family

describe(
    "P07",
    "Random patches with units on data and coordinates (every direction, dtype, attached coordinates) are converted, converted back, simplified, "
    "and re-labelled; a monitor multiplies numbers by an independently tabulated factor (and offset) to the SI unit and compares physical quantities. "
    "Each operation taking a coordinate measure is called with the plain number in the coordinate's units, with quantities in other compatible units, "
    "and on a patch whose coordinate was converted; the three results must agree. Incompatible units must be refused. "
    "Non-trivial: distinct by (operation, unit pair, direction, dtype).",
    ["factor table is the harness's own (exact SI definitions)", "window lengths are kept away from rounding boundaries"],
)

# unit -> (base, factor, offset): base value = x * factor + offset
U = {
    "m": ("m", 1.0, 0), "km": ("m", 1e3, 0), "ft": ("m", 0.3048, 0), "cm": ("m", 0.01, 0), "mile": ("m", 1609.344, 0), "inch": ("m", 0.0254, 0),
    "s": ("s", 1.0, 0), "ms": ("s", 1e-3, 0), "min": ("s", 60.0, 0), "hour": ("s", 3600.0, 0),
    "kg": ("kg", 1.0, 0), "g": ("kg", 1e-3, 0), "lb": ("kg", 0.45359237, 0),
    "m/s": ("m/s", 1.0, 0), "km/hour": ("m/s", 1 / 3.6, 0), "ft/s": ("m/s", 0.3048, 0), "mm/s": ("m/s", 1e-3, 0),
    "1/s": ("1/s", 1.0, 0), "Hz": ("1/s", 1.0, 0), "kHz": ("1/s", 1e3, 0), "mHz": ("1/s", 1e-3, 0),
    "degC": ("K", 1.0, 273.15), "kelvin": ("K", 1.0, 0), "degF": ("K", 5 / 9, 273.15 - 32 * 5 / 9),
    "10 m": ("m", 10.0, 0), "1/m": ("1/m", 1.0, 0), "1/ft": ("1/m", 1 / 0.3048, 0), "1/km": ("1/m", 1e-3, 0),
    "Pa": ("Pa", 1.0, 0), "bar": ("Pa", 1e5, 0), "m*s": ("m*s", 1.0, 0), "km*ms": ("m*s", 1.0, 0),
}
BASES = {}
for _u, (_b, _f, _o) in U.items():
    BASES.setdefault(_b, []).append(_u)


def si(values, unit):
    base, f, o = U[unit]
    return np.asarray(values) * f + o


def pair(rng, unit=None):
    base = gen.pick(rng, list(BASES)) if unit is None else U[unit][0]
    u1 = unit or gen.pick(rng, BASES[base])
    return u1, gen.pick(rng, BASES[base])


def data_patch(rng, unit, dtypes=("float64", "float32", "int64", "complex128")):
    p, _ = gen.patch(rng, sizes=(1, 6), data_dtypes=("float64",))
    dt = gen.pick(rng, dtypes)
    arr = rng.integers(1, 50, p.shape) + (rng.random(p.shape) if dt != "int64" else 0)
    if dt.startswith("complex"):
        arr = arr + 1j * rng.random(p.shape)
    p = p.new(data=gen.layout(rng, arr.astype(dt)))
    return p.set_units(unit), dt


def unit_given(rng, u):
    """The unit as string, unit, or quantity."""
    if gen.chance(rng, 0.5):
        return u
    return dc.get_quantity(u)


def same_but(ctx, a, b, what, data=True, skip_coords=()):
    """b equals a except for what is excluded."""
    ctx.check(a.dims == b.dims and set(a.coords.coord_map) == set(b.coords.coord_map), "dims-changed", what)
    for name, c in a.coords.coord_map.items():
        if name in skip_coords:
            continue
        ctx.check(mon.fp_coord(c) == mon.fp_coord(b.coords.coord_map[name]), "other-coord-changed", lambda: f"{what}: {name} {c} -> {b.coords.coord_map[name]}")
    if data:
        ctx.check(mon.same(a.data, b.data), "data-changed", lambda: what)
        ctx.check(mon.quant_same(a.attrs.data_units, b.attrs.data_units), "data-units-changed", lambda: f"{what}: {a.attrs.data_units} -> {b.attrs.data_units}")
    for mech, text in mon.structure_problems(b):
        ctx.check(False, f"structure-{mech}", lambda: f"{what}: {text}")


@family("P07", "data", quick=3000, thorough=30000)
def data(rng, ctx):
    u1, u2 = pair(rng)
    p, dt = data_patch(rng, u1)
    what = f"{u1} -> {u2} {dt}"
    ctx.note(call=what)
    rt = 2e-6 if dt == "float32" else 1e-12
    off = (rt * 1000) if U[u1][0] == "K" else 0
    how = gen.pick(rng, ["convert", "convert", "set", "simplify", "incompatible", "none"])
    if how == "convert":
        out = p.convert_units(unit_given(rng, u2))
        ctx.check(mon.quant_same(out.attrs.data_units, u2), "convert-units", lambda: f"{what}: {out.attrs.data_units}")
        ctx.check(mon.close(si(out.data, u2), si(p.data, u1), rtol=rt, atol=off), "convert-data", lambda: f"{what}: {out.data} from {p.data}")
        same_but(ctx, p, out, what, data=False)
        back = out.convert_units(u1)
        ctx.check(mon.close(back.data, p.data, rtol=4 * rt, atol=4 * off), "convert-back", lambda: f"{what}: {back.data} {p.data}")
        ctx.check(mon.quant_same(back.attrs.data_units, u1), "convert-back-units", what)
    elif how == "set":
        v = gen.pick(rng, list(U))
        out = p.set_units(unit_given(rng, v))
        ctx.check(mon.same(out.data, p.data) and mon.quant_same(out.attrs.data_units, v), "set-units", lambda: f"{v}: {out.attrs.data_units}")
        same_but(ctx, p, out, what, data=False)
    elif how == "simplify":
        if u1 in ("degC", "degF"):
            ctx.skip("offset units are simplified through a factor")
        out = p.simplify_units()
        q = dc.get_quantity(out.attrs.data_units)
        # base units: every numeric factor is one relative to the SI base of the table
        ctx.check(mon.close(out.data, si(p.data, u1), rtol=rt), "simplify-data", lambda: f"{u1}: {out.data} {q} from {p.data}")
        ctx.check(float(q.to_base_units().magnitude) == 1.0, "simplify-units", lambda: f"{u1}: {q}")
    elif how == "incompatible":
        other = gen.pick(rng, [u for u in U if U[u][0] != U[u1][0]])
        fp = mon.fp_patch(p)
        ctx.raises(lambda: p.convert_units(other), "incompatible-accepted", Exception, f"{u1} -> {other}")
        ctx.check(mon.fp_patch(p) == fp, "changed-by-refusal", what)
        what = "refused"
    else:
        q = p.set_units(None)
        ctx.check(q.attrs.data_units is None and mon.same(q.data, p.data), "unset-units", what)
        r = q.convert_units(u2)
        ctx.check(mon.same(r.data, p.data) and mon.quant_same(r.attrs.data_units, u2), "convert-from-none", lambda: f"{u2}: {r.attrs.data_units}")
    ctx.cover(how, u1, u2, dt)


@family("P07", "coords", quick=4000, thorough=40000)
def coords(rng, ctx):
    p, info = gen.patch(rng, sizes=(1, 9))
    names = [n for n, c in p.coords.coord_map.items() if np.asarray(c.values).dtype.kind in "iuf" and np.asarray(c.values).size]
    if not names:
        ctx.skip("no numeric coordinate")
    names = [str(x) for x in rng.permutation(names)[: int(rng.integers(1, 3))]]
    ups = {}
    for n in names:
        u1, u2 = pair(rng)
        while u1 in ("degC", "degF") or u2 in ("degC", "degF"):
            u1, u2 = pair(rng)
        ups[n] = (u1, u2)
    p = p.set_units(**{n: u for n, (u, _) in ups.items()})
    how = gen.pick(rng, ["convert", "convert", "set", "simplify", "incompatible", "coord", "manager"])
    what = f"{how} {ups} {gen.describe(p)}"
    ctx.note(call=what)
    if how in ("convert", "coord", "manager"):
        if how == "convert":
            out = p.convert_units(**{n: unit_given(rng, u) for n, (_, u) in ups.items()})
        elif how == "manager":
            out = p.new(coords=p.coords.convert_units(**{n: u for n, (_, u) in ups.items()}))
        else:
            out = p.update_coords(**{n: (p.coords.dim_map[n], p.get_coord(n).convert_units(u)) for n, (_, u) in ups.items()})
        for n, (u1, u2) in ups.items():
            a, b = p.get_coord(n), out.get_coord(n)
            av, bv = np.asarray(a.values, float), np.asarray(b.values, float)
            ctx.check(mon.quant_same(b.units, u2), "coord-units", lambda: f"{what}: {n} {b.units}")
            scale = np.abs(si(av, u1)).max()
            ctx.check(mon.close(si(bv, u2), si(av, u1), rtol=1e-11, atol=1e-11 * scale), "coord-values", lambda: f"{what}: {n} {bv} from {av}")
            if a.evenly_sampled and len(a) > 1:
                ctx.check(b.evenly_sampled, "coord-evenness-lost", lambda: f"{what}: {n} {b!r}")
                ctx.check(np.isclose(float(b.step) * U[u2][1], float(a.step) * U[u1][1], rtol=1e-9), "coord-step", lambda: f"{what}: {b.step} {a.step}")
        same_but(ctx, p, out, what, data=True, skip_coords=ups)
        back = out.convert_units(**{n: u for n, (u, _) in ups.items()})
        for n in ups:
            av, bv = np.asarray(p.get_array(n), float), np.asarray(back.get_array(n), float)
            ctx.check(mon.close(bv, av, rtol=1e-11, atol=1e-11 * np.abs(av).max()), "coord-back", lambda: f"{what}: {bv} {av}")
    elif how == "set":
        new = {n: gen.pick(rng, ["m", "ft", "km", "1/s", "kg"]) for n in ups}
        out = p.set_units(**new)
        for n, u in new.items():
            ctx.check(mon.same(out.get_array(n), p.get_array(n)) and mon.quant_same(out.get_coord(n).units, u), "set-coord", lambda: f"{what}: {out.get_coord(n)}")
        same_but(ctx, p, out, what, skip_coords=new)
    elif how == "simplify":
        out = p.set_units(None).simplify_units()
        for n, (u1, _) in ups.items():
            av, bv = np.asarray(p.get_array(n), float), np.asarray(out.get_array(n), float)
            ctx.check(mon.close(bv, si(av, u1), rtol=1e-11, atol=1e-11 * np.abs(si(av, u1)).max()), "simplify-coord", lambda: f"{what}: {bv} from {av} {u1} {out.get_coord(n).units}")
            ctx.check(float(dc.get_quantity(out.get_coord(n).units).to_base_units().magnitude) == 1.0, "simplify-coord-units", lambda: f"{what} {out.get_coord(n).units}")
    else:
        n, (u1, _) = next(iter(ups.items()))
        bad = gen.pick(rng, [u for u in U if U[u][0] != U[u1][0]])
        fp = mon.fp_patch(p)
        ctx.raises(lambda: p.convert_units(**{n: bad}), "incompatible-coord-accepted", Exception, f"{u1} -> {bad}")
        ctx.check(mon.fp_patch(p) == fp, "changed-by-refusal", what)
    for n, (u1, u2) in ups.items():
        ctx.cover(how, u1, u2, n in p.dims, np.asarray(p.get_array(n)).dtype.kind)


@family("P07", "functions", quick=2000, thorough=20000)
def functions(rng, ctx):
    """The unit helper functions on plain arrays and quantities."""
    u1, u2 = pair(rng)
    arr = rng.random(5) * gen.pick(rng, [1.0, 1e6, 1e-6]) + 1
    from dascore.units import convert_units, get_factor_and_unit, get_quantity, get_quantity_str

    form = gen.pick(rng, ["array", "scalar", "quantity"])
    x = arr if form != "scalar" else float(arr[0])
    out = convert_units(x * dc.get_quantity(u1) if form == "quantity" and U[u1][2] == 0 and "10" not in u1 and "deg" not in u1 else x, u2, u1)
    atol = 1e-9 if U[u1][2] or U[u2][2] else 0
    ctx.check(mon.close(np.atleast_1d(si(out, u2)), np.atleast_1d(si(x, u1)), rtol=1e-12, atol=atol), "function-convert", lambda: f"{u1}->{u2}: {out} from {x}")
    bad = gen.pick(rng, [u for u in U if U[u][0] != U[u1][0]])
    ctx.raises(lambda: convert_units(arr, bad, u1), "function-incompatible", UnitError)
    for u in (u1, u2):
        q = get_quantity(u)
        ctx.check(get_quantity(get_quantity_str(q)) == q, "quantity-str", lambda: f"{u}: {get_quantity_str(q)}")
        if not U[u][2] and "deg" not in u:
            f, base = get_factor_and_unit(u, simplify=True)
            ctx.check(np.isclose(f, U[u][1], rtol=1e-12), "factor", lambda: f"{u}: {f} {base}")
    ctx.cover(form, u1, u2)


# ------------------------------------------------------------------ quantities as arguments

LEN = {"m": ["km", "ft", "cm", "mile"], "ft": ["m", "inch", "km"], "km": ["m", "mile"]}


def wave(rng):
    n_t, n_d = int(rng.integers(32, 48)), int(rng.integers(12, 24))
    du = gen.pick(rng, ["m", "ft", "km"])
    step_d = gen.pick(rng, [1.0, 2.5, 0.75])
    step_t = gen.pick(rng, [10**7, 4 * 10**6, 10**9])
    sgn = -1 if gen.chance(rng, 0.25) else 1
    dist = (gen.pick(rng, [0.0, 100.0, -7.0]) + np.arange(n_d) * step_d)[::sgn]
    time = gen.BASE_TIME + np.arange(n_t) * np.timedelta64(step_t, "ns")
    dims = ["time", "distance"]
    rng.shuffle(dims)
    shape = tuple({"time": n_t, "distance": n_d}[d] for d in dims)
    data = rng.standard_normal(shape)
    p = dc.Patch(data=data, dims=dims, coords=dict(time=time, distance=dc.get_coord(data=dist, units=du)))
    return p, du, step_d, step_t / 1e9


def q_of(x, u_from, u_to):
    """x given in u_from as a quantity of u_to."""
    val = x * U[u_from][1] / U[u_to][1]
    return val * dc.get_unit(u_to)


def ops(rng, p, du, sd, st):
    """name, call(patch, dim, value maker) where the maker turns a plain number into the form under test."""
    half = gen.pick(rng, [2.5, 3.5, 4.5])
    k = half * sd
    kt = half * st
    edge = np.sort(np.asarray(p.get_array("distance")))
    a, b = edge[2] + 0.3 * sd, edge[-3] + 0.3 * sd
    nyq_d, nyq_t = 0.5 / sd, 0.5 / st
    return {
        "select": ("distance", lambda p, q: p.select(distance=(q(a), q(b)))),
        "select-open": ("distance", lambda p, q: p.select(distance=(None, q(b)))),
        "select-rel": ("distance", lambda p, q: p.select(distance=(q(k), None), relative=True)),
        "select-rel-t": ("time", lambda p, q: p.select(time=(q(kt), q(-kt)), relative=True)),
        "pad": ("distance", lambda p, q: p.pad(distance=q(2 * sd))),
        "pad-t": ("time", lambda p, q: p.pad(time=(q(2 * st), q(3 * st)))),
        "roll": ("distance", lambda p, q: p.roll(distance=q(3 * sd))),
        "taper-q": ("distance", lambda p, q: p.taper(distance=q(k))),
        "taper-tq": ("time", lambda p, q: p.taper(time=(q(kt), None))),
        "taper_range": ("distance", lambda p, q: p.taper_range(distance=(q(edge[1]), q(edge[3]), q(edge[6]), q(edge[9])))),
        "rolling": ("distance", lambda p, q: p.rolling(distance=q(4 * sd)).mean()),
        "rolling-t": ("time", lambda p, q: p.rolling(time=q(4 * st)).max()),
        "rolling-step": ("time", lambda p, q: p.rolling(time=q(4 * st), step=q(2 * st)).sum()),
        "median_filter": ("distance", lambda p, q: p.median_filter(distance=q(3 * sd))),
        "gaussian_filter": ("time", lambda p, q: p.gaussian_filter(time=q(3 * st))),
        "savgol_filter": ("time", lambda p, q: p.savgol_filter(polyorder=2, time=q(5 * st))),
        "hampel_filter": ("distance", lambda p, q: p.hampel_filter(threshold=3.0, distance=q(3 * sd))),
        "wiener_filter": ("time", lambda p, q: p.wiener_filter(time=q(3 * st))),
        "stft": ("time", lambda p, q: p.stft(time=q(8 * st), overlap=q(4 * st))),
        "resample-t": ("time", lambda p, q: p.resample(time=q(st * 2.5))),
        "pass-period": ("time", lambda p, q: p.pass_filter(time=(q(1 / (0.6 * nyq_t)), q(1 / (0.2 * nyq_t)))), (0.2 * nyq_t, 0.6 * nyq_t)),
        "pass-freq": ("freq", lambda p, q: p.pass_filter(time=(q(0.2 * nyq_t), q(0.7 * nyq_t)))),
        "pass-low": ("freq", lambda p, q: p.pass_filter(time=(None, q(0.7 * nyq_t)))),
        "notch": ("freq", lambda p, q: p.notch_filter(time=q(0.4 * nyq_t), q=20)),
        "correlate": ("distance", lambda p, q: p.correlate(distance=q(edge[3]))),
        "stalta": ("time", lambda p, q: p.stalta(time=(q(3 * st), q(9 * st)))),
        "kurtosis": ("time", lambda p, q: p.kurtosis(time=q(8 * st))),
    }


def close_patch(ctx, a, b, mech, what):
    ctx.check(a.dims == b.dims and a.shape == b.shape, f"{mech}-shape", lambda: f"{what}: {a.shape} {b.shape}")
    scale = np.nanmax(np.abs(a.data)) if a.data.size else 1.0
    ctx.check(mon.close(a.data, b.data, rtol=1e-7, atol=1e-8 * float(scale)), f"{mech}-data", lambda: f"{what}: max diff {np.nanmax(np.abs(a.data - b.data))}")
    for d in a.dims:
        x, y = np.asarray(a.get_array(d)), np.asarray(b.get_array(d))
        if x.dtype.kind == "f":
            ctx.check(mon.close(x, y, rtol=1e-8, atol=1e-8 * max(1e-300, np.nanmax(np.abs(x)) if x.size else 1)), f"{mech}-labels", lambda: f"{what}: {d} {x[:4]} {y[:4]}")
        elif x.dtype.kind in "mM":
            ctx.check(x.dtype.kind == y.dtype.kind and np.all(np.abs((x - y).astype("int64")) <= 1), f"{mech}-labels", lambda: f"{what}: {d} {x[:4]} {y[:4]}")
        else:
            ctx.check(mon.same(x, y), f"{mech}-labels", lambda: f"{what}: {d} {x[:4]} {y[:4]}")
        ctx.check(mon.quant_same(a.get_coord(d).units, b.get_coord(d).units), f"{mech}-units", lambda: f"{what}: {d} {a.get_coord(d).units} {b.get_coord(d).units}")


@family("P07", "arguments", quick=4000, thorough=40000)
def arguments(rng, ctx):
    p, du, sd, st = wave(rng)
    table = ops(rng, p, du, sd, st)
    name = list(table)[ctx.index % len(table)]
    item = table[name]
    kind, call = item[0], item[1]
    desc = p.get_coord("distance").reverse_sorted
    if kind == "distance":
        own, others = du, LEN[du]
    elif kind == "time":
        own, others = "s", ["ms", "min", "hour"]
    else:
        own, others = "1/s", ["kHz", "mHz", "Hz"]
    if desc and name in ("taper_range", "correlate", "select-rel"):
        pass
    # plain numbers are fractions of the dimension for tapers: compare quantities
    plain = (lambda x: q_of(x, own, own)) if name.startswith("taper-") else (lambda x: x)
    if name == "pass-period":
        plain = None
        base = p.pass_filter(time=item[2])
    else:
        try:
            base = call(p, plain)
        except Exception as exc:
            # refused with plain numbers: refused with quantities too
            u = gen.pick(rng, others)
            ctx.raises(lambda: call(p, lambda x: q_of(x, own, u)), "refused-only-plain", Exception, f"{name}: {exc}")
            ctx.cover("refused", name)
            return
    u = gen.pick(rng, [own] + others)
    what = f"{name} {own} as {u} desc={desc}"
    ctx.note(call=what, patch=gen.describe(p))
    got = call(p, lambda x: q_of(x, own, u))
    close_patch(ctx, base, got, "quantity", what)
    ctx.check(len(got.attrs.history) == len(base.attrs.history), "quantity-history", what)
    if kind == "distance":
        v = gen.pick(rng, LEN[du])
        conv = p.convert_units(distance=v)
        got2 = call(conv, lambda x: q_of(x, own, u))
        back = got2.convert_units(distance=du) if "distance" in got2.dims and got2.get_coord("distance").units is not None else got2
        if name != "correlate":
            close_patch(ctx, base, back, "converted", f"{what} on {v}")
        else:
            ctx.check(mon.close(base.data, got2.data, rtol=1e-7, atol=1e-9), "converted-data", what)
    # incompatible quantities are refused
    bad = dc.get_unit(gen.pick(rng, ["kg", "Pa", "kelvin"]))
    fp = mon.fp_patch(p)
    ctx.raises(lambda: call(p, lambda x: x * bad), "incompatible-argument", Exception, f"{name} with {bad}")
    ctx.check(mon.fp_patch(p) == fp, "argument-mutated", what)
    ctx.cover(name, own, u, desc, p.dims[0])


@family("P07", "unit-registry", quick=1, thorough=1)
def registry(rng, ctx):
    for u, (base, f, o) in U.items():
        q = dc.get_quantity(u)
        if o == 0 and base not in ("K",):
            ctx.check(np.isclose(float(q.to_base_units().magnitude), f, rtol=1e-12) or base in ("Pa",), "registry", lambda: f"{u} {q.to_base_units()}")
        ctx.cover(u)
    ctx.check(dc.get_quantity(None) is None and dc.get_quantity("") is None, "null-quantity", "")
    for bad in ("notaunit", "m / blarg"):
        ctx.raises(lambda: dc.get_example_patch().set_units(bad), "unknown-unit", Exception)
