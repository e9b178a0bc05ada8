"""P14: time conversions are exact and invertible."""
from __future__ import annotations

import warnings
from datetime import datetime, timedelta, timezone
from fractions import Fraction

import numpy as np
import pandas as pd

import dascore as dc
from dascore.utils.time import get_max_min_times, is_datetime64, is_timedelta64, to_datetime64, to_float, to_int, to_timedelta64
from vf import gen, mon
from vf.core import describe, family

describe(
    "P14",
    "Random instants and durations, held as exact integers of nanoseconds, are put into every supported form (numbers, strings of any precision with and "
    "without time zones, numpy, pandas and Python dates, timestamps and durations of any unit, nulls of every kind), alone and in lists, tuples, arrays of every "
    "shape and layout, object arrays and series with their own index, and converted to times, durations, numbers and integers. Monitors compare each result "
    "with the integers, each container with its elements, null with null, order with order, and each conversion with its inverse; inputs must be unchanged. "
    "Selections with equivalent forms of the same limits must agree. Non-trivial: distinct by (conversion, form, container, magnitude).",
    [
        "instants between 1678 and 2262, durations below 292 years",
        "floats are judged to their own resolution",
        "NaT in integer arrays is its integer value",
        "lists mixing strings and numbers are no times",
        "pandas indices are no supported input",
    ],
)

NS = {"D": 86400 * 10**9, "h": 3600 * 10**9, "m": 60 * 10**9, "s": 10**9, "ms": 10**6, "us": 10**3, "ns": 1}
NULLS = (None, np.nan, pd.NaT, pd.NA, np.datetime64("NaT"), np.datetime64("NaT", "ns"), np.float32("nan"))


def instant(rng, unit, span="any"):
    """A number of nanoseconds which is a whole number of units."""
    kind = gen.pick(rng, ["recent", "recent", "zero", "small", "far", "negative"]) if span == "any" else span
    if kind == "recent":
        n = 1_500_000_000 * 10**9 + int(rng.integers(0, 3 * 10**17))
    elif kind == "zero":
        n = 0
    elif kind == "small":
        n = int(rng.integers(-(10**12), 10**12))
    elif kind == "far":
        n = int(rng.integers(4 * 10**18, 9 * 10**18))
    else:
        n = -int(rng.integers(1, 9 * 10**18))
    return n - n % NS[unit]


def dt64(n, unit="ns"):
    return np.datetime64(n // NS[unit], unit)


def td64(n, unit="ns"):
    return np.timedelta64(n // NS[unit], unit)


def iso(n, unit):
    return str(dt64(n, unit))


ZONES = (timezone.utc, timezone(timedelta(hours=2)), timezone(timedelta(hours=-7, minutes=-30)))
EPOCH = datetime(1970, 1, 1)


def pydatetime(n):
    return EPOCH + timedelta(microseconds=n // 1000)


def aware(n, zone):
    return (EPOCH.replace(tzinfo=timezone.utc) + timedelta(microseconds=n // 1000)).astimezone(zone)


# form: (unit which it can represent, function of integer nanoseconds)
TIMES = {
    **{f"datetime64[{u}]": (u, lambda n, r, u=u: dt64(n, u)) for u in NS},
    **{f"Timestamp[{u}]": (u, lambda n, r, u=u: pd.Timestamp(dt64(n, u))) for u in ("s", "ms", "us", "ns")},
    "Timestamp-zone": ("us", lambda n, r: pd.Timestamp(aware(n, gen.pick(r, ZONES)))),
    "datetime": ("us", lambda n, r: pydatetime(n)),
    "datetime-zone": ("us", lambda n, r: aware(n, gen.pick(r, ZONES))),
    **{f"str[{u}]": (u, lambda n, r, u=u: iso(n, u)) for u in ("D", "s", "ms", "us", "ns")},
    "str-Z": ("ns", lambda n, r: iso(n, "ns") + "Z"),
    "str-space": ("us", lambda n, r: iso(n, "us").replace("T", " ")),
    "int": ("s", lambda n, r: n // 10**9),
    "np.int64": ("s", lambda n, r: np.int64(n // 10**9)),
    "float-whole": ("s", lambda n, r: float(n // 10**9)),
    "timedelta64": ("ns", lambda n, r: td64(n)),
    "timedelta64[ms]": ("ms", lambda n, r: td64(n, "ms")),
}
WORDS = {"h": "hour", "m": "minute", "s": "second", "ms": "millisecond", "us": "microsecond", "ns": "nanosecond", "D": "day"}
SPANS = {
    **{f"timedelta64[{u}]": (u, lambda n, r, u=u: td64(n, u)) for u in NS},
    **{f"Timedelta[{u}]": (u, lambda n, r, u=u: pd.Timedelta(td64(n, u))) for u in ("s", "ms", "us", "ns")},
    "timedelta": ("us", lambda n, r: timedelta(microseconds=n // 1000)),
    **{f"str[{u}]": (u, lambda n, r, u=u: str(td64(n, u))) for u in NS},
    **{f"str-one[{u}]": (u, lambda n, r, u=u: f"{n // NS[u]} {WORDS[u]}") for u in NS},
    "int": ("s", lambda n, r: n // 10**9),
    "np.int64": ("s", lambda n, r: np.int64(n // 10**9)),
    "float-whole": ("s", lambda n, r: float(n // 10**9)),
    "datetime64": ("ns", lambda n, r: dt64(n)),
}


def magnitude(n):
    return "0" if n == 0 else f"{'-' if n < 0 else ''}{len(str(abs(n))) // 3}"


def as_ns(value):
    """The nanoseconds in a result (None for NaT)."""
    return None if np.isnat(value) else int(value.astype(np.int64))


def call(func, value):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return func(value)


@family("P14", "scalar", quick=3000, thorough=60000, timeout=60)
def scalar(rng, ctx):
    """One time or duration in one form."""
    for _ in range(5):
        which = gen.pick(rng, ["time", "span"])
        forms, func, kind = (TIMES, to_datetime64, np.datetime64) if which == "time" else (SPANS, to_timedelta64, np.timedelta64)
        name = gen.pick(rng, sorted(forms))
        unit, make = forms[name]
        # whole numbers of seconds beyond 2**53 / 5**9 are not exact as floats of nanoseconds
        n = instant(rng, unit, gen.pick(rng, ["recent", "small", "zero"]) if name == "float-whole" else "any")
        value = make(n, rng)
        out = call(func, value)
        what = f"{func.__name__}({value!r})"
        ctx.check(isinstance(out, kind) and out.dtype == np.dtype("M8[ns]" if which == "time" else "m8[ns]"), "type", lambda: f"{what}: {out!r}")
        ctx.check(as_ns(out) == n, "exact", lambda: f"{what}: {out!r}, {as_ns(out)} ns of {n}")
        # idempotent
        again = call(func, out)
        ctx.check(as_ns(again) == n, "idempotent", lambda: f"{what}: {again!r}")
        # and back
        if not isinstance(value, str):
            f = call(to_float, value)
            want = float(Fraction(n, 10**9))
            ctx.check(abs(f - want) <= np.spacing(abs(want)), "to_float", lambda: f"to_float({value!r}) is {f!r} want {want!r}")
        if not isinstance(value, str | int | float | np.int64):
            i = call(to_int, value)
            ctx.check(int(i) == n and isinstance(i, int | np.integer), "to_int", lambda: f"to_int({value!r}) is {i!r} want {n}")
        back = str(out)
        ctx.check(as_ns(call(func, back)) == n, "string-back", lambda: f"{func.__name__}({back!r}) want {n}")
        other = call(to_timedelta64 if which == "time" else to_datetime64, out)
        ctx.check(as_ns(other) == n, "epoch", lambda: f"{out!r} to {other!r}")
        ctx.check(bool(is_datetime64(out)) == (which == "time") and bool(is_timedelta64(out)) == (which == "span"), "kind", lambda: f"{out!r}")
        ctx.cover("scalar", which, name, magnitude(n))


def float_bound(x):
    """How far from the exact instant a float may end up, in ns."""
    return max(1, int(np.ceil(np.spacing(abs(float(x))) * 1e9)) + 1)


@family("P14", "float", quick=1500, thorough=30000, timeout=60)
def floats(rng, ctx):
    """Fractional seconds: within the resolution of the float, monotonic, invertible."""
    scale = gen.pick(rng, [1e-9, 1e-6, 1e-3, 1.0, 1e3, 1e6, 1.6e9, 8e9])
    vals = np.sort(rng.uniform(-1, 1, size=12) * scale)
    if gen.chance(rng, 0.3):
        vals = np.sort(np.round(vals, int(rng.integers(0, 10))))
    if gen.chance(rng, 0.3):
        vals = np.cumsum(np.full(12, gen.pick(rng, [0.1, 0.001, 1 / 3, 0.004, 1e-6])))
    dtype = gen.pick(rng, [np.float64, np.float64, np.float32])
    arr = vals.astype(dtype)
    for func in (to_datetime64, to_timedelta64):
        out = call(func, arr)
        ints = out.astype(np.int64)
        for x, i in zip(arr, ints):
            want = round(Fraction(float(x)) * 10**9)
            tol = float_bound(x) if dtype is np.float64 else max(1, int(np.spacing(abs(np.float32(x))) * 1e9) + 1)
            ctx.check(abs(int(i) - want) <= tol, "float-exact", lambda: f"{func.__name__}({x!r}): {i} want {want}±{tol}")
            one = call(func, x)
            ctx.check(as_ns(one) == int(i), "float-scalar", lambda: f"{func.__name__}({x!r}): {as_ns(one)} but {i} in an array")
            if dtype is np.float64:
                two = call(func, float(x))
                ctx.check(as_ns(two) == int(i), "float-scalar", lambda: f"{func.__name__}({float(x)!r}): {as_ns(two)} but {i} in an array")
        ctx.check(bool(np.all(ints[1:] >= ints[:-1])), "order", lambda: f"{func.__name__}({arr}): {ints}")
        back = call(to_float, out)
        ctx.check(back.dtype == np.float64 and np.all(np.abs(back - arr.astype(float)) <= 0.6e-9 + np.spacing(np.abs(arr)).astype(float)), "float-back", lambda: f"{arr} {back}")
        neg = call(func, -arr).astype(np.int64)
        ctx.check(np.array_equal(neg, -ints), "symmetric", lambda: f"{func.__name__}: {-arr} {neg} {ints}")
    ctx.cover("float", scale, dtype.__name__)


@family("P14", "null", quick=400, thorough=4000, timeout=60)
def nulls(rng, ctx):
    """Nulls map to nulls and nothing else does."""
    for value in (*NULLS, np.timedelta64("NaT"), np.timedelta64("NaT", "ns"), "NaT"):
        for func, kind in ((to_datetime64, np.datetime64), (to_timedelta64, np.timedelta64)):
            out = call(func, value)
            ctx.check(isinstance(out, kind) and np.isnat(out), "null", lambda: f"{func.__name__}({value!r}): {out!r}")
        if not isinstance(value, str):
            out = call(to_float, value)
            ctx.check(out != out, "null-float", lambda: f"to_float({value!r}): {out!r}")
            out = call(to_int, value)
            ctx.check(out != out or int(out) == np.iinfo(np.int64).min, "null-int", lambda: f"to_int({value!r}): {out!r}")
    for value in (np.inf, -np.inf):
        ctx.check(np.isnat(call(to_datetime64, value)) and np.isnat(call(to_timedelta64, value)), "inf", lambda: f"{value}")
    big = gen.pick(rng, [10**10, -(10**10), 10**15, 2**62, -(2**63), 9_223_372_037])
    for value in (big, np.int64(big), float(big), [big], np.array([big]), np.array([float(big)])):
        for func in (to_datetime64, to_timedelta64):
            out = np.atleast_1d(call(func, value))
            ctx.check(np.isnat(out[0]), "unrepresentable", lambda: f"{func.__name__}({value!r}): {out!r}")
    # in arrays
    n = int(rng.integers(1, 7))
    values = [float(rng.integers(0, 100)) for _ in range(n)]
    mask = rng.random(n) < 0.5
    for make in (lambda: np.array([np.nan if m else v for m, v in zip(mask, values)]), lambda: [None if m else v for m, v in zip(mask, values)],
                 lambda: np.array([gen.pick(rng, NULLS[:4]) if m else v for m, v in zip(mask, values)], dtype=object),
                 lambda: pd.Series([None if m else v for m, v in zip(mask, values)], index=np.arange(n) + 5),
                 lambda: pd.Series([None if m else int(v) for m, v in zip(mask, values)], dtype="Int64"),
                 lambda: np.array([np.inf if m else v for m, v in zip(mask, values)])):
        obj = make()
        for func in (to_datetime64, to_timedelta64):
            out = call(func, obj)
            arr = np.asarray(out)
            ctx.check(np.array_equal(np.isnat(arr), mask), "null-array", lambda: f"{func.__name__}({obj!r}): {out!r}")
            ints = arr.astype(np.int64)
            ctx.check(all(m or int(i) == int(v * 10**9) for m, i, v in zip(mask, ints, values)), "null-others", lambda: f"{func.__name__}({obj!r}): {out!r}")
    ctx.cover("null", n, int(mask.sum()), big)


def containers(rng, values, typed):
    """Ways to hold several values."""
    out = {"list": list(values), "tuple": tuple(values)}
    obj = np.empty(len(values), dtype=object)
    obj[:] = values
    out["object"] = obj
    out["series-object"] = pd.Series(obj, index=np.arange(len(values))[::-1] * 2, dtype=object)
    if typed is not None:
        out["array"] = typed
        out["strided"] = np.repeat(typed, 2)[::2]
        out["reversed"] = typed[::-1][::-1]
        ro = typed.copy()
        ro.setflags(write=False)
        out["read-only"] = ro
        out["2d"] = np.stack([typed, typed])
        out["2d-fortran"] = np.asfortranarray(np.stack([typed, typed]))
        out["2d-column"] = typed[:, None]
        out["0d"] = np.asarray(typed[0])
        if typed.dtype.kind not in "Mm" or typed.dtype.name.endswith(("[s]", "[ms]", "[us]", "[ns]")):
            out["series"] = pd.Series(typed, index=[f"i{k}" for k in range(len(values))])
            out["series-sliced"] = pd.Series(np.repeat(typed, 2))[::2]
    return out


@family("P14", "container", quick=1500, thorough=25000, timeout=60)
def container(rng, ctx):
    """Containers are converted as their elements are."""
    which = gen.pick(rng, ["time", "span"])
    forms, func = (TIMES, to_datetime64) if which == "time" else (SPANS, to_timedelta64)
    name = gen.pick(rng, sorted(forms))
    unit, make = forms[name]
    k = int(rng.integers(1, 6))
    ints = [instant(rng, unit, gen.pick(rng, ["recent", "small", "zero"])) for _ in range(k)]
    values = [make(n, rng) for n in ints]
    typed = None
    if name.startswith(("datetime64", "timedelta64", "int", "np.int64", "float")):
        typed = np.array(values)
    elif name.startswith("str"):
        typed = np.array(values)
    for cname, obj in containers(rng, values, typed).items():
        if name.startswith("str") and cname.startswith("series") and which == "span":
            continue  # pandas parses these
        want = np.array(ints)
        if cname in ("2d", "2d-fortran"):
            want = np.stack([want, want])
        elif cname == "2d-column":
            want = want[:, None]
        elif cname == "0d":
            want = want[0]
        before = obj.copy() if isinstance(obj, np.ndarray | pd.Series) else type(obj)(obj)
        out = call(func, obj)
        what = f"{func.__name__}({name} in {cname}: {values!r})"
        ctx.count("containers")
        if isinstance(obj, pd.Series):
            ctx.check(isinstance(out, pd.Series) and list(out.index) == list(obj.index), "series", lambda: f"{what}: {out!r}")
        arr = np.asarray(out)
        ctx.check(arr.dtype == np.dtype("M8[ns]" if which == "time" else "m8[ns]"), "dtype", lambda: f"{what}: {arr.dtype}")
        ctx.check(arr.shape == np.shape(want), "shape", lambda: f"{what}: {arr.shape}")
        ctx.check(np.array_equal(arr.astype(np.int64), want), "elements", lambda: f"{what}: {arr.astype(np.int64).tolist()} want {np.asarray(want).tolist()}")
        same = obj.equals(before) if isinstance(obj, pd.Series) else np.array_equal(np.asarray(obj), np.asarray(before))
        ctx.check(same, "input", lambda: f"{what}: input is now {obj!r}")
        if not name.startswith("str"):
            f = call(to_float, obj)
            fw = np.asarray(want).astype(object)
            exact = np.array([float(Fraction(int(x), 10**9)) for x in np.ravel(fw)]).reshape(np.shape(want))
            ctx.check(np.all(np.abs(np.asarray(f, dtype=float) - exact) <= np.spacing(np.abs(exact))), "floats", lambda: f"to_float of {what}: {f}")
            if not name.startswith(("int", "np.int", "float")):
                i = call(to_int, obj)
                ctx.check(np.array_equal(np.asarray(i).astype(np.int64), want), "ints", lambda: f"to_int of {what}: {i}")
        # order
        order = np.argsort(np.ravel(want), kind="stable")
        flat = np.ravel(arr)[order]
        ctx.check(bool(np.all(flat[1:] >= flat[:-1])), "order", lambda: what)
        ctx.cover("container", which, name, cname)
    for empty in ([], (), np.array([]), np.array([], "M8[ns]"), np.array([], "m8[s]"), np.array([], dtype=object), np.array([], dtype=np.int64), pd.Series([], dtype=float)):
        for f, kind in ((to_datetime64, "M"), (to_timedelta64, "m"), (to_float, "f"), (to_int, "iu")):
            out = call(f, empty)
            ctx.check(len(out) == 0 and np.asarray(out).dtype.kind in kind, "empty", lambda: f"{f.__name__}({empty!r}): {out!r}")


@family("P14", "numbers", quick=300, thorough=4000, timeout=60)
def numbers(rng, ctx):
    """Integers of every type and size."""
    for dt in ("i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"):
        info = np.iinfo(dt)
        lo, hi = max(info.min, -9_000_000_000), min(info.max, 9_000_000_000)
        vals = np.array([lo, hi, *[int(x) for x in rng.integers(lo, hi, size=4)]], dtype=dt)
        for func in (to_datetime64, to_timedelta64):
            out = call(func, vals)
            want = [int(v) * 10**9 for v in vals]
            ctx.check(out.astype(np.int64).tolist() == want, "integers", lambda: f"{func.__name__}({vals!r}): {out.astype(np.int64)}")
            one = call(func, vals[2])
            ctx.check(as_ns(one) == want[2], "integer", lambda: f"{func.__name__}({vals[2]!r}): {one!r}")
    ctx.check(np.array_equal(call(to_float, vals), vals.astype(float)), "float", "")
    ctx.cover("numbers", int(ctx.index % 40))


@family("P14", "refused", quick=40, thorough=100, timeout=60)
def refused(rng, ctx):
    """What is no time is not converted."""
    for value in ("bad", "2020-13-01", "2020-01-01T25:00:00", object(), {}, 1j, "1 fortnight"):
        ctx.raises(lambda: call(to_datetime64, value), "refused", Exception, f"to_datetime64({value!r})")
    for value in ("bad", "1.2.3 seconds", "5 parsecs", object(), {}, 1j, "seconds 5", "one two three"):
        ctx.raises(lambda: call(to_timedelta64, value), "refused", Exception, f"to_timedelta64({value!r})")
    ctx.cover("refused")


@family("P14", "select", quick=300, thorough=5000, timeout=60)
def select(rng, ctx):
    """Equivalent forms of the same limits select the same samples."""
    step = gen.pick(rng, [10**9, 250_000_000, 4_000_000, 123_456_789])
    start = instant(rng, "ns", gen.pick(rng, ["recent", "small", "zero"]))
    n = int(rng.integers(5, 40))
    coord = dc.get_coord(start=dt64(start), step=td64(step), stop=dt64(start + n * step))
    p = dc.Patch(data=np.arange(n, dtype=float), dims=("time",), coords={"time": coord})
    ints = start + step * np.arange(n)
    name = gen.pick(rng, sorted(x for x in TIMES if not x.startswith(("timedelta", "str[D]"))))
    unit, make = TIMES[name]
    lims = sorted(int(ints[int(k)]) + int(gen.pick(rng, [0, 0, 1, -1, step // 2])) for k in rng.integers(0, n, size=2))
    lims = [x - x % NS[unit] for x in lims]
    if lims[0] >= lims[1]:
        lims[1] = lims[0] + NS[unit]
    value = tuple(make(x, rng) for x in lims)
    got = call(lambda v: p.select(time=v), value)
    want = np.flatnonzero((ints >= lims[0]) & (ints <= lims[1]))
    ctx.check(np.array_equal(got.data, want.astype(float)), "select", lambda: f"select(time={value!r}) of {coord}: {got.data} want {want}")
    # relative limits
    name2 = gen.pick(rng, sorted(x for x in SPANS if not x.startswith(("datetime", "str"))))
    unit, make = SPANS[name2]
    a, b = sorted(int(x) for x in rng.integers(0, n * step, size=2))
    a, b = a - a % NS[unit], b - b % NS[unit]
    if a < b:
        value = (make(a, rng), make(b, rng))
        if not any(isinstance(v, float | int) and v == 0 for v in value):
            got = call(lambda v: p.select(time=v, relative=True), value)
            want = np.flatnonzero((ints - start >= a) & (ints - start <= b))
            ctx.check(np.array_equal(got.data, want.astype(float)), "relative", lambda: f"select(time={value!r}, relative=True) of {coord}: {got.data} want {want}")
    # the range used for indices
    lo, hi = call(get_max_min_times, (make_any(rng, lims[0]), make_any(rng, lims[1])))
    ctx.check((as_ns(lo), as_ns(hi)) == tuple(lims), "range", lambda: f"{lims}: {lo} {hi}")
    lo, hi = call(get_max_min_times, gen.pick(rng, [(None, dt64(lims[1])), (pd.NaT, dt64(lims[1]))]))
    ctx.check(as_ns(lo) < -9 * 10**18 and as_ns(hi) == lims[1], "open-range", lambda: f"{lo} {hi}")
    lo, hi = call(get_max_min_times, (dt64(lims[0]), None))
    ctx.check(as_ns(lo) == lims[0] and as_ns(hi) > 9 * 10**18, "open-range", lambda: f"{lo} {hi}")
    ctx.cover("select", name, name2, step)


def make_any(rng, n):
    """An exact form of an instant."""
    return gen.pick(rng, [dt64(n), pd.Timestamp(dt64(n)), iso(n, "ns"), n // 10**9 if n % 10**9 == 0 else dt64(n)])
