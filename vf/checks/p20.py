"""P20: processing history and metadata are carried faithfully."""
from __future__ import annotations

import numpy as np

import dascore as dc
from vf import gen, mon, ops
from vf.core import describe, family

describe(
    "P20",
    "Each catalogued operation runs on random patches carrying earlier history, user-defined attributes and data units/type. The "
    "monitor checks that the old history is an unchanged prefix, that an operation which documents itself appends one entry "
    "naming itself and its arguments (composite operations may log their inner steps before it), that no unrelated attribute "
    "changes, and that data units/type change only for operations that imply it. Non-trivial: distinct by (operation, argument "
    "names, attributes present).",
    ["operations declared with history=None (select, order, transpose, append_dims, ...) must leave the history as it is"],
)

# operations which record their inner steps before their own entry
COMPOSITE = {"slope_filter", "whiten", "roll", "resample", "stalta", "tau_p", "dispersion_phase_shift", "correlate", "fbe", "spectrogram",
             "velocity_to_strain_rate", "velocity_to_strain_rate_edgeless", "sort_coords", "snap_coords"}
NAMED = {"rolling"}
UNITS_CHANGE = {"set_units", "convert_units", "simplify_units", "dft", "stft", "integrate", "differentiate", "stalta", "kurtosis", "correlate",
                "velocity_to_strain_rate", "velocity_to_strain_rate_edgeless", "radians_to_strain", "tau_p", "dispersion_phase_shift", "fbe",
                "spectrogram", "multiply", "divide", "exp", "isnan", "isinf", "is_finite", "apply_ufunc", "angle", "slope_filter", "whiten"}
TYPE_RESULT = {"angle": "", "normalize": "", "standardize": "", "full": "", "any": "", "all": "", "correlate": "correlation", "differentiate": "",
               "hilbert": "", "envelope": "envelope", "phase_weighted_stack": "phase_weighted_stack", "integrate": "", "stalta": "stalta",
               "kurtosis": "kurtosis", "dispersion_phase_shift": "dispersion", "tau_p": "tau_p", "dft": "fourier_transform", "stft": "fourier_transform",
               "spectrogram": None, "velocity_to_strain_rate": "strain_rate", "velocity_to_strain_rate_edgeless": "strain_rate", "radians_to_strain": None,
               "fbe": None, "exp": None, "isnan": None, "isinf": None, "is_finite": None, "apply_ufunc": None}
OWN_ATTRS = {"velocity_to_strain_rate": {"gauge_length"}, "velocity_to_strain_rate_edgeless": {"gauge_length"}, "update_attrs": {"tag", "custom_key"},
             "tau_p": {"category"}, "dispersion_phase_shift": {"category"}}
SKIP = {"history", "coords", "dims", "data_units", "data_type"}


def public(attrs):
    return {k: v for k, v in attrs.model_dump().items() if k not in SKIP and not k.startswith("_")}


def expected_entry(ctx, name, args, kwargs, entry):
    ctx.check(entry.startswith(name), "entry-name", lambda: f"{name}: {entry}")
    if "(" not in entry:
        return
    for key, val in kwargs.items():
        if val is None or isinstance(val, np.ndarray | dc.Patch) or hasattr(val, "magnitude"):
            continue
        ctx.check(f"{key}=" in entry, "entry-argument", lambda: f"{name}: argument {key} missing in {entry}")
        if isinstance(val, bool | int | str):
            ctx.check(f"{key}='{val}'" in entry or f"{key}={val}" in entry, "entry-value", lambda: f"{name}: {key}={val!r} not in {entry}")
    for val in args:
        if isinstance(val, str):
            ctx.check(val in entry, "entry-positional", lambda: f"{name}: {val!r} not in {entry}")


def judge(ctx, p, name, args, kwargs, out):
    op = ops.OPS[name]
    h0, h1 = tuple(p.attrs.history), tuple(out.attrs.history)
    if out is p:
        ctx.cover(name, "identity")
        return
    what = f"{name}{str((args, kwargs))[:200]}"
    ctx.check(h1[: len(h0)] == h0, "history-rewritten", lambda: f"{what}: {h0} -> {h1}")
    new = h1[len(h0):]
    if op.history == "none":
        ctx.check(not new, "history-unexpected", lambda: f"{what}: {new}")
    elif op.history == "one" or name in COMPOSITE:
        if name in ("snap_coords", "sort_coords"):
            pass
        elif name in COMPOSITE:
            ctx.check(len(new) >= 1, "history-missing", lambda: what)
            ctx.check(sum(e.startswith(name + "(") for e in new) == 1, "history-own-count", lambda: f"{what}: {new}")
            expected_entry(ctx, name, args, kwargs, new[-1])
        else:
            ctx.check(len(new) == 1, "history-count", lambda: f"{what}: {new}")
            expected_entry(ctx, name, args, kwargs, new[0])
    elif name in NAMED:
        ctx.check(len(new) == 1 and new[0].startswith(name), "history-count", lambda: f"{what}: {new}")
    a0, a1 = public(p.attrs), public(out.attrs)
    own = OWN_ATTRS.get(name, set())
    for key in (set(a0) | set(a1)) - own:
        ctx.check(key in a1, "attr-lost", lambda: f"{what}: {key}={a0.get(key)!r} lost")
        ctx.check(key in a0, "attr-invented", lambda: f"{what}: {key}={a1.get(key)!r} appeared")
        ctx.check(repr(a0[key]) == repr(a1[key]), "attr-changed", lambda: f"{what}: {key} {a0[key]!r} -> {a1[key]!r}")
    if name not in UNITS_CHANGE:
        ctx.check(mon.quant_same(p.attrs.data_units, out.attrs.data_units), "units-changed", lambda: f"{what}: {p.attrs.data_units} -> {out.attrs.data_units}")
    if name in TYPE_RESULT:
        if TYPE_RESULT[name] is not None:
            ctx.check(out.attrs.data_type == TYPE_RESULT[name], "type-set", lambda: f"{what}: data_type {out.attrs.data_type!r}")
    else:
        ctx.check(out.attrs.data_type == p.attrs.data_type, "type-changed", lambda: f"{what}: {p.attrs.data_type!r} -> {out.attrs.data_type!r}")
    ctx.cover(name, tuple(sorted(kwargs))[:3], p.attrs.data_units is not None, bool(h0), "my_extra" in a0)


def sample_patch(rng):
    big = gen.chance(rng, 0.3)
    kw = dict(sizes=(40, 52), ndim=2) if big else dict(sizes=(2, 9))
    names = ["time", "distance"] if gen.chance(rng, 0.5) else None
    if names and not big:
        kw["ndim"] = 2
    p, info = gen.patch(rng, data_dtypes=("float64", "float64", "float32", "int32"), names=names,
                        kinds=("even", "even", "even", "even-desc", "mono", "mono-desc", "unsorted"), **kw)
    return p, info


@family("P20", "each-op", quick=9000, thorough=100000)
def each_op(rng, ctx):
    names = list(ops.OPS)
    name = names[ctx.index % len(names)]
    for _ in range(40):
        p, info = sample_patch(rng)
        made = ops.OPS[name].make(rng, p)
        if made is not None:
            break
    else:
        ctx.skip("no applicable patch for " + name)
    args, kwargs = made
    ctx.note(op=name, args=str(made)[:200])
    out = ops.call(p, name, args, kwargs)
    judge(ctx, p, name, args, kwargs, out)


@family("P20", "chains", quick=2500, thorough=30000)
def chains(rng, ctx):
    """The whole history of a chain is the concatenation of its steps."""
    p, info = sample_patch(rng)
    for _ in range(int(rng.integers(2, 7))):
        made = ops.random_call(rng, p)
        if made is None:
            break
        name, args, kwargs = made
        try:
            out = ops.call(p, name, args, kwargs)
        except Exception as exc:
            ctx.count(f"refused:{name}:{type(exc).__name__}")
            break
        judge(ctx, p, name, args, kwargs, out)
        p = out
        if p.size > 20000:
            break


@family("P20", "user-function", quick=800, thorough=8000)
def user_function(rng, ctx):
    """Functions registered by users follow the same rules."""
    mode = gen.pick(rng, ["full", "method_name", None])
    dtype = gen.pick(rng, [None, "", "strain"])

    @dc.patch_function(history=mode, data_type=dtype)
    def my_proc(patch, a, b=2, **kwargs):
        return patch.new(data=patch.data * 1)

    p, info = sample_patch(rng)
    a, kw = int(rng.integers(0, 100)), {"zed": gen.word(rng, 4)}
    out = my_proc(p, a, b=7, **kw)
    new = tuple(out.attrs.history)[len(p.attrs.history):]
    ctx.check(tuple(out.attrs.history)[: len(p.attrs.history)] == tuple(p.attrs.history), "history-rewritten", "user function")
    if mode is None:
        ctx.check(not new, "history-unexpected", lambda: f"{new}")
    else:
        ctx.check(len(new) == 1 and new[0].startswith("my_proc"), "history-count", lambda: f"{new}")
        if mode == "full":
            for text in (f"a='{a}'", "b='7'", f"zed='{kw['zed']}'"):
                ctx.check(text in new[0], "entry-argument", lambda: f"{text} not in {new[0]}")
        else:
            ctx.check(new[0] == "my_proc", "entry-method-name", lambda: new[0])
    ctx.check(out.attrs.data_type == (p.attrs.data_type if dtype is None else dtype), "type-changed", lambda: f"{dtype} {out.attrs.data_type}")
    ctx.check(public(p.attrs) == public(out.attrs), "attr-changed", "user function")
    ctx.check(mon.quant_same(p.attrs.data_units, out.attrs.data_units), "units-changed", "user function")
    ctx.cover("user", mode, dtype, len(p.attrs.history))
