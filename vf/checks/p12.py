"""P12: formats are recognised, and damaged or foreign files are refused without harm."""
from __future__ import annotations

import shutil
import warnings
from pathlib import Path

import h5py
import numpy as np
import tables

import dascore as dc
from dascore.exceptions import UnknownFiberFormatError
from dascore.io import FiberIO
from dascore.utils.io import IOResourceManager
from vf import bad, files, gen
from vf.checks import p11
from vf.core import describe, family

describe(
    "P12",
    "Files of 24 formats are given other names, misleading or no extensions and every kind of handle: the format found is the one they were written in, and every other reader "
    "refuses them. Foreign files (empty, text, archives, tables of numbers, HDF5 files of other programs, the marks of supported formats followed by noise) are unknown. Truncated, "
    "corrupted and structurally damaged files (missing or changed nodes, attributes, shapes, types) end within a time limit with an ordinary error or a result; what is returned from a truncated "
    "file is in the complete one; and a directory of good and bad files lists exactly the good ones' patches besides whatever the bad ones give. Non-trivial: distinct by (format, kind of damage).",
    [
        "formats whose file name carries information keep their name and extension",
        "bytes of HDF5 files are only changed through HDF5 or in the signature: the HDF5 library's own robustness is not meant",
        "changed bytes within data or metadata values cannot be noticed by formats without checksums: such a file may yield a patch",
    ],
)

KEEP_NAME = {"sentek", "XMLBinary", "febus_g1_csv"}


def error_ok(ctx, exc, what, tag):
    """Errors are ordinary ones."""
    ctx.soft(isinstance(exc, Exception) and not isinstance(exc, MemoryError | RecursionError), tag, lambda: f"{what}: {type(exc).__name__}: {exc}")


@family("P12", "detect", quick=230, thorough=3000, timeout=120)
def detect(rng, ctx):
    with files.folder() as folder:
        made = p11.build(rng, ctx, folder)
        want = (made.fmt, made.version)
        path = made.path
        if not path.is_dir() and made.fmt not in KEEP_NAME:
            ext = gen.pick(rng, bad.EXTS)
            stem = gen.pick(rng, ["renamed", "no way.h5", "ü_1", ".hidden"])
            path = folder / (f"{stem}.{ext}" if ext else stem)
            shutil.move(made.path, path)
            ctx.note(name=path.name)
        how = gen.pick(rng, ["str", "path", "manager"])
        if how == "manager":
            with IOResourceManager(path) as man:
                got = dc.get_format(man)
                again = dc.get_format(man)
                ctx.soft(got == again, "manager-repeat", lambda: f"{got} {again}")
        else:
            got = dc.get_format(str(path) if how == "str" else path)
        ctx.soft(got == want, "format", lambda: f"{path.name}: {got}, is {want}")
        ctx.cover(made.fmt, made.version, path.suffix, how)
        # each reader by itself
        FiberIO.manager.load_plugins()
        for versions in FiberIO.manager._format_version.values():
            for fio in versions.values():
                if not fio.implements_get_format:
                    continue
                claim = fio.get_format(path) if fio.input_type == ("directory" if path.is_dir() else "file") else False
                ctx.count("single reader probes")
                ok = claim == want if (fio.name.upper() == made.fmt.upper() and claim) else not claim
                ctx.soft(ok, "claimed-by-other", lambda: f"{fio.name} {fio.version} says {claim} of a {want} file")
        own = FiberIO.manager.get_fiberio(format=made.fmt, version=made.version)
        if not path.is_dir():
            claims = {"path": own.get_format(path)}
            if path.read_bytes()[:4] == b"\x89HDF":
                with h5py.File(path, "r") as f, tables.open_file(str(path)) as t:
                    claims["h5py"], claims["tables"] = own.get_format(f), own.get_format(t)
                claims = {k: v for k, v in claims.items() if k == "path" or v}
            else:
                with open(path, "rb") as f:
                    if made.fmt not in ("febus_g1_csv", "segy"):
                        f.seek(3)
                        claims["binary"] = own.get_format(f)
            ctx.soft(all(v == want for v in claims.values()), "handle", lambda: f"{claims} for {want}")


def only_refused(ctx, path, kind):
    """All single-file calls treat the file as unknown."""
    try:
        got = dc.get_format(path)
    except UnknownFiberFormatError:
        pass
    else:
        ctx.soft(False, "stranger-claimed", lambda: f"{kind} file {path.name} ({path.stat().st_size} bytes) is {got}")
        return
    for name, call in (("read", dc.read), ("scan", dc.scan), ("spool", dc.spool)):
        try:
            out = call(path)
        except dc.exceptions.DASCoreError as exc:
            ctx.soft(name != "scan", "stranger-scan", lambda: f"{exc!r}")
        except Exception as exc:
            ctx.soft(False, "stranger-error", lambda: f"{name}: {exc!r}")
        else:
            ctx.soft(name == "scan" and out == [] , "stranger-yields", lambda: f"{kind}: {name} gives {out}")


@family("P12", "foreign", quick=400, thorough=6000, timeout=60)
def foreign(rng, ctx):
    with files.folder() as folder:
        path, kind = bad.foreign(rng, folder, "f")
        ctx.note(kind=kind, name=path.name)
        ctx.cover(kind, path.suffix)
        only_refused(ctx, path, kind)


def inside(p, full):
    """Whether all values of p are those of one of the patches at the same labels."""
    for q in full:
        if q.dims != p.dims:
            continue
        index = []
        for dim in p.dims:
            a, b = p.get_array(dim), q.get_array(dim)
            if a.dtype.kind in "mM":
                a, b = a.astype(np.int64), b.astype(np.int64)
            tol = 20000 if q.get_array(dim).dtype.kind in "mM" else 1e-6
            dist = np.abs(a[:, None] - b[None, :]) if len(a) and len(b) else np.zeros((len(a), 0))
            if len(a) and (dist.shape[1] == 0 or dist.min(axis=1).max() > tol):
                break
            index.append(dist.argmin(axis=1) if len(a) else np.array([], dtype=int))
        else:
            if np.array_equal(p.data, q.data[np.ix_(*index)], equal_nan=p.data.dtype.kind == "f"):
                return True
    return False


def outcome(ctx, path, call, tag):
    """Call; the result or None with an ordinary error."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return call(path)
    except Exception as exc:
        error_ok(ctx, exc, tag, "bad-error")
        return None


@family("P12", "truncated", quick=230, thorough=4000, timeout=60)
def truncated(rng, ctx):
    with files.folder() as folder:
        made = p11.build(rng, ctx, folder)
        full = p11.read_all(made)
        sub = folder / "bad"
        sub.mkdir()
        for num in range(4):
            shutil.rmtree(sub)
            sub.mkdir()
            path, kind = bad.damage(rng, made, sub, kinds=["truncate", "truncate", "truncate", "empty"])
            ctx.cover(made.fmt, kind)
            fmt = {} if gen.chance(rng, 0.5) else {"file_format": made.fmt, "file_version": made.version}
            got = outcome(ctx, path, lambda x: list(dc.read(x, **fmt)), "read")
            if made.fmt == "febus_g1_csv":  # the last number of a text may have lost digits
                got, full = [p.select(distance=(0, -1), samples=True) for p in got or []], [q for q in full]
            for p in got or []:
                ctx.count("patches from truncated files")
                ctx.soft(inside(p, full), "truncated-yields", lambda: f"{made.fmt} {kind}: patch {p.shape} from a truncated file is not in the complete one {[q.shape for q in full]}")
            if path.is_file() and path.stat().st_size == 0 and not fmt:
                only_refused(ctx, path, "empty " + made.fmt)
            scanned = outcome(ctx, path, lambda x: dc.scan(x, **fmt), "scan")
            ctx.count("scans of truncated files with a result" if scanned else "scans of truncated files without one")


@family("P12", "damaged", quick=230, thorough=4000, timeout=60)
def damaged(rng, ctx):
    """Damaged files next to good ones."""
    with files.folder() as folder:
        made = p11.build(rng, ctx, folder)
        top = folder / "dir"
        top.mkdir()
        kinds = []
        names = sorted(x for x in files.MAKERS if x != "XMLBinary")
        for num in range(int(rng.integers(1, 4))):
            sub = top / f"s{num}"
            sub.mkdir()
            if gen.chance(rng, 0.8):
                path, kind = bad.damage(rng, made, sub)
            else:
                path, kind = bad.foreign(rng, sub, "x")
            kinds.append(kind)
            for name, call in (("format", dc.get_format), ("scan", dc.scan), ("read", lambda x: list(dc.read(x)))):
                outcome(ctx, path, call, name)
            outcome(ctx, path, lambda x: list(dc.read(x, file_format=made.fmt, file_version=made.version)), "read with format")
        ctx.note(kinds=kinds)
        ctx.cover(made.fmt, tuple(sorted(k.split(":")[0] for k in kinds)))
        good = [files.make(gen.pick(rng, names), rng, top, stem=gen.pick(rng, ["a", "zz"]) + str(i)) for i in range(int(rng.integers(1, 3)))]
        ctx.note(good=[g.fmt for g in good])

        def keys(attrs):
            out = {}
            for a in attrs:
                if Path(str(a.path)).parent == top:
                    key = (a.file_format, str(a.file_version), str(a.coords["time"].min), str(a.coords["time"].max), Path(str(a.path)).name)
                    out[key] = out.get(key, 0) + 1
            return out

        want = {}
        for g in good:
            want.update(keys(dc.scan(g.path)))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = keys(dc.scan(top))
            ctx.soft(got == want and len(want) > 0, "directory-scan", lambda: f"{kinds}: good files give {want}, listed {got}")
            if gen.chance(rng, 0.4):
                df = dc.spool(top).update(progress=None).get_contents()
                rows = sum(Path(x).parent.name == "dir" or "/" not in x for x in df["path"].astype(str)) if len(df) else 0
                ctx.soft(rows == sum(want.values()), "directory-spool", lambda: f"{kinds}: {rows} rows of good files for {sum(want.values())}\n{df[['path', 'file_format']] if len(df) else df}")
