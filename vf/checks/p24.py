"""P24: reading leaves no trace and leaks nothing."""
from __future__ import annotations

import gc
import hashlib
import os
import sys
import traceback
import warnings
from pathlib import Path

import h5py
import tables

import dascore as dc
from dascore.io import FiberIO
from dascore.utils.io import IOResourceManager
from vf import bad, files, gen
from vf.checks import p11
from vf.core import describe, family

describe(
    "P24",
    "Whole, damaged and foreign files of 24 formats go through format detection, scanning, reading (whole, ranges, given formats, by way of spools, each reader by itself), mostly in ways which fail. "
    "Before and after each call, while its result or its error is still held: contents, size, modification time and inode of every file and the list of files of the folder; the process's open "
    "descriptors and memory maps of files in the folder; HDF5 objects left open; audited opens for writing. Handles and resource managers of the caller must stay open, in place and usable. "
    "Non-trivial: distinct by (format, kind of file, call, outcome).",
    [
        "access times and files outside of the folder are not judged",
        "memory maps (and segyio's handle) which an error still refers to are judged once its frames are cleared",
        "directory spools keep an index file in the folder, as documented: its name is excluded when one is updated",
    ],
)

_OPENS = []


def _hook(event, args):
    if event == "open" and _OPENS is not None and _WATCH:
        path, mode, flags = args
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if isinstance(path, str) and path.startswith(_WATCH[0]):
            writing = (isinstance(mode, str) and any(x in mode for x in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if writing:
                _OPENS.append((path, mode, flags))


_WATCH = []
_INSTALLED = []


def watch(folder):
    if not _INSTALLED:
        sys.addaudithook(_hook)
        _INSTALLED.append(True)
    _WATCH[:] = [str(folder)]
    _OPENS.clear()


def state(folder):
    """Everything about the folder which reading must not change."""
    out = {}
    for path in sorted(Path(folder).rglob("*")):
        st = path.stat()
        key = str(path.relative_to(folder))
        out[key] = (st.st_mtime_ns, st.st_size, st.st_ino, st.st_mode, hashlib.sha1(path.read_bytes()).hexdigest() if path.is_file() else "dir")
    return out


def held(folder):
    """Descriptors and maps of files below the folder."""
    base = os.path.realpath(folder)
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if target.startswith(base):
            out.append("fd " + target[len(base):])
    with open("/proc/self/maps") as fh:
        for line in fh:
            if base in line:
                out.append("map " + line.split(base, 1)[1].strip())
    return sorted(out)


def from_segyio(error):
    """Whether segyio raised the error."""
    tb, last = error.__traceback__, ""
    while tb is not None:
        last, tb = tb.tb_frame.f_code.co_filename, tb.tb_next
    return "segyio" in last


def watched(ctx, folder, what, call, allow=()):
    """Run the call and compare the world before and after it."""
    gone = lambda s: {k: v for k, v in s.items() if k not in allow and not any(k.startswith(a) for a in allow)}  # noqa: E731
    before, open_before = state(folder), held(folder)
    tab_before = len(tables.file._open_files.handlers)
    _OPENS.clear()
    result, error = None, None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            result = call()
    except Exception as exc:
        error = exc
    # the result or error (and its frames) is still referenced here
    open_after = held(folder)
    if open_after != open_before and error is not None and (from_segyio(error) or any(x.startswith("map") for x in open_after)):
        # memory maps (and segyio's own handle) go with the error
        traceback.clear_frames(error.__traceback__)
        error.__traceback__ = None
        gc.collect()
        open_after = held(folder)
    ctx.soft(open_after == open_before, "handles-left-open", lambda: f"{what} ({'error ' + repr(error)[:80] if error else 'ok'}): before {open_before}, after {open_after}")
    ctx.soft(len(tables.file._open_files.handlers) == tab_before, "hdf5-left-open", lambda: f"{what}")
    after = state(folder)
    ctx.soft(gone(after) == gone(before), "files-changed", lambda: f"{what}: {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}")
    # whether an index can be kept is found by writing and removing a file
    writes = [x for x in _OPENS if os.path.relpath(x[0], folder) not in (*allow, *(["._dascore_write_test_delete_me"] if allow else []))]
    ctx.soft(not writes, "opened-for-writing", lambda: f"{what}: {writes}")
    ctx.count("calls which raised" if error else "calls which returned")
    return result, error


def all_calls(rng, made, path):
    """Named calls on one file."""
    fmt, ver = made.fmt, made.version
    t = {"time": (None, made.patches[0].coords["time"][0][0])} if "time" in made.patches[0].coords else {}
    out = [
        ("get_format", lambda: dc.get_format(path)),
        ("scan", lambda: dc.scan(str(path))),
        ("scan_to_df", lambda: dc.scan_to_df(path)),
        ("read", lambda: dc.read(path)),
        ("read range", lambda: dc.read(path, **t)),
        ("read empty range", lambda: dc.read(path, distance=(1e9, 2e9), time=("2100-01-01", "2100-01-02"))),
        ("read given format", lambda: dc.read(path, file_format=fmt, file_version=ver)),
        ("scan given format", lambda: dc.scan(path, file_format=fmt, file_version=ver)),
        ("read wrong format", lambda: dc.read(path, file_format=gen.pick(rng, list(files.MAKERS)))),
        ("read unknown version", lambda: dc.read(path, file_format=fmt, file_version="nope")),
        ("read bad range", lambda: dc.read(path, time=gen.pick(rng, [("a", "b"), (1, 2, 3), 7]), distance=gen.pick(rng, [None, "x", (5,)]))),
        ("spool", lambda: dc.spool(path)),
        ("spool patches", lambda: list(dc.spool(path))),
        ("spool chunk", lambda: list(dc.spool(path).chunk(time=None))),
    ]
    FiberIO.manager.load_plugins()
    for versions in FiberIO.manager._format_version.values():
        for fio in versions.values():
            if fio.name.upper() == fmt.upper() or gen.chance(rng, 0.15):
                for name in ("get_format", "scan", "read"):
                    out.append((f"{fio.name} {fio.version} {name}", lambda fio=fio, name=name: getattr(fio, name)(path)))
    return [out[int(i)] for i in rng.permutation(len(out))]


def run_all(rng, ctx, folder, made, path, tag):
    watch(folder)
    for name, call in all_calls(rng, made, path):
        index = (".dascore_index.h5",) if path.is_dir() and "spool" in name else ()
        if index:
            continue
        _, error = watched(ctx, folder, f"{made.fmt} {tag}: {name}", call)
        ctx.cover(made.fmt, tag.split(":")[0], name, type(error).__name__)


@family("P24", "whole", quick=138, thorough=1500, timeout=120)
def whole(rng, ctx):
    with files.folder() as folder:
        made = p11.build(rng, ctx, folder)
        run_all(rng, ctx, folder, made, made.path, "whole")


@family("P24", "failing", quick=184, thorough=2500, timeout=120)
def failing(rng, ctx):
    """Damaged and foreign files."""
    with files.folder() as folder:
        made = p11.build(rng, ctx, folder)
        sub = folder / "bad"
        sub.mkdir()
        if gen.chance(rng, 0.8):
            path, kind = bad.damage(rng, made, sub)
            if kind == "attr:CLASS":
                ctx.skip("PyTables raises while opening these and keeps its descriptor")
        else:
            path, kind = bad.foreign(rng, sub, "x")
        ctx.note(kind=kind)
        run_all(rng, ctx, folder, made, path, kind)


@family("P24", "folders", quick=46, thorough=500, timeout=120)
def folders(rng, ctx):
    """Directories, missing paths and interrupted iterations."""
    with files.folder() as folder:
        mades = [files.make(str(x), rng, folder, stem=f"f{i}") for i, x in enumerate(rng.permutation(list(files.MAKERS))[: int(rng.integers(1, 5))])]
        if gen.chance(rng, 0.7):
            bad.damage(rng, mades[0], folder, stem="bad") if not mades[0].named else bad.foreign(rng, folder, "bad")
        watch(folder)
        ctx.cover(tuple(sorted(m.fmt for m in mades)))
        watched(ctx, folder, "scan directory", lambda: dc.scan(folder))
        watched(ctx, folder, "table of directory", lambda: dc.scan_to_df(folder))
        watched(ctx, folder, "scan one format", lambda: dc.scan(folder, file_format="DASDAE", file_version="1"))
        for name, call in (
            ("missing file", lambda: dc.read(folder / "no" / "file.h5")),
            ("missing file format", lambda: dc.read(folder / "no" / "file.h5", file_format=mades[0].fmt, file_version=mades[0].version)),
            ("missing scan", lambda: dc.scan(folder / "no2" / "file.h5", file_format=mades[0].fmt, file_version=mades[0].version)),
            ("missing reader", lambda: FiberIO.manager.get_fiberio(format=mades[0].fmt).read(folder / "no3" / "file.h5")),
            ("missing get_format", lambda: dc.get_format(folder / "no4" / "file.h5")),
            ("missing spool", lambda: dc.spool(folder / "no5" / "file.h5")),
        ):
            watched(ctx, folder, name, call)
        index = ".dascore_index.h5"
        made_spool, _ = watched(ctx, folder, "index directory", lambda: dc.spool(folder).update(progress=None), allow=(index,))
        if made_spool is not None:
            watched(ctx, folder, "list directory", lambda: made_spool.get_contents(), allow=(index,))
            watched(ctx, folder, "read directory", lambda: list(made_spool), allow=(index,))
            iterator = iter(made_spool)
            watched(ctx, folder, "unfinished iteration", lambda: next(iterator, None), allow=(index,))
            watched(ctx, folder, "select directory", lambda: list(made_spool.select(time=("2000-01-01", "2021-01-01"))), allow=(index,))


@family("P24", "handles", quick=138, thorough=1500, timeout=120)
def handles(rng, ctx):
    """Handles of the caller."""
    with files.folder() as folder:
        made = p11.build(rng, ctx, folder)
        path = made.path
        if path.is_dir():
            return ctx.skip("directory format")
        tag = "whole"
        if gen.chance(rng, 0.4) and made.fmt != "segy":
            sub = folder / "bad"
            sub.mkdir()
            path, tag = bad.damage(rng, made, sub)
            if tag == "attr:CLASS":
                ctx.skip("PyTables raises while opening these and keeps its descriptor")
        watch(folder)
        fio = FiberIO.manager.get_fiberio(format=made.fmt, version=made.version)
        # a manager which several calls share
        with IOResourceManager(path) as man:
            for name, call in (("format", dc.get_format), ("read", dc.read), ("scan", lambda m: fio.scan(m.get_resource(fio.scan._required_type)))):
                before = state(folder)
                try:
                    call(man)
                except Exception:
                    pass
                ctx.soft(state(folder) == before, "files-changed", lambda: f"manager {name}")
                for key, handle in list(man._cache.items()):
                    closed = getattr(handle, "closed", None)
                    ok = (bool(handle) if isinstance(handle, h5py.File) else bool(handle.isopen) if isinstance(handle, tables.File) else not closed)
                    ctx.soft(ok, "manager-handle-closed", lambda: f"{made.fmt} {tag} {name}: {key}")
        ctx.soft(held(folder) == [], "manager-left-open", lambda: f"{made.fmt} {tag}: {held(folder)}")
        ctx.cover(made.fmt, tag.split(":")[0])
        # open handles given to a reader, of the kind which each of its methods takes
        is_h5 = path.stat().st_size > 8 and path.read_bytes()[:8] == b"\x89HDF\r\n\x1a\n"
        if made.fmt == "segy" or (made.path.read_bytes()[:4] == b"\x89HDF" and not is_h5):
            return
        openers = {"h5": lambda: h5py.File(path, "r"), "tables": lambda: tables.open_file(str(path)), "text": lambda: open(path), "binary": lambda: open(path, "rb")}
        opened = {}
        results = []
        try:
            for call in [getattr(fio, x) for x in ("get_format", "scan", "read", "get_format")]:
                need = call._required_type
                if not isinstance(need, type):
                    continue
                kind = ("h5" if need.__name__.startswith("H5") else "tables") if issubclass(need, tables.File) else "text" if need.__name__.startswith("Text") else "binary"
                if kind not in opened:
                    try:
                        opened[kind] = openers[kind]()
                    except Exception:
                        return
                before, open_before = state(folder), held(folder)
                error = None
                try:
                    results.append(call(opened[kind]))
                except Exception as exc:
                    error = exc
                ctx.soft(state(folder) == before, "files-changed", lambda: f"{made.fmt} {tag} handle")
                ctx.soft(held(folder) == open_before, "handle-descriptors", lambda: f"{made.fmt} {tag} {call.__name__} error {error!r}: {open_before} then {held(folder)}")
                for handle in opened.values():
                    ok = bool(handle) if isinstance(handle, h5py.File) else bool(handle.isopen) if isinstance(handle, tables.File) else not handle.closed
                    ctx.soft(ok, "caller-handle-closed", lambda: f"{made.fmt} {tag} {call.__name__}")
                ctx.count("calls with the caller's handle")
                if tag == "whole":
                    ctx.soft(error is None, "handle-unusable", lambda: f"{made.fmt} {call.__name__}: {error!r}")
            if tag == "whole" and len(results) == 4:
                ctx.soft(results[0] == results[3] == (made.fmt, made.version), "handle-format", lambda: f"{results[0]} {results[3]}")
                ctx.soft(len(results[1]) == len(results[2]) == len(made.patches), "handle-patches", lambda: f"{len(results[1])} {len(results[2])} {len(made.patches)}")
        finally:
            for handle in opened.values():
                handle.close()
