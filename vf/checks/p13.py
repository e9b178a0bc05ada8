"""P13: the directory index reflects the directory."""
from __future__ import annotations

import os
import pickle
import resource
import signal
import subprocess
import sys
import time
import warnings
from pathlib import Path

import numpy as np

import dascore as dc
from dascore.io import indexer as indexer_module
from vf import boot, gen
from vf.core import describe, family

describe(
    "P13",
    "A model directory and a real one go through the same random history: files added (one or several patches, nested, long names, old modification times, "
    "moved in, unreadable, empty, truncated, without absolute times), replaced by other contents, rewritten in place, full updates, updates of named paths, "
    "queries, cache hits, spools reopened in the same and in new processes, indices kept elsewhere, removed or corrupted. After each update a monitor compares "
    "the listed rows (path, extent, sampling, dimensions, identity) and the patches loaded with the model as a multiset; each query is compared with a filter "
    "of the model. Updates are interrupted by signals at random moments, by exceptions at every write, by full disks, and files are added at every stage of a "
    "running update; later updates must then be complete. Non-trivial: distinct by (history of operations, kinds of files).",
    [
        "only patches with an absolute time are indexed",
        "removing a file, or replacing it by one without readable patches, needs the index to be removed (documented)",
        "hidden files and directories are not part of the directory's data",
    ],
)

T0 = np.datetime64("2020-01-01T00:00:00", "ns")
COLS = ("path", "time_min", "time_max", "time_step", "dims", "tag", "station", "network", "file_format")


class Model:
    """What the directory holds."""

    def __init__(self, root):
        self.root, self.files, self.count, self.kinds = root, {}, 0, []

    def new_patch(self, rng):
        """A small patch with a unique tag."""
        self.count += 1
        n, m = int(rng.integers(1, 6)), int(rng.integers(1, 3))
        if n == 1 and gen.chance(rng, 0.8):
            n = 4
        step = gen.pick(rng, [np.timedelta64(1, "s"), np.timedelta64(4, "ms"), np.timedelta64(123456789, "ns"), np.timedelta64(1, "h")])
        start = T0 + np.timedelta64(int(rng.integers(-10, 200)), "s") + gen.pick(rng, [np.timedelta64(0, "ns"), np.timedelta64(int(rng.integers(0, 10**9)), "ns")])
        kw = dict(tag=f"p{self.count}" + "x" * int(gen.pick(rng, [0, 0, 0, 40])), station=gen.pick(rng, ["", "a", "bc"]), network=gen.pick(rng, ["", "n1"]))
        if gen.chance(rng, 0.3):
            kw["data_units"] = gen.pick(rng, ["m/s", "strain"])
        dims = gen.pick(rng, [("time", "distance"), ("distance", "time"), ("time", "x")])
        arr = start + np.arange(n) * step
        if gen.chance(rng, 0.15) and n > 2:
            arr = np.concatenate([arr[:-1], arr[-1:] + step])
        coords = {"time": arr, (set(dims) - {"time"}).pop(): np.arange(m) * 2.0}
        shape = tuple(len(coords[d]) for d in dims)
        return dc.Patch(data=rng.normal(size=shape), dims=dims, coords=coords, attrs=kw)

    def stranger(self, rng):
        """A patch which cannot be indexed by time."""
        self.count += 1
        kind = gen.pick(rng, ["none", "float", "int", "delta", "empty"])
        if kind == "none":
            return dc.Patch(data=np.zeros((2, 2)), dims=("x", "y"), coords=dict(x=[1, 2], y=[1, 2]), attrs=dict(tag=f"p{self.count}"))
        t = {"float": np.arange(3.0), "int": np.arange(3), "delta": np.arange(3).astype("m8[s]"), "empty": np.array([], "M8[ns]")}[kind]
        return dc.Patch(data=np.zeros((len(t), 2)), dims=("time", "y"), coords=dict(time=t, y=[1, 2]), attrs=dict(tag=f"p{self.count}"))

    def rows(self, names=None):
        """The expected contents."""
        out = []
        for rel, (fmt, patches) in self.files.items():
            if names is not None and rel not in names:
                continue
            for p in patches:
                c = p.get_coord("time")
                step = c.step if c.evenly_sampled or len(c) > 1 else None
                out.append((rel, c.min(), c.max(), step, ",".join(p.dims), p.attrs.tag, p.attrs.station, p.attrs.network, fmt))
        return sorted(out, key=key_of)


def key_of(row):
    return (row[0], row[5], str(row[1]))


def table(df):
    """The listed contents in the same form."""
    out = []
    times = {k: df[k].to_numpy() for k in ("time_min", "time_max", "time_step")} if len(df) else {}
    for i, r in enumerate(df.to_dict("records")):
        dims = r["dims"] if isinstance(r["dims"], str) else ",".join(r["dims"])
        out.append((str(r["path"]), times["time_min"][i].astype("M8[ns]"), times["time_max"][i].astype("M8[ns]"), times["time_step"][i].astype("m8[ns]"), dims, r["tag"], r["station"],
                    r["network"], r["file_format"]))
    return sorted(out, key=key_of)


def row_problem(got, want):
    """Describe the first difference between two tables."""
    if [g[:1] + g[5:6] for g in got] != [w[:1] + w[5:6] for w in want]:
        a, b = [(g[0][-20:], g[5][:6]) for g in got], [(w[0][-20:], w[5][:6]) for w in want]
        return f"listed {len(a)} of {len(b)}: missing {[x for x in b if x not in a][:5]} unexpected {[x for x in a if x not in b][:5]} repeated {[x for x in set(a) if a.count(x) > 1][:5]}"
    for g, w in zip(got, want):
        for name, x, y in zip(COLS, g, w):
            if name == "time_step" and (y is None or np.isnat(np.timedelta64(y, "ns"))):
                continue
            if x != y:
                return f"{g[0]} {g[5]}: {name} is {x!r}, not {y!r}"
    return None


def write_file(rng, model, rel, patches, fmt):
    """Write patches to a file in one of several ways."""
    path = model.root / rel
    path.parent.mkdir(parents=True, exist_ok=True)
    how = gen.pick(rng, ["direct", "replace", "moved"])
    target = path if how == "direct" else path.with_name(".tmp_" + path.name[-30:])
    for f in {path, target}:
        if f.exists():
            os.remove(f)
    dc.write(dc.spool(list(patches)) if len(patches) != 1 else patches[0], target, fmt)
    if gen.chance(rng, 0.3):  # a file which is older than the index
        old = float(rng.integers(10**8, 16 * 10**8))
        os.utime(target, (old, old))
        how += "-old"
    if target != path:
        os.replace(target, path)
    return how


def add(rng, model, name=None):
    """Add or replace one file; returns its kind."""
    rel = name
    if rel is None:
        model.count += 1
        base = f"f{model.count}" + gen.pick(rng, ["", ".h5", ".hdf5", "_" + "n" * 100 + ".h5"])
        sub = gen.pick(rng, ["", "", "", "sub/", "sub/deep/", "a b/", "d" * 60 + "/"])
        rel = sub + base
    kind = gen.pick(rng, ["one", "one", "one", "many", "pickle", "mixed"] + ([] if name else ["stranger", "garbage", "empty", "truncated", "text"]))
    path = model.root / rel
    path.parent.mkdir(parents=True, exist_ok=True)
    if kind in ("one", "many", "pickle", "mixed"):
        patches = [model.new_patch(rng) for _ in range(1 if kind == "one" else int(rng.integers(1, 4)))]
        extra = [model.stranger(rng)] if kind == "mixed" else []
        fmt = "PICKLE" if kind == "pickle" else "DASDAE"
        how = write_file(rng, model, rel, patches + extra, fmt)
        model.files[rel] = (fmt, patches)
        kind += "-" + how
    elif kind == "stranger":
        write_file(rng, model, rel, [model.stranger(rng)], "DASDAE")
    elif kind == "truncated":
        write_file(rng, model, rel, [model.new_patch(rng)], "DASDAE")
        data = path.read_bytes()
        path.write_bytes(data[: int(rng.integers(1, len(data) // 2))])
    else:
        path.write_bytes({"garbage": rng.bytes(500), "empty": b"", "text": b"hello\nworld,1,2\n"}[kind])
    model.kinds.append(kind)
    return kind


def forget_map():
    """What a new process would not know."""
    indexer_module.DirectoryIndexer.index_map_path = Path(os.environ["TMPDIR"]) / f"map_{os.getpid()}" / "cache_paths.json"
    indexer_module._get_index_map.cache_clear()


def open_spool(model, index_path=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if index_path is not None:
            return type(dc.spool(model.root))(model.root, index_path=index_path)
        return dc.spool(model.root)


def update(sp):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sp.update(progress=None)


def check_full(ctx, model, sp, what, load=False):
    """A fully updated spool agrees with the model."""
    want = model.rows()
    df = sp.indexer.get_contents()
    problem = row_problem(table(df), want)
    ctx.check(problem is None, "contents", lambda: f"{what}: {problem}")
    ctx.check(len(sp) == len(want), "length", lambda: f"{what}: spool has {len(sp)}, not {len(want)}")
    tags = sorted(sp.get_contents()["tag"]) if want else []
    ctx.check(tags == sorted(w[5] for w in want), "spool-contents", lambda: f"{what}: {tags}")
    ctx.count("rows", len(want))
    if load and want:
        by_tag = {p.attrs.tag: p for _, ps in model.files.values() for p in ps}
        seen = []
        for p in sp:
            q = by_tag.get(p.attrs.tag)
            ctx.check(q is not None and p.shape == q.shape and np.array_equal(p.data, q.data) and p.dims == q.dims, "patch", lambda: f"{what}: {p.attrs.tag}: {p.shape} {None if q is None else q.shape}")
            seen.append(p.attrs.tag)
        ctx.check(sorted(seen) == tags, "patches", lambda: f"{what}: yields {sorted(seen)} of {tags}")
        ctx.count("patches loaded", len(seen))


def random_time(rng, model):
    """A time range, with limits at, near, or far from those of the patches."""
    def one():
        rows = model.rows()
        if not rows or gen.chance(rng, 0.2):
            return T0 + np.timedelta64(int(rng.integers(-100, 400)), "s")
        r = gen.pick(rng, rows)
        return r[int(rng.integers(1, 3))] + np.timedelta64(int(gen.pick(rng, [0, 0, 1, -1, 10**6, -(10**6), 5 * 10**8, 3 * 10**9])), "ns")

    a, b = sorted([one(), one()])
    kind = gen.pick(rng, ["both", "both", "lo", "hi", "none"])
    return (None if kind in ("hi", "none") else a, None if kind in ("lo", "none") else b)


def check_query(rng, ctx, model, sp, snapshot, what):
    """Querying the index equals filtering the contents."""
    kw, lo, hi = {}, None, None
    want = snapshot
    if gen.chance(rng, 0.7):
        lo, hi = random_time(rng, model)
        kw["time"] = gen.pick(rng, [(lo, hi), (None if lo is None else str(lo), None if hi is None else str(hi))])
        want = [w for w in want if (lo is None or w[2] >= lo) and (hi is None or w[1] <= hi)]
    for col, name in ((6, "station"), (7, "network"), (5, "tag"), (8, "file_format")):
        if gen.chance(rng, 0.2):
            values = sorted({w[col] for w in snapshot}) or ["a"]
            v = gen.pick(rng, values)
            if gen.chance(rng, 0.3) and v:
                kw[name] = v[:1] + "*"
                want = [w for w in want if w[col].startswith(v[:1])]
            elif gen.chance(rng, 0.3):
                pick = [v, gen.pick(rng, values)]
                kw[name] = pick
                want = [w for w in want if w[col] in pick]
            else:
                kw[name] = v
                want = [w for w in want if w[col] == v]
    df = sp.indexer.get_contents(**kw)
    problem = row_problem(table(df), want)
    ctx.check(problem is None, "query", lambda: f"{what} {kw}: {problem}")
    if gen.chance(rng, 0.4):
        kw.pop("file_format", None) if "file_format" in kw else None
        sub = type(sp)(sp.indexer).select(**kw)
        got = sorted(sub.get_contents()["tag"]) if len(sub) else []
        if "file_format" not in kw and want is not None and not any(k == "file_format" for k in kw):
            # some conditions may have been removed
            base = snapshot
            names = {"station": 6, "network": 7, "tag": 5}
            if "time" in kw:
                base = [w for w in base if (lo is None or w[2] >= lo) and (hi is None or w[1] <= hi)]
            for k, v in kw.items():
                if k in names:
                    base = [w for w in base if (w[names[k]] in v if isinstance(v, list) else w[names[k]].startswith(v[:-1]) if v.endswith("*") else w[names[k]] == v)]
            ctx.check(got == sorted(w[5] for w in base), "select", lambda: f"{what} {kw}: {got} want {sorted(w[5] for w in base)}")
    ctx.count("queries")
    ctx.cover("query", tuple(sorted(kw)), len(want) > 0, len(want) < len(snapshot))


CHILD = """
import sys, pickle, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, {verif!r})
from vf import boot
boot.activate()
import dascore as dc
sp = dc.spool({root!r})
if {update}:
    sp = sp.update(progress=None)
df = sp.indexer.get_contents()
from vf.checks import p13
sys.stdout.buffer.write(b"@@" + pickle.dumps(p13.table(df)))
"""


def in_new_process(root, do_update):
    """The contents as seen by another process."""
    code = CHILD.format(verif=str(boot.VERIF), root=str(root), update=do_update)
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, timeout=120)
    if b"@@" not in r.stdout:
        raise RuntimeError(r.stderr.decode()[-800:])
    return pickle.loads(r.stdout.split(b"@@", 1)[1])


@family("P13", "history", quick=160, thorough=2000, timeout=300)
def history(rng, ctx):
    """A random history of one directory."""
    with boot.scratch_dir() as root, boot.scratch_dir() as other:
        model = Model(root)
        index = other / gen.pick(rng, ["idx.h5", "sub/idx.h5"]) if gen.chance(rng, 0.15) else None
        forget_map()
        for _ in range(int(rng.integers(0, 3))):
            add(rng, model)
        sp = open_spool(model, index)
        snapshot, hist = None, []
        for _ in range(int(rng.integers(3, 9))):
            op = gen.pick(rng, ["add", "add", "replace", "update", "update", "paths", "query", "query", "reopen", "reopen-update", "drop-index", "remove", "append", "copy-tree"])
            hist.append(op)
            what = f"{'>'.join(hist)} [{' '.join(model.kinds[-6:])}]"
            ctx.note(history=what)
            if op == "add":
                for _ in range(int(rng.integers(1, 3))):
                    add(rng, model)
            elif op == "replace" and model.files:
                for rel in [gen.pick(rng, sorted(model.files))]:
                    add(rng, model, rel)
            elif op == "append" and model.files:
                rel = gen.pick(rng, sorted(model.files))
                fmt, ps = model.files[rel]
                if fmt == "DASDAE":
                    new = model.new_patch(rng)
                    dc.write(new, root / rel, "dasdae")
                    model.files[rel] = (fmt, [*ps, new])
            elif op == "copy-tree" and model.files:  # a directory prepared elsewhere
                model.count += 1
                name = f"tree{model.count}"
                stage = Model(other / name)
                stage.root.mkdir()
                stage.count = model.count * 1000
                for _ in range(2):
                    add(rng, stage)
                os.rename(stage.root, root / name)
                model.files.update({f"{name}/{k}": v for k, v in stage.files.items()})
            elif op == "update":
                sp = update(sp)
                snapshot = model.rows()
                check_full(ctx, model, sp, what, load=gen.chance(rng, 0.2))
            elif op == "paths" and model.files:
                names = [str(x) for x in rng.choice(sorted(model.files), size=int(rng.integers(1, min(3, len(model.files)) + 1)), replace=False)]
                before = sp.indexer.get_contents()
                snapshot = model.rows() if snapshot is None and not hist[:-1] else table(before)
                use = [str(root / x) if gen.chance(rng, 0.3) else x for x in names]
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    sp.indexer.update(paths=use if len(use) > 1 or gen.chance(rng, 0.5) else use[0], progress=None)
                got = table(sp.indexer.get_contents())
                rest = [r for r in got if r[0] not in names]
                problem = row_problem([r for r in got if r[0] in names], model.rows(names)) or row_problem(rest, [r for r in snapshot if r[0] not in names])
                ctx.check(problem is None, "paths", lambda: f"{what} {names}: {problem}")
                snapshot = got
            elif op == "query":
                if snapshot is None:
                    snapshot = table(sp.indexer.get_contents())
                elif not snapshot and not sp.indexer.index_path.exists():
                    snapshot = model.rows()  # queries create missing indices
                for _ in range(int(rng.integers(1, 4))):
                    check_query(rng, ctx, model, sp, snapshot, what)
            elif op == "reopen":
                if snapshot is not None and (snapshot or sp.indexer.index_path.exists()):
                    if gen.chance(rng, 0.5):
                        forget_map()
                    again = open_spool(model) if gen.chance(rng, 0.7) else pickle.loads(pickle.dumps(sp))
                    problem = row_problem(table(again.indexer.get_contents()), snapshot) if snapshot else None
                    ctx.check(problem is None, "reopen", lambda: f"{what}: {problem}")
                    sp = again
            elif op == "reopen-update":
                if gen.chance(rng, 0.5):
                    forget_map()
                sp = update(open_spool(model))
                snapshot = model.rows()
                check_full(ctx, model, sp, what)
            elif op == "drop-index":
                if sp.indexer.index_path.exists():
                    how = gen.pick(rng, ["remove", "empty", "garbage", "truncate"])
                    data = sp.indexer.index_path.read_bytes()
                    os.remove(sp.indexer.index_path)
                    if how != "remove":
                        sp.indexer.index_path.write_bytes({"empty": b"", "garbage": b"nonsense" * 50, "truncate": data[: len(data) // 3]}[how])
                    hist[-1] += "-" + how
                    sp = update(open_spool(model, index))
                    snapshot = model.rows()
                    check_full(ctx, model, sp, "after " + what)
            elif op == "remove" and model.files:
                rel = gen.pick(rng, sorted(model.files))
                os.remove(root / rel)
                del model.files[rel]
                if sp.indexer.index_path.exists():
                    os.remove(sp.indexer.index_path)
                sp = update(open_spool(model, index))
                snapshot = model.rows()
                check_full(ctx, model, sp, what)
        sp = update(sp)
        snapshot = model.rows()
        what = f"end of {'>'.join(hist)} [{' '.join(model.kinds)}]"
        check_full(ctx, model, sp, what, load=gen.chance(rng, 0.3))
        check_query(rng, ctx, model, sp, snapshot, what)
        folder = sp.indexer.index_path.parent
        left = [p.name for p in (folder.iterdir() if folder.exists() else ()) if p.name.startswith((sp.indexer.index_path.name, ".dascore", "._dascore")) and p != sp.indexer.index_path and p.name != ".dascore_index.h5"]
        ctx.check(not left, "leftovers", lambda: f"{what}: {left}")
        ctx.cover("history", *[h.split("-")[0] for h in hist])
        ctx.cover("kinds", *sorted(set(model.kinds)))


@family("P13", "query", quick=40, thorough=500, timeout=300)
def query(rng, ctx):
    """Many queries of one larger directory by one indexer, so that its cache is used."""
    with boot.scratch_dir() as root:
        model = Model(root)
        forget_map()
        for _ in range(int(rng.integers(2, 9))):
            add(rng, model)
        sp = update(open_spool(model))
        rows = model.rows()
        check_full(ctx, model, sp, "new directory")
        for _ in range(12):
            check_query(rng, ctx, model, sp, rows, "repeated query")
        add(rng, model)
        sp2 = update(sp)
        check_query(rng, ctx, model, sp2, model.rows(), "query after update")
        check_full(ctx, model, sp2, "after update")


@family("P13", "processes", quick=6, thorough=60, timeout=300)
def processes(rng, ctx):
    """Updates by several processes, one after another."""
    with boot.scratch_dir() as root:
        model = Model(root)
        for _ in range(3):
            add(rng, model)
        first = gen.chance(rng, 0.5)
        got = in_new_process(root, first)
        problem = row_problem(got, model.rows())
        ctx.check(problem is None, "new-process", lambda: f"first process: {problem}")
        add(rng, model)
        if model.files:
            add(rng, model, gen.pick(rng, sorted(model.files)))
        sp = update(open_spool(model))
        check_full(ctx, model, sp, "this process")
        add(rng, model)
        got = in_new_process(root, True)
        problem = row_problem(got, model.rows())
        ctx.check(problem is None, "new-process", lambda: f"third process: {problem}")
        # a spool opened before sees the update, too
        problem = row_problem(table(open_spool(model).indexer.get_contents()), model.rows())
        ctx.check(problem is None, "other-process-update", lambda: f"{problem}")
        ctx.cover("processes", first, *model.kinds)


def in_fork(func):
    """Run in a forked child which never returns; gives its exit status."""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            code = func() or 0
        except BaseException:
            code = 77
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return status


@family("P13", "interrupted", quick=160, thorough=2500, timeout=300)
def interrupted(rng, ctx):
    """An update which dies at any moment."""
    with boot.scratch_dir() as root:
        model = Model(root)
        forget_map()
        for _ in range(int(rng.integers(1, 4))):
            add(rng, model)
        before = None
        if gen.chance(rng, 0.75):
            check_full(ctx, model, update(open_spool(model)), "before")
            before = model.rows()
            for _ in range(int(rng.integers(1, 3))):
                add(rng, model)
            if model.files and gen.chance(rng, 0.6):
                add(rng, model, gen.pick(rng, sorted(model.files)))
        how = gen.pick(rng, ["kill", "kill", "exception", "disk"])
        when = float(rng.uniform(0.001, 0.06))
        fired = []

        def child():
            sp = open_spool(model)
            if how == "kill":
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, when)
            elif how == "exception":
                def stop(*_):
                    fired.append(1)
                    raise KeyboardInterrupt
                signal.signal(signal.SIGALRM, stop)
                signal.setitimer(signal.ITIMER_REAL, when)
            else:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                size = int(rng.integers(1, 100)) * 1000
                resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
            try:
                update(sp)
            except BaseException:
                signal.setitimer(signal.ITIMER_REAL, 0)
                return 5
            signal.setitimer(signal.ITIMER_REAL, 0)
            return 6 if fired else 0

        status = in_fork(child)
        end = "killed" if os.WIFSIGNALED(status) else {0: "completed", 5: "raised", 6: "swallowed"}.get(os.WEXITSTATUS(status), "other")
        ctx.count(f"{how} {end}")
        if end == "swallowed":  # other libraries' C code turned the interrupt into a read error
            ctx.skip("interrupt swallowed")
        what = f"{how} after {when * 1000:.1f} ms ({end}), index {'existed' if before is not None else 'new'} [{' '.join(model.kinds)}]"
        ctx.note(what=what)
        forget_map()
        # the index is usable at once, and shows the contents of before or after
        index = root / ".dascore_index.h5"
        sp = open_spool(model)
        if before and index.exists():
            got = table(sp.indexer.get_contents())
            ctx.check(row_problem(got, before) is None or row_problem(got, model.rows()) is None, "usable", lambda: f"{what}: {row_problem(got, before)} / {row_problem(got, model.rows())}")
        if gen.chance(rng, 0.3):
            add(rng, model)
        sp = update(sp)
        check_full(ctx, model, sp, f"update after {what}", load=gen.chance(rng, 0.2))
        check_query(rng, ctx, model, sp, model.rows(), what)
        ctx.cover("interrupted", how, end, before is not None, round(when * 500))


STAGES = ("dascore.io.core:scan_to_df", "dascore.io.core:scan", "dascore.io.indexer:HDFPatchIndexManager.write_update", "pandas:HDFStore.append", "pandas:HDFStore.put", "os:replace", "pandas:HDFStore.close",
          "pandas:HDFStore.remove", "dascore.io.core:FiberIO.scan")


@family("P13", "failed", quick=120, thorough=1200, timeout=300)
def failed(rng, ctx):
    """An update in which one step raises, in this process."""
    with boot.scratch_dir() as root:
        model = Model(root)
        forget_map()
        for _ in range(int(rng.integers(1, 4))):
            add(rng, model)
        sp = open_spool(model)
        existed = gen.chance(rng, 0.6)
        if existed:
            sp = update(sp)
            add(rng, model)
            if model.files:
                add(rng, model, gen.pick(rng, sorted(model.files)))
        stage = gen.pick(rng, STAGES)
        exc = gen.pick(rng, [OSError("no space left on device"), KeyboardInterrupt(), MemoryError()])
        nth = int(rng.integers(0, 3))
        after = gen.chance(rng, 0.4) or stage.endswith("close")
        import importlib

        module, attr = stage.split(":")
        owner = importlib.import_module(module)
        *parents, last = attr.split(".")
        for x in parents:
            owner = getattr(owner, x, None)
        orig = getattr(owner, last, None)
        if orig is None:
            ctx.skip("no such stage")
        owners = [owner] + ([dc] if getattr(dc, last, None) is orig else [])
        calls = [0]

        def broken(*args, **kwargs):
            calls[0] += 1
            if calls[0] - 1 != nth:
                return orig(*args, **kwargs)
            if after:
                orig(*args, **kwargs)
            raise exc

        for o in owners:
            setattr(o, last, broken)
        end = "completed"
        try:
            update(sp)
        except BaseException as e:
            end = "raised"
            if e is not exc:
                end = type(e).__name__
        finally:
            for o in owners:
                setattr(o, last, orig)
        what = f"{stage} call {nth} raised {type(exc).__name__} {'after' if after else 'before'} its work; update {end} [{' '.join(model.kinds)}]"
        ctx.note(what=what)
        ctx.count(f"failed update {end}")
        if gen.chance(rng, 0.5):
            forget_map()
            sp = open_spool(model)
        if gen.chance(rng, 0.3):
            add(rng, model)
        sp = update(sp)
        check_full(ctx, model, sp, f"update after {what}", load=gen.chance(rng, 0.2))
        ctx.cover("failed", stage, nth, after, type(exc).__name__, end, existed)


@family("P13", "during", quick=80, thorough=800, timeout=300)
def during(rng, ctx):
    """Files which appear or change while an update is running are found by it or by the next."""
    with boot.scratch_dir() as root:
        model = Model(root)
        forget_map()
        for _ in range(int(rng.integers(1, 3))):
            add(rng, model)
        sp = open_spool(model)
        if gen.chance(rng, 0.6):
            sp = update(sp)
            add(rng, model)
        stage = gen.pick(rng, STAGES)
        nth = int(rng.integers(0, 2))
        after = gen.chance(rng, 0.5)
        import importlib

        module, attr = stage.split(":")
        owner = importlib.import_module(module)
        *parents, last = attr.split(".")
        for x in parents:
            owner = getattr(owner, x, None)
        orig = getattr(owner, last, None)
        if orig is None:
            ctx.skip("no such stage")
        owners = [owner] + ([dc] if getattr(dc, last, None) is orig else [])
        calls, busy = [0], [False]

        def act():
            busy[0] = True
            try:
                if model.files and gen.chance(rng, 0.3):
                    add(rng, model, gen.pick(rng, sorted(model.files)))
                else:
                    add(rng, model)
            finally:
                busy[0] = False

        def hooked(*args, **kwargs):
            if busy[0]:
                return orig(*args, **kwargs)
            calls[0] += 1
            mine = calls[0] - 1 == nth
            if mine and not after:
                act()
            out = orig(*args, **kwargs)
            if mine and after:
                act()
            return out

        for o in owners:
            setattr(o, last, hooked)
        try:
            update(sp)
        finally:
            for o in owners:
                setattr(o, last, orig)
        what = f"file written {'after' if after else 'before'} {stage} call {nth} ({calls[0]} calls) [{' '.join(model.kinds)}]"
        ctx.note(what=what)
        if gen.chance(rng, 0.5):
            forget_map()
            sp = open_spool(model)
        sp = update(sp)
        check_full(ctx, model, sp, what, load=gen.chance(rng, 0.2))
        ctx.cover("during", stage, nth, after, calls[0] > nth)
        ctx.count("written while updating", calls[0] > nth)


@family("P13", "elsewhere", quick=30, thorough=300, timeout=300)
def elsewhere(rng, ctx):
    """Several directories whose indices are kept elsewhere."""
    with boot.scratch_dir() as top, boot.scratch_dir() as store:
        forget_map()
        models, spools = [], []
        for k in range(3):
            root = top / f"dir{k}"
            root.mkdir()
            model = Model(root)
            model.count = 100 * k
            for _ in range(int(rng.integers(1, 3))):
                add(rng, model)
            models.append(model)
            spools.append(update(open_spool(model, store / f"index_{k}.h5")))
        for _ in range(5):
            k = int(rng.integers(0, 3))
            op = gen.pick(rng, ["add", "reopen", "forget", "query"])
            if op == "add":
                add(rng, models[k])
                spools[k] = update(spools[k])
            elif op == "reopen":
                spools[k] = update(open_spool(models[k], store / f"index_{k}.h5" if gen.chance(rng, 0.3) else None))
                ctx.check(str(spools[k].indexer.index_path) == str(store / f"index_{k}.h5"), "index-map", lambda: f"{spools[k].indexer.index_path}")
            elif op == "forget":
                forget_map()
            for m, s in zip(models, spools):
                check_full(ctx, m, s, f"indices elsewhere, {op}")
                ctx.check(not (m.root / ".dascore_index.h5").exists(), "index-place", "an index was created in the data directory")
        ctx.cover("elsewhere", *[len(m.rows()) for m in models])
