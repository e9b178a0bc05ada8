"""P21: mapping and concurrent use."""
from __future__ import annotations

import copy
import functools
import multiprocessing
import os
import pickle
import shutil
import subprocess
import sys
import threading
import time
import warnings
import zlib
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
from pathlib import Path

import numpy as np

import dascore as dc
from dascore.io.core import FiberIO
from vf import files, gen, mon, ops
from vf.checks import p11
from vf.core import describe, family

describe(
    "P21",
    "Functions (plain, partial, callable objects, ones which raise for one patch) are mapped over spools (memory, directory, chunked, selected, sorted, sliced, empty) without a client, "
    "with serial, lazy, shuffling, pickling, thread and process clients, and every kind of batch size. A log in each call tells which patch was seen by which call; a monitor requires each patch "
    "exactly once, the results in the order of the spool, batches within their size and the spool as it was. "
    "Several threads released by a barrier then use the same cold patches, coordinates, spools, directories, files, format managers and unit strings while a profiling hook "
    "preempts them at random calls inside the library; each result is compared with that of a sequential run on a cold copy. "
    "New processes do the same with their very first calls. Non-trivial: distinct by (spool, client, size class, function kind) or by the interleaving of threads over library functions seen by the hook.",
    [
        "schedules are sampled: preemption happens at Python function calls inside the library and wherever the interpreter switches threads",
        "functions which use processes can be pickled",
    ],
)

CPUS = os.cpu_count()


def key(patch):
    """Identity of a patch as far as a mapped function can tell."""
    return (patch.dims, patch.shape, zlib.crc32(np.ascontiguousarray(patch.data).tobytes()), str(patch.attrs.tag), tuple(str(patch.get_coord(d).min()) for d in patch.dims) if patch.size else ())


class Boom(Exception):
    pass


class Call:
    """A callable object which logs the patches it saw."""

    def __init__(self, fail=None):
        self.log, self.lock, self.fail, self.inside = [], threading.Lock(), fail, []

    def __call__(self, patch, scale=1, other=None):
        k = key(patch)
        with self.lock:
            self.log.append((k, threading.get_ident()))
        if self.fail is not None and k == self.fail:
            raise Boom(str(k))
        return (k, scale, other)

    def method(self, patch, **kwargs):
        return self(patch, **kwargs)


def top(patch, scale=1, other=None):
    """A function which other processes can import."""
    return (key(patch), scale, other, os.getpid())


class SerialClient:
    def __init__(self):
        self.batches = []

    def map(self, func, iterables, **kwargs):
        for x in iterables:
            self.batches.append(len(x))
            yield func(x)


class ListClient(SerialClient):
    def map(self, func, iterables):
        return list(super().map(func, iterables))


class ShuffledClient(SerialClient):
    """Executes the batches in another order."""

    def __init__(self, seed):
        super().__init__()
        self.rng = np.random.default_rng(seed)

    def map(self, func, iterables):
        todo = list(iterables)
        out = [None] * len(todo)
        for i in self.rng.permutation(len(todo)):
            self.batches.append(len(todo[i]))
            out[i] = func(todo[i])
        return out


class PickleClient(SerialClient):
    """What process pools do with the function and its arguments."""

    def map(self, func, iterables):
        for x in iterables:
            self.batches.append(len(x))
            f, y = pickle.loads(pickle.dumps((func, x)))
            yield pickle.loads(pickle.dumps(f(y)))


def make_patches(rng, n, even=True):
    """Patches which can be told apart, adjacent or not."""
    flip = gen.chance(rng, 0.3)
    dims = ("time", "distance") if flip else ("distance", "time")
    raw = rng.normal(0, 1, (20, 3) if flip else (3, 20))
    step = np.timedelta64(50_000_000, "ns")
    start, out = gen.BASE_TIME, []
    for i in range(n):
        gap = 0 if even else int(gen.pick(rng, [0, 0, 7, 40]))
        start = start + gap * step
        coords = {"distance": np.arange(3) * 10.0, "time": start + np.arange(20) * step}
        attrs = {} if even else {"tag": gen.pick(rng, ["a", "b"])}
        out.append(dc.Patch(data=raw + (i + 1) * 100, coords=coords, dims=dims, attrs=attrs))
        start = start + 20 * step
    return out


def make_spool(rng, folder, sizes=(0, 1, 2, 3, 5, 8, 13, 20)):
    """A spool and a name for its kind."""
    n = int(gen.pick(rng, sizes))
    even = gen.chance(rng, 0.6)
    patches = make_patches(rng, n, even)
    kind = gen.pick(rng, ["memory", "memory", "directory", "file", "generic"])
    if n == 0:
        kind = "memory"
    if kind == "memory":
        spool = dc.spool(patches)
    elif kind == "generic":
        spool = dc.spool([gen.patch(rng)[0] for _ in range(n)])
        return spool, kind
    elif kind == "directory":
        sub = folder / "data"
        sub.mkdir()
        for i, p in enumerate(patches):
            p.io.write(sub / f"{i:03d}.h5", "dasdae")
        spool = dc.spool(sub).update(progress=None)
    else:
        path = folder / "all.h5"
        dc.write(dc.spool(patches), path, "dasdae")
        spool = dc.spool(path)
    for _ in range(int(gen.pick(rng, [0, 0, 1, 1, 2]))):
        if not len(spool):
            break
        what = gen.pick(rng, ["chunk", "overlap", "merge", "select", "sort", "slice", "array", "samples"])
        df = spool.get_contents()
        t1, t2 = df["time_min"].min(), df["time_max"].max()
        if what == "chunk":
            spool = spool.chunk(time=float(gen.pick(rng, [0.3, 0.5, 1, 1.7])), keep_partial=True)
        elif what == "overlap":
            spool = spool.chunk(time=0.6, overlap=0.2, keep_partial=True)
        elif what == "merge":
            spool = spool.chunk(time=...)
        elif what == "select":
            spool = spool.select(time=(t1 + (t2 - t1) * 0.3, gen.pick(rng, [None, t2])))
        elif what == "samples":
            spool = spool.select(distance=(10.0, None))
        elif what == "sort":
            spool = spool.sort(gen.pick(rng, ["time_max", "tag"]))
        elif what == "slice":
            spool = spool[gen.pick(rng, [slice(1, None), slice(None, None, 2), slice(None, -1), slice(None, None, -1)])]
        else:
            spool = spool[np.array(rng.permutation(len(spool))[: max(1, len(spool) // 2)])]
        kind += "+" + what
    return spool, kind


def pick_size(rng, n):
    return gen.pick(rng, [None, None, 1, 2, 3, max(1, n - 1), max(1, n), n + 5, 2.5, np.int64(2)])


@family("P21", "map", quick=200, thorough=5000)
def map_spool(rng, ctx):
    """Each patch exactly once and in order."""
    with files.folder() as folder, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        spool, kind = make_spool(rng, folder)
        patches = list(spool)
        n = len(patches)
        want = [key(p) for p in patches]
        before = mon.fp_any(spool.get_contents())
        state = sorted(vars(spool))
        call = Call(fail=gen.pick(rng, want) if n and gen.chance(rng, 0.12) else None)
        ordinal = None if call.fail is None else want.index(call.fail)
        shape = gen.pick(rng, ["object", "method", "lambda", "partial", "partial_object", "wrapped"])
        scale = int(rng.integers(1, 9))
        kwargs = gen.pick(rng, [{}, {"scale": scale}, {"scale": scale, "other": "x"}, {"other": [1]}])
        func = {
            "object": call,
            "method": call.method,
            "lambda": lambda p, **kw: call(p, **kw),
            "partial": functools.partial(call.method),
            "partial_object": functools.partial(call),
            "wrapped": functools.wraps(call.method)(lambda p, **kw: call(p, **kw)),
        }[shape]
        size = pick_size(rng, n)
        name = gen.pick(rng, ["none", "none", "serial", "list", "shuffled", "threads", "threads", "one thread"])
        progress = gen.pick(rng, [False, False, True])
        ctx.note(kind=kind, n=n, shape=shape, size=size, client=name, progress=progress, kwargs=kwargs, fail=ordinal)
        client, pool = None, None
        if name == "serial":
            client = SerialClient()
        elif name == "list":
            client = ListClient()
        elif name == "shuffled":
            client = ShuffledClient(int(rng.integers(0, 1000)))
        elif name in ("threads", "one thread"):
            client = pool = ThreadPoolExecutor(int(gen.pick(rng, [2, 4, 8])) if name == "threads" else 1)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        error, out = None, None
        try:
            with quiet():
                out = spool.map(func, client=client, size=size, progress=progress, **kwargs)
        except Boom as exc:
            error = exc
        finally:
            sys.setswitchinterval(old)
            if pool is not None:
                pool.shutdown()
        seen = Counter(k for k, _ in call.log)
        if call.fail is not None:
            ctx.check(error is not None, "error-swallowed", lambda: f"{kind} {name}: the error of patch {ordinal} was not raised: {out}")
            ctx.check(max(seen.values()) <= max(Counter(want).values()), "called-more-than-once", lambda: f"{kind} {name}")
        else:
            ctx.check(error is None, "spurious-error", lambda: repr(error))
            ctx.check(seen == Counter(want), "not-exactly-once", lambda: f"{kind} {name} size={size}: calls {len(call.log)} for {n} patches; missing {list((Counter(want) - seen))[:3]}; extra {list((seen - Counter(want)))[:3]}")
            exp = [(k, kwargs.get("scale", 1), kwargs.get("other")) for k in want]
            ctx.check(isinstance(out, list) and out == exp, "wrong-results", lambda: f"{kind} {name} size={size}: order {[exp.index(x) if x in exp else x for x in out][:30]}")
            if client is not None and pool is None:
                ctx.check(sum(client.batches) == len(spool), "wrong-batches", lambda: f"{client.batches} for {len(spool)}")
                limit = np.ceil(size) if size is not None else max(1, np.ceil(len(spool) / CPUS))
                ctx.check(all(0 < b <= limit for b in client.batches), "batch-too-large", lambda: f"{client.batches} for size {size}")
        ctx.soft(mon.fp_any(spool.get_contents()) == before, "spool-changed", kind)
        ctx.soft(sorted(vars(spool)) == state, "spool-marked", lambda: f"{kind} {set(vars(spool)) - set(state)}")
        ctx.count("mapped calls", len(call.log))
        ctx.count("threads seen", len({t for _, t in call.log}))
        ctx.cover("map", kind, name, shape, n, "None" if size is None else size, progress, ordinal is not None)


class quiet:
    """Send the progress bar elsewhere."""

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        self.null = open(os.devnull, "w")
        sys.stdout = sys.stderr = self.null

    def __exit__(self, *args):
        sys.stdout, sys.stderr = self.old
        self.null.close()


@family("P21", "processes", quick=50, thorough=700)
def processes(rng, ctx):
    """Spools and functions in the way processes get them."""
    mapped_elsewhere(rng, ctx, False)


@family("P21", "pools", quick=6, thorough=60, timeout=200, serial=True)
def pools(rng, ctx):
    """Spools and functions sent to processes."""
    mapped_elsewhere(rng, ctx, True)


def mapped_elsewhere(rng, ctx, real):
    with files.folder() as folder, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        spool, kind = make_spool(rng, folder)
        want = [key(p) for p in spool]
        scale = int(rng.integers(1, 9))
        func = gen.pick(rng, [top, functools.partial(top, other=7)])
        size = pick_size(rng, len(want))
        ctx.note(kind=kind, n=len(want), size=size, real=real)
        other = 7 if isinstance(func, functools.partial) else None
        if real:
            with ProcessPoolExecutor(3, mp_context=multiprocessing.get_context("fork")) as client:
                out = spool.map(func, client=client, size=size, progress=False, scale=scale)
            ctx.count("process pools")
            ctx.check(not want or os.getpid() not in {x[-1] for x in out}, "ran-here")
        else:
            client = PickleClient()
            with quiet():
                out = spool.map(func, client=client, size=size, progress=gen.chance(rng, 0.2), scale=scale)
            ctx.check(sum(client.batches) == len(spool), "wrong-batches", lambda: f"{client.batches} for {len(spool)}")
        ctx.check([x[:3] for x in out] == [(k, scale, other) for k in want], "wrong-results", lambda: f"{kind} size={size}: {len(out)} results for {len(want)} patches")
        ctx.cover("processes", kind, real, len(want), size)


@family("P21", "split", quick=110, thorough=3000)
def split(rng, ctx):
    """Splitting keeps each patch once and in order."""
    with files.folder() as folder, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        spool, kind = make_spool(rng, folder)
        n = len(spool)
        how = gen.pick(rng, ["size", "count"])
        k = int(gen.pick(rng, [1, 2, 3, 4, 7, max(1, n), n + 3]))
        ctx.note(kind=kind, n=n, how=how, k=k)
        parts = list(spool.split(**{how: k}))
        got = [key(p) for part in parts for p in part]
        ctx.check(got == [key(p) for p in spool], "split-changes-patches", lambda: f"{kind} {how}={k}: {[len(x) for x in parts]} of {n}")
        lens = [len(x) for x in parts]
        ctx.check(sum(lens) == n and all(lens), "split-lengths", lambda: f"{lens} of {n}")
        if how == "size":
            ctx.check(all(x == k for x in lens[:-1]) and (not lens or lens[-1] <= k), "split-size", lambda: f"{lens} for size {k}")
        else:
            ctx.check(len(lens) <= k, "split-count", lambda: f"{lens} for count {k}")
            ctx.check(len(lens) == n or k < n or n == 0, "split-count-one-each", lambda: f"{lens} for count {k} of {n}")
        a = mon.fp_any(spool.get_contents().drop(columns=["patch"], errors="ignore").reset_index(drop=True))
        import pandas as pd

        if parts:
            b = mon.fp_any(pd.concat([x.get_contents() for x in parts]).drop(columns=["patch"], errors="ignore").reset_index(drop=True))
            ctx.check(a == b, "split-contents", lambda: mon.diff_fp(a, b))
        if gen.chance(rng, 0.5):
            bad = gen.pick(rng, [{}, {"size": 2, "count": 2}, {"size": 0}, {"size": -1}, {"count": 0}, {"count": -3}])
            if n or not bad or len(bad) == 2:
                ctx.raises(lambda: first_few(spool.split(**bad)), "bad-split-accepted", msg=str(bad))
        ctx.cover("split", kind, how, n, k)


def first_few(iterable):
    out = []
    for i, x in enumerate(iterable):
        out.append(x)
        if i > 100:
            raise_forever()
    return out


def raise_forever():
    # not an ordinary refusal, so reported
    raise SystemError("split never ends")


# ------------------------------------------------------------------ threads

REPO = str(Path(dc.__file__).parent)


class Preempt:
    """Profiling hook: preempts threads inside the library, logs the switches."""

    def __init__(self, seed, rate):
        self.rng = np.random.default_rng(seed)
        self.rate, self.log, self.last = rate, [], None
        self.draws = (self.rng.random(100_000) < rate).tolist()
        self.i, self.sleeps = 0, 0

    def __call__(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(REPO):
            return
        self.i += 1
        me = threading.get_ident()
        if me != self.last:
            self.last = me
            if len(self.log) < 4000:
                self.log.append((me, frame.f_code.co_name))
        if self.draws[self.i % 100_000] and self.sleeps < 1500:
            self.sleeps += 1
            time.sleep(1e-5 if self.i % 7 else 1e-3)

    def signature(self):
        names = {}
        text = ";".join(f"{names.setdefault(m, len(names))}:{f}" for m, f in self.log)
        return zlib.crc32(text.encode())


def outcome(func):
    """Result or error, as something which can be compared."""
    try:
        return ("value", print_of(func()))
    except Exception as exc:
        return ("error", type(exc).__name__, str(exc)[:200])


def print_of(obj):
    if isinstance(obj, dc.BaseSpool):
        return ("spool", tuple(print_of(p) for p in obj))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(print_of(x) for x in obj))
    if isinstance(obj, dc.Patch):
        a = obj.attrs.model_dump()
        return ("patch", obj.dims, mon.fp_array(obj.data), mon.fp_cm(obj.coords), tuple(sorted((k, no_ids(repr(v))) for k, v in a.items() if k != "history")), tuple(no_ids(x) for x in obj.attrs.history))
    if hasattr(obj, "get_contents"):
        return mon.fp_any(obj.get_contents())
    return mon.fp_any(obj)


def no_ids(text):
    import re

    return re.sub(r"/t\d+/", "/t/", re.sub(r"0x[0-9a-f]+", "0x", text))


def race(ctx, rng, tasks, expected, what, rate=None, threads=None):
    """Run the tasks from many threads at once; each task is (name, func)."""
    k = threads or int(gen.pick(rng, [2, 3, 4, 8]))
    plans = [[int(i) for i in rng.permutation(len(tasks))[: max(1, int(len(tasks) * gen.pick(rng, [0.5, 1.0])))]] for _ in range(k)]
    if gen.chance(rng, 0.5):  # all do the same at the same time
        plans = [plans[0]] * k
    results = [[] for _ in range(k)]
    barrier = threading.Barrier(k)
    rate = rate if rate is not None else float(gen.pick(rng, [0.0, 0.002, 0.02, 0.1]))
    hook = Preempt(int(rng.integers(0, 2**31)), rate)

    def work(j):
        sys.setprofile(hook)
        try:
            barrier.wait(60)
            for i in plans[j]:
                results[j].append((i, outcome(tasks[i][1])))
        finally:
            sys.setprofile(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(float(gen.pick(rng, [1e-6, 1e-5, 1e-4])))
    filters = list(warnings.filters)
    try:
        ts = [threading.Thread(target=work, args=(j,), daemon=True) for j in range(k)]
        [t.start() for t in ts]
        for t in ts:
            t.join(90)
        ctx.check(not any(t.is_alive() for t in ts), "deadlock", what)
    finally:
        sys.setswitchinterval(old)
        warnings.filters[:] = filters
        getattr(warnings, "_filters_mutated", lambda: None)()
    for j, (plan, got) in enumerate(zip(plans, results)):
        ctx.check(len(got) == len(plan), "thread-died", lambda: f"{what}: {len(got)} of {len(plan)}")
        for i, res in got:
            ctx.soft(res == expected[i], "differs-from-sequential", lambda: f"{what}, thread {j} of {k}, {tasks[i][0]}: {mon.diff_fp(res, expected[i])}")
    ctx.count("thread switches inside the library", len(hook.log))
    ctx.count("concurrent calls", sum(map(len, results)))
    ctx.cover("threads", what, k, hook.signature())


def coord_tasks(p):
    out = []
    for name in sorted(p.coords.coord_map):
        def get(name=name):
            c = p.get_coord(name)
            return (repr(c.min()), repr(c.max()), repr(c.step), mon.fp_array(c.values), c.sorted, c.reverse_sorted, c.evenly_sampled, str(c.units), str(c.dtype), c.shape, repr(c.coord_range()) if len(c) and c.sorted else None)

        out.append((f"coord {name}", get))
        out.append((f"summary {name}", lambda name=name: repr(p.get_coord(name).to_summary())))
        out.append((f"str {name}", lambda name=name: str(p.get_coord(name))))
    return out


def cold(p):
    """An equal patch without anything cached."""
    coords = {}
    for name, dims in p.coords.dim_map.items():
        c = p.get_coord(name)
        new = c.__class__.model_construct(**{k: getattr(c, k) for k in c.__class__.model_fields if hasattr(c, k)})
        coords[name] = (dims, new)
    del coords
    return pickle.loads(pickle.dumps(p))


@family("P21", "patches", quick=110, thorough=2500)
def shared_patches(rng, ctx):
    """One patch used by several threads at once."""
    p, info = gen.patch(rng, sizes=(1, 12))
    todo = []
    for _ in range(6):
        made = ops.random_call(rng, p)
        if made is not None:
            todo.append(made)
    ref, shared = copy.deepcopy(p), pickle.loads(pickle.dumps(p))

    def tasks_for(q):
        out = [(name, lambda name=name, a=a, k=k: ops.call(q, name, a, k)) for name, a, k in todo]
        out += coord_tasks(q)
        out += [
            ("shapes", lambda: repr(sorted(q.coords.coord_shapes.items()))),
            ("attrs", lambda: repr(sorted(q.attrs.model_dump().items(), key=str))),
            ("str", lambda: str(q)),
            ("eq", lambda: q == q.update()),
            ("size", lambda: (q.size, q.shape, q.ndim, repr(q.dtype))),
            ("df", lambda: dc.spool([q]).get_contents().drop(columns=["patch"], errors="ignore")),
        ]
        return out

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        expected = [outcome(f) for _, f in tasks_for(ref)]
        again = [outcome(f) for _, f in tasks_for(copy.deepcopy(p))]
        if again != expected:
            ctx.skip("operation not repeatable")
        ctx.note(ops=[x[0] for x in todo], **{k: v for k, v in info.items() if isinstance(v, (int, str))})
        race(ctx, rng, tasks_for(shared), expected, "patch " + ",".join(sorted({x[0] for x in todo})))


@family("P21", "spools", quick=80, thorough=1500)
def shared_spools(rng, ctx):
    """One spool used by several threads at once."""
    with files.folder() as folder, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        spool, kind = make_spool(rng, folder, (1, 2, 3, 5))
        if not len(spool):
            ctx.skip("empty spool")
        shared, ref = (pickle.loads(pickle.dumps(spool)) for _ in range(2))
        if gen.chance(rng, 0.4) and kind == "directory":
            ref, shared = dc.spool(folder / "data"), dc.spool(folder / "data")
        n = len(ref)
        df = ref.get_contents()
        has_time = "time_min" in df.columns and df["time_min"].notna().all() and df["time_min"].dtype.kind == "M"

        def tasks_for(s):
            out = [(f"item {i}", lambda i=i: s[i]) for i in (0, n // 2, -1)]
            out += [
                ("len", lambda: len(s)),
                ("all", lambda: list(s)),
                ("contents", lambda: s.get_contents().drop(columns=["patch"], errors="ignore")),
                ("slice", lambda: list(s[: n // 2 + 1])),
                ("out of range", lambda: s[n + 3]),
                ("sort", lambda: list(s.sort("tag")) if "tag" in df.columns else 0),
                ("names", lambda: s.get_patch_names()),
                ("map", lambda: s.map(key, progress=False)),
                ("split", lambda: [len(x) for x in s.split(size=2)]),
                ("str", lambda: str(s)),
                ("equal", lambda: s == s),
            ]
            if has_time and kind != "generic":
                t1, t2 = df["time_min"].min(), df["time_max"].max()
                out += [
                    ("select", lambda: list(s.select(time=(t1 + (t2 - t1) / 2, None)))),
                    ("chunk", lambda: list(s.chunk(time=0.4, keep_partial=True))),
                    ("merge", lambda: list(s.chunk(time=...))),
                ]
            return out

        total = len(tasks_for(ref))
        chosen = [int(i) for i in rng.permutation(total)[: int(gen.pick(rng, [2, 4, 6]))]]
        keep = lambda tasks: [tasks[i] for i in chosen]  # noqa: E731
        expected = [outcome(f) for _, f in keep(tasks_for(ref))]
        ctx.note(kind=kind, n=n)
        race(ctx, rng, keep(tasks_for(shared)), expected, "spool " + kind, rate=float(gen.pick(rng, [0, 0.002, 0.01, 0.05])))


# HDF5 files are read by third-party code which doesn't support that several
# threads open and close the same file (PyTables says so, h5py can crash), so
# there each thread has a copy. Others are shared.
def is_hdf5(path):
    path = Path(path)
    if path.is_dir():
        return any(is_hdf5(x) for x in path.iterdir())
    with path.open("rb") as fh:
        return fh.read(4) == b"\x89HDF"


@family("P21", "files", quick=60, thorough=1200)
def shared_files(rng, ctx):
    """The same and other files read by several threads at once."""
    with files.folder() as folder, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mades = []
        for i in range(2):
            (folder / f"s{i}").mkdir()
            mades.append(p11.build(rng, ctx, folder / f"s{i}"))
        ctx.note(formats=[m.fmt for m in mades])
        copies = {}

        def where(m):
            """The path which this thread uses."""
            if not is_hdf5(m.path):
                return m.path
            me = (threading.get_ident(), str(m.path))
            if me not in copies:
                sub = folder / f"t{zlib.crc32(repr(me).encode())}"
                sub.mkdir()
                if m.path.is_dir():
                    shutil.copytree(m.path, sub / m.path.name)
                else:
                    shutil.copyfile(m.path, sub / m.path.name)
                copies[me] = sub / m.path.name
            return copies[me]

        def scan(m):
            out = []
            for x in dc.scan(where(m)):
                d = x.model_dump()
                d.pop("path", None)
                out.append(repr(sorted(d.items(), key=str)))
            return out

        tasks = []
        for m in mades:
            tasks += [
                (f"format {m.fmt}", lambda m=m: dc.get_format(where(m))),
                (f"scan {m.fmt}", lambda m=m: scan(m)),
                (f"read {m.fmt}", lambda m=m: dc.read(where(m))),
                (f"read given {m.fmt}", lambda m=m: dc.read(where(m), file_format=m.fmt, file_version=m.version)),
                (f"spool {m.fmt}", lambda m=m: list(dc.spool(where(m)))),
            ]
        expected = [outcome(f) for _, f in tasks]
        again = [outcome(f) for _, f in tasks]
        if again != expected:
            ctx.skip("not repeatable")
        race(ctx, rng, tasks, expected, "files " + ",".join(sorted(m.fmt for m in mades)), rate=float(gen.pick(rng, [0, 0.002, 0.02])))


@family("P21", "managers", quick=40, thorough=600)
def shared_manager(rng, ctx):
    """Formats looked up while the plugins are still being loaded."""
    FiberIO.manager.load_plugins()
    pairs = [(f, v) for f, vs in FiberIO.manager._format_version.items() for v in vs]
    pairs = [x for x in pairs if x[0] in {n.split("__")[0] for n in FiberIO.manager._eps.index}]
    some = [pairs[int(i)] for i in rng.permutation(len(pairs))[:6]]
    exts = [str(x) for x in rng.permutation(sorted(FiberIO.manager._extension_list))[:3]]
    names = lambda ios: [(x.name, x.version) for x in ios]  # noqa: E731

    def tasks_for(m):
        out = []
        for f, v in some:
            out.append((f"get {f} {v}", lambda f=f, v=v: names([m.get_fiberio(format=f, version=v)])))
            out.append((f"newest {f}", lambda f=f: names([m.get_fiberio(format=f)])))
            out.append((f"versions {f}", lambda f=f: names(m.yield_fiberio(format=f))))
        for e in exts:
            out.append((f"extension {e}", lambda e=e: sorted(names(m.yield_fiberio(extension=e, input_type="file")))))
            out.append((f"extension list {e}", lambda e=e: (m.load_plugins(), sorted(names(m._extension_list[e])))[1]))
        out += [
            ("all", lambda: sorted(names(m.yield_fiberio(input_type="file")))),
            ("directories", lambda: sorted(names(m.yield_fiberio(input_type="directory")))),
            ("unknown", lambda: str(outcome(lambda: m.get_fiberio(format="NOT_A_FORMAT"))[:2])),
            ("known", lambda: (m.load_plugins(), sorted(m.known_formats))[1]),
        ]
        return out

    kind = type(FiberIO.manager)
    entry = FiberIO.manager._entry_point
    expected = [outcome(f) for _, f in tasks_for(kind(entry))]
    manager = kind(entry)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        race(ctx, rng, tasks_for(manager), expected, "manager", rate=float(gen.pick(rng, [0.0, 0.05, 0.3])))


_UNITS = ["m", "s", "km", "Hz", "m/s", "strain", "1/s", "ft", "10 m", "kN", "degC", "rad", "um/m", "m^2", "V", "mV", "Pa", "bar", "h", "ms", "µs", "km/h", "microstrain", "g/cm^3"]


@family("P21", "units", quick=30, thorough=400)
def shared_units(rng, ctx):
    """Unit strings and conversions not seen before."""
    import dascore.units as u

    texts = []
    for _ in range(10):
        a, b = gen.pick(rng, _UNITS), gen.pick(rng, ["m", "s", "Hz", "V"])
        num = round(float(rng.uniform(1, 9)), int(rng.integers(2, 9)))
        texts.append(gen.pick(rng, [f"{num} {a}", f"{num}*{b}", f"{num} {b}/s", f"{num} {b}**{int(rng.integers(1, 5))}"]))
    arr = rng.normal(0, 1, 5)
    jobs = []
    for t in texts:
        jobs += [
            (f"quantity {t}", lambda t=t: repr(u.get_quantity(t))),
            (f"factor {t}", lambda t=t: repr(u.get_factor_and_unit(t))),
            (f"base {t}", lambda t=t: repr(u.get_factor_and_unit(t, simplify=True))),
            (f"text {t}", lambda t=t: repr(u.get_quantity_str(t))),
            (f"convert {t}", lambda t=t: u.convert_units(arr, to_units=u.get_quantity(t).to_base_units().units, from_units=t)),
            (f"same registry {t}", lambda t=t: repr(u.get_quantity(t) * u.get_quantity("3 m"))),
            (f"inverted {t}", lambda t=t: repr(u.invert_quantity(t))),
        ]
    caches = [getattr(u, n) for n in dir(u) if hasattr(getattr(u, n), "cache_clear") and n != "get_registry"]

    def clear():
        for c in caches:
            c.cache_clear()

    clear()
    expected = [outcome(f) for _, f in jobs]
    clear()
    race(ctx, rng, jobs, expected, "units", rate=float(gen.pick(rng, [0.0, 0.01, 0.1])))


_FIRST = r"""
import sys, json, threading, random, time
seed, path, plan, h5 = int(sys.argv[1]), sys.argv[2], json.loads(sys.argv[3]), sys.argv[4]
sys.setswitchinterval(1e-6)
rand = random.Random(seed)
import importlib
dc = importlib.import_module("dascore")
import dascore.units as u
ROOT = dc.__path__[0]
def call(name):
    if name == "read": return float(dc.read(path)[0].data.sum())
    if name == "read given": return float(dc.read(h5, file_format="DASDAE")[0].data.sum())
    if name == "read version": return float(dc.read(h5, file_format="DASDAE", file_version="1")[0].data.sum())
    if name == "format": return list(dc.get_format(path))
    if name == "scan": return len(dc.scan(path))
    if name == "spool": return float(dc.spool(path)[0].data.sum())
    if name == "directory": return len(dc.spool(path.rsplit("/", 1)[0]).update(progress=None))
    if name == "units": return str(u.get_quantity("3 m") * u.get_quantity("2 1/s"))
    if name == "convert": return float(u.convert_units(1.0, to_units="km", from_units="m"))
    if name == "example": return list(dc.get_example_patch("random_das").shape)
    if name == "filter": return float(dc.read(h5, file_format="DASDAE")[0].pass_filter(time=(1, 5), zerophase=False).data.std())
    if name == "unknown": 
        try: return dc.read(path, file_format="NOPE")
        except Exception as e: return type(e).__name__
    if name == "versions":
        from dascore.io.core import FiberIO
        return sorted(x.version for x in FiberIO.manager.yield_fiberio(format="TERRA15"))
    if name == "write":
        import uuid
        return str(dc.get_example_patch("random_das").io.write(path.rsplit("/", 2)[0] + "/out" + uuid.uuid4().hex + ".h5", "dasdae"))[-3:]
results = [[] for _ in plan]
if len(plan) == 1:
    for n in plan[0]: results[0].append(call(n))
else:
    barrier = threading.Barrier(len(plan))
    rate = rand.choice([0.0, 0.003, 0.03])
    def hook(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(ROOT) and rand.random() < rate:
            time.sleep(0.0005)
    def work(j):
        sys.setprofile(hook)
        barrier.wait(60)
        for n in plan[j]:
            try: results[j].append(call(n))
            except BaseException as e: results[j].append("error " + repr(e)[:300])
    ts = [threading.Thread(target=work, args=(j,)) for j in range(len(plan))]
    [t.start() for t in ts]; [t.join() for t in ts]
print("RESULT" + json.dumps(results))
"""
_NAMES = ["read", "read given", "read version", "format", "scan", "spool", "units", "convert", "example", "filter", "unknown", "versions", "write"]


def _child(args):
    env = dict(os.environ, PYTHONPATH=str(Path(dc.__file__).parent.parent), PYTHONWARNINGS="ignore")
    proc = subprocess.run([sys.executable, "-c", _FIRST, *args], capture_output=True, text=True, timeout=150, env=env)
    return proc


@family("P21", "first", quick=14, thorough=260, timeout=200)
def first_use(rng, ctx):
    """The very first calls of a process come from several threads."""
    import json

    with files.folder() as folder:
        (folder / "d").mkdir()
        h5 = folder / "d" / "a.h5"
        make_patches(rng, 1)[0].io.write(h5, "dasdae")
        (folder / "e").mkdir()
        fmt = gen.pick(rng, ["TDMS", "Sintela_Binary", "sentek"])
        path = files.make(fmt, rng, folder / "e").path
        k = int(gen.pick(rng, [3, 6, 8]))
        plan = [[str(x) for x in rng.choice(_NAMES, 3, replace=False)] for _ in range(k)]
        if gen.chance(rng, 0.3):
            plan = [plan[0]] * k
        used = sorted({x for y in plan for x in y})
        import json as _json

        one = _child(["0", str(path), _json.dumps([used]), str(h5)])
        ctx.check("RESULT" in one.stdout, "sequential-run-failed", lambda: one.stderr[-500:])
        want = dict(zip(used, json.loads(one.stdout.split("RESULT")[1])[0]))
        got = _child([str(int(rng.integers(0, 2**31))), str(path), _json.dumps(plan), str(h5)])
        ctx.note(plan=plan)
        ctx.check("RESULT" in got.stdout, "process-died", lambda: f"rc={got.returncode} {got.stderr[-500:]}")
        res = json.loads(got.stdout.split("RESULT")[1])
        for names, values in zip(plan, res):
            for name, value in zip(names, values):
                ctx.soft(value == want[name], "first-use-differs", lambda: f"{name} among {k} threads: {value}, sequential {want[name]}")
        ctx.count("processes whose first calls came from threads")
        ctx.cover("first", *plan[0], k)
