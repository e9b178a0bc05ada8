"""P08: chunking and merging conserve samples."""
from __future__ import annotations

import warnings

import numpy as np

import dascore as dc
from vf import boot, gen, mon
from vf.core import describe, family

describe(
    "P08",
    "Source patches are cut out of long labelled streams whose every sample carries a unique number (stream, index, channel): adjacent, gapped, "
    "overlapping, nested, duplicated and shuffled pieces of one or several streams (differing by tag, station, sampling or dimension order), with "
    "times, durations, floats and integers as labels. A conservation monitor follows each sample through merge/chunk (any length, overlap, partial "
    "policy; memory, file and directory backed; after select, sort and re-chunk): per stream and contiguous run the output must hold exactly the "
    "expected index ranges, in order, with original labels, values and attached coordinates. concatenate and stack are compared to NumPy. "
    "Non-trivial: distinct by (label type, piece layout, streams, request, backing).",
    ["labels lie on one grid per stream; sub-sample jitter only where the tolerance is tested", "overlapping pieces of a stream agree on the shared samples"],
)


class Stream:
    """An endless signal on one grid."""

    def __init__(self, rng, num, dim, kind, step, start, attrs, others, dims, n_ch, aux):
        self.num, self.dim, self.kind, self.step, self.start = num, dim, kind, step, start
        self.attrs, self.others, self.dims, self.n_ch, self.aux = attrs, others, dims, n_ch, aux

    def labels(self, idx):
        idx = np.asarray(idx)
        if self.kind in ("time", "delta"):
            return self.start + idx.astype(np.int64) * self.step
        return self.start + idx * self.step

    def data(self, idx):
        ch = np.arange(self.n_ch)
        out = self.num * 1e7 + np.asarray(idx)[:, None] * 100.0 + ch[None, :]
        return out if self.dims[0] == self.dim else out.T

    def auxval(self, idx):
        return np.asarray(idx) * 7.0 + self.num

    def piece(self, a, b, attrs=None):
        """Patch of the samples a..b inclusive."""
        idx = np.arange(a, b + 1)
        coords = {self.dim: dc.get_coord(data=self.labels(idx), units="s" if self.kind in ("time", "delta") else "m", step=self.step)
                  if len(idx) > 1 else self.one(idx)}
        coords["other"] = self.others
        if self.aux:
            coords["aux"] = ((self.dim,), dc.get_coord(data=self.auxval(idx), units="km"))
            coords["other_aux"] = (("other",), self.others * 2)
            coords["aux2"] = (tuple(self.dims), self.data(idx) * 2)
        at = dict(self.attrs)
        at.update(attrs or {})
        return dc.Patch(data=self.data(idx), coords=coords, dims=self.dims, attrs=at)

    def one(self, idx):
        start = self.labels(idx)[0]
        return dc.get_coord(start=start, stop=start + self.step, step=self.step, units="s" if self.kind in ("time", "delta") else "m")


def make_streams(rng, n=None, kinds=("time", "time", "time", "delta", "float", "int"), aux=None):
    kind = gen.pick(rng, kinds)
    dim = "time" if kind in ("time", "delta") or gen.chance(rng, 0.5) else "distance"
    n = n or gen.pick(rng, [1, 1, 2, 3])
    aux = gen.chance(rng, 0.35) if aux is None else aux
    out = []
    base = None
    for num in range(n):
        if base is None or gen.chance(rng, 0.3):
            if kind in ("time", "delta"):
                step = np.timedelta64(int(gen.pick(rng, [10**9, 10**7, 4 * 10**6, 333_333_333, 1000, 3, 5 * 10**8])), "ns")
                start = gen.BASE_TIME + np.timedelta64(int(rng.integers(0, 10**12)), "ns") if kind == "time" else np.timedelta64(int(rng.integers(-10**10, 10**10)), "ns")
            elif kind == "int":
                step, start = int(gen.pick(rng, [1, 2, 5])), int(rng.integers(-100, 100))
            else:
                step, start = float(gen.pick(rng, [1.0, 0.1, 0.25, 3.7, 1e-3, 12.5, 1 / 3])), float(gen.pick(rng, [0.0, 10.0, -5.0, 0.3, 1e4]))
            base = (step, start)
        step, start = base
        at = dict(tag=f"t{num}" if gen.chance(rng, 0.5) else "t", station="s", network="n", data_type="", gauge_length=float(num))
        if at["tag"] == "t":
            at["station"] = f"s{num}"
        if gen.chance(rng, 0.3):
            at["history"] = ("one(a=1)",)
        if gen.chance(rng, 0.5):
            at["data_units"] = "m/s"
        dims = (dim, "other") if gen.chance(rng, 0.5) else ("other", dim)
        n_ch = int(rng.integers(1, 4))
        out.append(Stream(rng, num, dim, kind, step, start, at, np.arange(n_ch) * 2.0 + num, dims, n_ch, aux))
    return out


def make_pieces(rng, layouts=("adjacent", "gap", "overlap", "nested", "dup", "mixed")):
    """Index intervals of one stream and the name of their layout."""
    lay = gen.pick(rng, layouts)
    n = int(rng.integers(1, 7))
    out, pos = [], int(rng.integers(0, 50))
    for _ in range(n):
        length = int(gen.pick(rng, [1, 2, 3, 5, 8, 13, 20]))
        how = lay if lay != "mixed" else gen.pick(rng, ["adjacent", "gap", "overlap", "nested", "dup"])
        if not out or how == "adjacent":
            a = pos
        elif how == "gap":
            a = pos + (int(rng.integers(1, 9)) if gen.chance(rng, 0.6) else 0)
        elif how == "overlap":
            a = max(out[0][0], pos - int(rng.integers(1, 6)))
        elif how == "nested":
            if gen.chance(rng, 0.5):
                ref = gen.pick(rng, out)
                a = int(rng.integers(ref[0], ref[1] + 1))
                length = int(rng.integers(1, ref[1] - a + 2))
            else:
                a = pos
        else:
            if gen.chance(rng, 0.4):
                ref = gen.pick(rng, out)
                a, length = ref[0], ref[1] - ref[0] + 1
            else:
                a = pos
        out.append((a, a + length - 1))
        pos = max(b for _, b in out) + 1
    return out, lay


def runs(pieces):
    """Contiguous runs covered by index intervals."""
    out = []
    for a, b in sorted(pieces):
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


def intervals(run, length, overlap, partial):
    """Documented segments of a run, in samples."""
    a, b = run
    hop = length - overlap
    out = []
    s = a
    while s <= b:
        e = s + length - 1
        if e <= b:
            out.append((s, e))
        elif partial and (s < b or s == a):
            # a leftover of one sample is not kept as a segment of its own
            out.append((s, b))
        s += hop
    return out


def fits(ctx, stream, patch, a, b, what, aux=True, labels=True):
    """The patch is exactly samples a..b of the stream."""
    dim = stream.dim
    idx = np.arange(a, b + 1)
    ctx.check(patch.dims == stream.dims, "dims", lambda: f"{what}: {patch.dims}")
    axis = patch.dims.index(dim)
    ctx.check(patch.shape[axis] == len(idx), "length", lambda: f"{what}: {patch.shape[axis]} samples for {a}..{b}")
    ctx.check(mon.same(patch.data, stream.data(idx)), "samples", lambda: f"{what}: {a}..{b} got {patch.data.ravel()[:12]} want {stream.data(idx).ravel()[:12]}")
    if labels:
        want = stream.labels(idx)
        got = np.asarray(patch.get_array(dim))
        ok = mon.close(got, want, rtol=1e-9, atol=1e-9 * abs(stream.step)) if stream.kind == "float" else mon.same(got, want)
        ctx.check(ok, "labels", lambda: f"{what}: {got[:6]}..{got[-2:]} want {want[:6]}..{want[-2:]}")
        if len(idx) > 1:
            ctx.check(patch.get_coord(dim).evenly_sampled, "evenness", lambda: f"{what}: {patch.get_coord(dim)}")
    ctx.check(mon.same(patch.get_array("other"), stream.others), "other-coord", what)
    ctx.check(mon.quant_same(patch.get_coord(dim).units, "s" if stream.kind in ("time", "delta") else "m"), "dim-units", lambda: f"{what}: {patch.get_coord(dim).units}")
    if stream.aux and aux:
        for name, vals, dims in (("aux", stream.auxval(idx), (dim,)), ("other_aux", stream.others * 2, ("other",)), ("aux2", stream.data(idx) * 2, tuple(stream.dims))):
            ctx.check(name in patch.coords.coord_map, "aux-lost", lambda: f"{what}: {name}")
            ctx.check(tuple(patch.coords.dim_map[name]) == dims, "aux-dims", lambda: f"{what}: {name} {patch.coords.dim_map[name]}")
            ctx.check(mon.close(patch.get_array(name), vals), "aux-values", lambda: f"{what}: {name} {patch.get_array(name)} want {vals}")
        ctx.check(mon.quant_same(patch.get_coord("aux").units, "km"), "aux-units", lambda: f"{what}: {patch.get_coord('aux').units}")
    for key, val in stream.attrs.items():
        got = getattr(patch.attrs, key, None)
        if key == "history":
            ctx.check(tuple(got) == tuple(val), "history", lambda: f"{what}: {got}")
        elif key == "data_units":
            ctx.check(mon.quant_same(got, val), "data-units", lambda: f"{what}: {got}")
        else:
            ctx.check(got == val, "attrs", lambda: f"{what}: {key}={got!r} want {val!r}")
    for mech, text in mon.structure_problems(patch):
        ctx.check(False, f"structure-{mech}", lambda: f"{what}: {text}")


def judge(ctx, streams, expected, spool, what, aux=True, labels=True):
    streams = {s.num: s for s in streams}
    """expected: {stream num: [(a, b)...]}; the spool holds exactly these patches."""
    patches = list(spool)
    ctx.check(len(patches) == len(spool), "length-iteration", lambda: f"{what}: len {len(spool)} yields {len(patches)}")
    want = sum(len(x) for x in expected.values())
    ctx.check(len(patches) == want, "count", lambda: f"{what}: {len(patches)} patches, want {want}: {expected}; got {[(p.attrs.tag, p.attrs.station, p.shape) for p in patches][:12]}")
    todo = {k: list(v) for k, v in expected.items()}
    for p in patches:
        num = int(p.data.ravel()[0] // 1e7) if p.size else -1
        ctx.check(num in todo, "foreign", lambda: f"{what}: stream {num}")
        st = streams[num]
        first = int(round((p.data.ravel()[0] - num * 1e7) // 100))
        axis = p.dims.index(st.dim)
        last = first + p.shape[axis] - 1
        ctx.check((first, last) in todo[num], "unexpected-segment", lambda: f"{what}: {first}..{last} not in {todo[num][:10]}")
        todo[num].remove((first, last))
        fits(ctx, st, p, first, last, what, aux, labels)
        ctx.count("segments")
        ctx.count("samples", p.size)
    # the segments of a contiguous run come out in order
    seen = {}
    for p in patches:
        num = int(p.data.ravel()[0] // 1e7)
        first = int(round((p.data.ravel()[0] - num * 1e7) // 100))
        run = (num, next(r for r in runs(expected[num]) if r[0] <= first <= r[1]))
        ctx.check(seen.get(run, -1) <= first, "order", lambda: f"{what}: segments of stream {num} are not in order")
        seen[run] = first


def backing(rng, patches, scratch=None):
    how = gen.pick(rng, ["memory"] * 8 + ["directory"] if scratch is None else ["directory"])
    if how == "memory":
        return dc.spool(patches), how
    return None, how


def distinct_streams(streams):
    return all(len({str(getattr(s, "attrs")[k]) for k in ("tag", "station")}) for s in streams)


def workload(rng, ctx, **kw):
    streams = make_streams(rng, **kw)
    pieces, lays, patches = {}, [], []
    for st in streams:
        pcs, lay = make_pieces(rng)
        pieces[st.num] = pcs
        lays.append(lay)
        patches += [st.piece(a, b) for a, b in pcs]
    order = rng.permutation(len(patches))
    if gen.chance(rng, 0.3):
        order = np.arange(len(patches))
    patches = [patches[i] for i in order]
    return streams, pieces, lays, patches


def value(rng, stream, n):
    """n samples expressed as a chunk length."""
    v = n * stream.step
    if stream.kind in ("time", "delta"):
        return gen.pick(rng, [v, v, v / np.timedelta64(1, "s")]) if v.astype(np.int64) % 1000 == 0 else v
    return v


def run_chunk(rng, ctx, spool, streams, pieces, what):
    """Chunk or merge the spool and judge the outcome."""
    same_step = len({str(s.step) for s in streams}) == 1
    dim = streams[0].dim
    conf = {"conflict": gen.pick(rng, ["drop", "keep_first"])} if streams[0].aux else {}
    if gen.chance(rng, 0.4) or not same_step:
        out = spool.chunk(**{dim: gen.pick(rng, [None, ...])}, **conf)
        expected = {s.num: runs(pieces[s.num]) for s in streams}
        req = "merge"
    else:
        n = int(gen.pick(rng, [1, 2, 3, 4, 5, 7, 10, 15]))
        ov = int(rng.integers(0, n)) if gen.chance(rng, 0.4) else 0
        partial = gen.chance(rng, 0.5)
        req = f"chunk n={n} ov={ov} partial={partial}"
        kw = {dim: value(rng, streams[0], n), **conf}
        if ov:
            kw["overlap"] = value(rng, streams[0], ov)
        if partial:
            kw["keep_partial"] = True
        ctx.note(kw=str(kw))
        expected = {s.num: [i for r in runs(pieces[s.num]) for i in intervals(r, n, ov, partial)] for s in streams}
        if not any(expected.values()):
            ctx.raises(lambda: spool.chunk(**kw), "no-segment", dc.exceptions.ChunkError)
            ctx.cover("none", req, what)
            return None
        out = spool.chunk(**kw)
    ctx.note(request=req)
    judge(ctx, streams, expected, out, f"{what} {req}")
    return out, req, expected


@family("P08", "chunk", quick=1000, thorough=20000, timeout=120)
def chunk(rng, ctx):
    streams, pieces, lays, patches = workload(rng, ctx)
    what = f"{streams[0].kind} step={streams[0].step} pieces={pieces}"
    ctx.note(streams=what)
    res = run_chunk(rng, ctx, dc.spool(patches), streams, pieces, what)
    if res:
        ctx.cover(streams[0].kind, sorted(lays), res[1], len(streams), streams[0].aux)


@family("P08", "float-lengths", quick=300, thorough=8000)
def float_lengths(rng, ctx):
    """Full length chunks of long float ranges: no segment is lost to rounding."""
    st = make_streams(rng, n=1, kinds=("float",), aux=False)[0]
    n = int(rng.integers(2, 12))
    k = int(rng.integers(1, 12))
    extra = int(rng.integers(0, n))
    a = int(rng.integers(0, 1000))
    total = n * k + extra
    cuts = sorted({int(x) for x in rng.integers(1, total, size=3)})
    edges = [0, *cuts, total]
    pcs = [(a + x, a + y - 1) for x, y in zip(edges[:-1], edges[1:])]
    partial = gen.chance(rng, 0.5)
    what = f"step={st.step} start={st.start} pieces={pcs} n={n} partial={partial}"
    ctx.note(what=what)
    out = dc.spool([st.piece(*x) for x in pcs]).chunk(**{st.dim: n * st.step}, keep_partial=partial)
    judge(ctx, [st], {0: intervals((a, a + total - 1), n, 0, partial)}, out, what)
    ctx.cover(st.step, n, k, extra > 0, partial)


@family("P08", "off-grid", quick=300, thorough=8000)
def off_grid(rng, ctx):
    """Lengths which are no multiple of the step: each sample in exactly one segment, the one its label falls in."""
    st = make_streams(rng, n=1, aux=False, kinds=("time", "float", "delta"))[0]
    pcs, lay = make_pieces(rng, ("adjacent", "overlap", "gap"))
    frac = float(gen.pick(rng, [2.5, 3.3, 4.75, 7.5, 1.25]))
    if st.kind in ("time", "delta"):
        length = np.timedelta64(int(st.step.astype(np.int64) * frac), "ns")
        if st.step.astype(np.int64) < 1000:
            ctx.skip("step too small to divide")
        lf = float(length.astype(np.int64)) / float(st.step.astype(np.int64))
    else:
        length, lf = st.step * frac, frac
    out = list(dc.spool([st.piece(*x) for x in pcs]).chunk(**{st.dim: length}, keep_partial=True))
    what = f"step={st.step} length={length} pieces={pcs}"
    ctx.note(what=what)
    got = []
    for p in out:
        first = int(p.data.ravel()[0] // 100)
        n = p.shape[p.dims.index(st.dim)]
        got += list(range(first, first + n))
        fits(ctx, st, p, first, first + n - 1, what)
        run = next(r for r in runs(pcs) if r[0] <= first <= r[1])
        ks = {int(np.floor((i - run[0]) / lf + 1e-9)) for i in range(first, first + n)}
        ctx.check(len(ks) == 1, "wrong-segment", lambda: f"{what}: samples {first}..{first + n - 1} belong to segments {ks}")
    lone = {r[1] for r in runs(pcs) if r[1] > r[0] and np.floor((r[1] - r[0]) / lf + 1e-9) != np.floor((r[1] - r[0] - 1) / lf + 1e-9)}
    want = [i for r in runs(pcs) for i in range(r[0], r[1] + 1) if i not in lone]
    got = [x for x in got if x not in lone]
    ctx.check(sorted(got) == want, "conservation", lambda: f"{what}: missing {sorted(set(want) - set(got))[:10]} extra {sorted(x for x in set(got) if got.count(x) > 1)[:10]}")
    ctx.cover(st.kind, lay, frac)


@family("P08", "select-chunk", quick=500, thorough=10000)
def select_chunk(rng, ctx):
    """Selecting an extent, then chunking, yields exactly the samples of the extent."""
    streams = make_streams(rng, n=gen.pick(rng, [1, 1, 2]), kinds=("time", "time", "float", "delta", "int"))
    while len({str(s.step) for s in streams}) > 1 or len({str(s.start) for s in streams}) > 1:
        streams = make_streams(rng, n=1, kinds=("time",))
    pieces, patches = {}, []
    for st in streams:
        pcs, lay = make_pieces(rng, ("adjacent", "gap", "overlap"))
        pieces[st.num] = pcs
        patches += [st.piece(a, b) for a, b in pcs]
    patches = [patches[i] for i in rng.permutation(len(patches))]
    st = streams[0]
    lo = min(a for p in pieces.values() for a, _ in p)
    hi = max(b for p in pieces.values() for _, b in p)
    a = int(rng.integers(lo - 1, hi + 1))
    b = int(rng.integers(a, hi + 2))
    off = st.kind in ("time", "float", "delta") and gen.chance(rng, 0.5) and (st.kind == "float" or st.step.astype(np.int64) > 100)
    la, lb = st.labels([a])[0], st.labels([b])[0]
    if off:
        quarter = st.step / 4 if st.kind == "float" else np.timedelta64(int(st.step.astype(np.int64)) // 4, "ns")
        la, lb = la - quarter, lb + quarter
    elif st.kind == "float":
        # exact label of the coordinate, as a user reading it off would give
        la, lb = la - 1e-6 * st.step, lb + 1e-6 * st.step
    sel = (la if gen.chance(rng, 0.8) else None, lb if gen.chance(rng, 0.8) else None)
    a = a if sel[0] is not None else -10**9
    b = b if sel[1] is not None else 10**9
    spool = dc.spool(patches).select(**{st.dim: sel})
    cut = {k: [(max(x, a), min(y, b)) for x, y in v if x <= b and y >= a] for k, v in pieces.items()}
    what = f"select {sel} ({a}..{b}) off={off} step={st.step} pieces={pieces}"
    ctx.note(what=what)
    live = [s for s in streams if cut[s.num]]
    if not live:
        ctx.check(len(spool) == 0, "empty-selection", lambda: f"{what}: {len(spool)}")
        ctx.cover("empty", st.kind)
        return
    got = sorted((int(p.data.ravel()[0] // 1e7), int(p.data.ravel()[0] % 1e7 // 100), p.shape[p.dims.index(st.dim)]) for p in spool)
    want = sorted((k, x, y - x + 1) for k, v in cut.items() for x, y in v)
    ctx.check(got == want, "selection", lambda: f"{what}: {got} want {want}")
    res = run_chunk(rng, ctx, spool, live, cut, what)
    if res:
        ctx.cover(st.kind, off, sel[0] is None, sel[1] is None, res[1])


@family("P08", "backed", quick=60, thorough=1500, timeout=300)
def backed(rng, ctx):
    """The same, from files."""
    streams, pieces, lays, patches = workload(rng, ctx, kinds=("time",))
    with boot.scratch_dir() as path:
        if gen.chance(rng, 0.3):
            how = "file"
            dc.write(dc.spool(patches), path / "a.h5", "dasdae")
            spool = dc.spool(path / "a.h5")
        else:
            how = "directory"
            for num, p in enumerate(patches):
                dc.write(p, path / f"f{num:02d}.h5", "dasdae")
            spool = dc.spool(path).update(progress=None)
        what = f"{how} {streams[0].kind} step={streams[0].step} pieces={pieces}"
        ctx.note(streams=what)
        res = run_chunk(rng, ctx, spool, streams, pieces, what)
    if res:
        ctx.cover(how, streams[0].kind, sorted(lays), res[1], len(streams))


@family("P08", "rechunk", quick=400, thorough=8000)
def rechunk(rng, ctx):
    """Merging chunked data, chunking merged data, chunking a part."""
    streams, pieces, lays, patches = workload(rng, ctx, n=gen.pick(rng, [1, 2]))
    if len({str(s.step) for s in streams}) > 1:
        ctx.skip("different steps")
    what = f"{streams[0].kind} step={streams[0].step} pieces={pieces}"
    ctx.note(streams=what)
    dim = streams[0].dim
    how = gen.pick(rng, ["merged", "chunked", "part", "twice"])
    n = int(rng.integers(1, 8))
    conf = {"conflict": gen.pick(rng, ["drop", "keep_first"])} if streams[0].aux else {}
    kw = {dim: value(rng, streams[0], n), **conf}
    if how in ("chunked", "twice"):
        pieces = {k: [i for r in runs(v) for i in intervals(r, n, 0, True)] for k, v in pieces.items()}
    if how == "merged":
        spool = dc.spool(list(dc.spool(patches).chunk(**{dim: None}, **conf)))
    elif how == "chunked":
        spool = dc.spool(list(dc.spool(patches).chunk(**kw, keep_partial=True)))
    elif how == "twice":
        spool = dc.spool(patches).chunk(**kw, keep_partial=True)
    else:
        parts = dc.spool(patches).chunk(**kw, keep_partial=True)
        k = int(rng.integers(0, len(parts)))
        m = int(rng.integers(k + 1, len(parts) + 1))
        part = parts[k:m]
        segs = [(int(p.data.ravel()[0] // 1e7), int(p.data.ravel()[0] % 1e7 // 100), p.shape[p.dims.index(dim)]) for p in part]
        cut = {}
        for num, first, length in segs:
            cut.setdefault(num, []).append((first, first + length - 1))
        expected = {k: runs(v) for k, v in cut.items()}
        judge(ctx, streams, expected, part.chunk(**{dim: None}, **conf), f"{what} part {k}:{m} of n={n}")
        ctx.cover("part", streams[0].kind, n, m - k)
        return
    res = run_chunk(rng, ctx, spool, streams, pieces, f"{how} n={n} {what}")
    if res:
        ctx.cover(how, streams[0].kind, sorted(lays), res[1], n)


@family("P08", "tolerance", quick=300, thorough=6000)
def tolerance(rng, ctx):
    """Gaps larger than the tolerance are never bridged, smaller ones are when asked for."""
    st = make_streams(rng, n=1, kinds=("time", "float", "int", "delta"))[0]
    gap = int(rng.integers(1, 6))  # missing samples
    n1, n2 = int(rng.integers(2, 8)), int(rng.integers(2, 8))
    a, b = (5, 5 + n1 - 1), (5 + n1 + gap, 5 + n1 + gap + n2 - 1)
    tol = float(gen.pick(rng, [0.5, 1.0, 1.5, 2.5, 3.5, 4.5, 6.5, 10.5]))
    patches = [st.piece(*a), st.piece(*b)]
    if gen.chance(rng, 0.5):
        patches = patches[::-1]
    what = f"{st.kind} step={st.step} gap={gap} tol={tol}"
    ctx.note(what=what)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = dc.spool(patches).chunk(**{st.dim: None}, tolerance=tol, snap_coords=False, conflict="drop")
        got = list(out)
    bridged = (gap + 1) <= tol
    ctx.check(len(got) == (1 if bridged else 2), "bridging", lambda: f"{what}: {len(got)} patches")
    if bridged:
        p = got[0]
        idx = np.r_[a[0] : a[1] + 1, b[0] : b[1] + 1]
        ctx.check(mon.same(p.data, st.data(idx)), "bridged-samples", what)
        lab, want = np.asarray(p.get_array(st.dim)), st.labels(idx)
        ok = mon.close(lab, want, rtol=1e-9, atol=1e-9 * abs(st.step)) if st.kind == "float" else mon.same(lab, want)
        ctx.check(ok, "bridged-labels", lambda: f"{what}: {lab} want {want}")
    else:
        judge(ctx, [st], {0: [a, b]}, out, what)
    ctx.cover(st.kind, gap, tol)


@family("P08", "jitter", quick=300, thorough=6000)
def jitter(rng, ctx):
    """Starts off by less than half a sample: merged, no sample lost or reordered, labels within the tolerance."""
    st = make_streams(rng, n=1, kinds=("time", "float"), aux=False)[0]
    if st.kind == "time" and st.step.astype(np.int64) < 1000:
        ctx.skip("step too small")
    k = int(rng.integers(2, 5))
    pos, patches, idxs = 3, [], []
    snap = gen.chance(rng, 0.6)
    for num in range(k):
        n = int(rng.integers(2, 9))
        p = st.piece(pos, pos + n - 1)
        frac = 0 if num == 0 else float(rng.uniform(-0.2, 0.2))
        d = st.step * frac if st.kind == "float" else np.timedelta64(int(st.step.astype(np.int64) * frac), "ns")
        patches.append(p.new(coords=p.coords.update(**{st.dim: p.get_coord(st.dim).update_limits(min=p.get_coord(st.dim).min() + d)})))
        idxs += list(range(pos, pos + n))
        pos += n
    what = f"{st.kind} step={st.step} snap={snap} {[(p.get_coord(st.dim).min(), p.shape) for p in patches]}"
    ctx.note(what=what)
    out = list(dc.spool([patches[i] for i in rng.permutation(k)]).chunk(**{st.dim: None}, snap_coords=snap))
    ctx.check(len(out) == 1, "jitter-split", lambda: f"{what}: {len(out)}")
    p = out[0]
    ctx.check(mon.same(p.data, st.data(np.array(idxs))), "jitter-samples", what)
    lab = np.asarray(p.get_array(st.dim))
    want = np.concatenate([x.get_array(st.dim) for x in patches])
    if snap:
        ctx.check(p.get_coord(st.dim).evenly_sampled, "jitter-not-even", what)
        dev = np.abs((lab - want) / st.step)
        ctx.check(dev.max() <= 0.75, "jitter-labels", lambda: f"{what}: {dev.max()} samples off")
    else:
        ctx.check(mon.close(lab, want, rtol=1e-12, atol=1e-3 * abs(st.step)) if st.kind == "float" else mon.same(lab, want), "jitter-labels-nosnap", lambda: f"{what}: {lab} {want}")
    ctx.cover(st.kind, k, snap)


@family("P08", "conflicts", quick=300, thorough=6000)
def conflicts(rng, ctx):
    """Metadata which differs between the pieces of a stream."""
    st = make_streams(rng, n=1)[0]
    key = gen.pick(rng, ["gauge_length", "my_attr", "instrument_id"])
    a, b = (0, int(rng.integers(0, 6))), None
    b = (a[1] + 1, a[1] + int(rng.integers(1, 7)))
    v1, v2 = ("x", "y") if key != "gauge_length" else (1.0, 2.0)
    p1, p2 = st.piece(*a, attrs={key: v1}), st.piece(*b, attrs={key: v2})
    swap = gen.chance(rng, 0.5)
    conf = gen.pick(rng, ["raise", "drop", "keep_first"])
    what = f"{conf} {key} {st.kind}"
    ctx.note(what=what)
    spool = dc.spool([p2, p1] if swap else [p1, p2])
    if conf == "raise":
        ctx.raises(lambda: list(spool.chunk(**{st.dim: None})), "conflict-accepted", Exception)
    else:
        out = list(spool.chunk(**{st.dim: None}, conflict=conf))
        ctx.check(len(out) == 1, "conflict-count", what)
        got = getattr(out[0].attrs, key, None)
        st.attrs.pop(key, None)
        fits(ctx, st, out[0], a[0], b[1], what)
        if conf == "keep_first":
            ctx.check(got in (v1, v2), "keep-first", lambda: f"{what}: {got!r}")
        else:
            ctx.check(got not in (v1, v2), "drop", lambda: f"{what}: {got!r}")
    ctx.cover(conf, key, swap, st.kind)


@family("P08", "groups", quick=300, thorough=5000)
def groups(rng, ctx):
    """Adjacent pieces which differ in a group column or in sampling are not mixed."""
    kind = gen.pick(rng, ["network", "station", "tag", "data_type", "dims", "step"])
    base = make_streams(rng, n=1)[0]
    streams = [base]
    k = int(rng.integers(2, 4))
    for num in range(1, k):
        s = Stream(rng, num, base.dim, base.kind, base.step, base.start, dict(base.attrs), base.others, base.dims, base.n_ch, base.aux)
        if kind == "dims":
            if num > 1:
                break
            s.dims = base.dims[::-1]
        elif kind == "step":
            s.step = base.step * (num + 1)
        elif kind == "data_type":
            s.attrs["data_type"] = ["velocity", "strain", "strain_rate"][num]
        else:
            s.attrs[kind] = f"v{num}"
        streams.append(s)
    patches, pieces = [], {}
    for s in streams:
        pcs = []
        pos = int(rng.integers(0, 4))
        for _ in range(int(rng.integers(1, 4))):
            n = int(rng.integers(2, 6))
            pcs.append((pos, pos + n - 1))
            pos += n
        pieces[s.num] = pcs
        patches += [s.piece(*x) for x in pcs]
    patches = [patches[i] for i in rng.permutation(len(patches))]
    what = f"{kind} {base.kind} {pieces}"
    ctx.note(what=what)
    out = dc.spool(patches).chunk(**{base.dim: None}, conflict="keep_first" if base.aux else "raise")
    judge(ctx, streams, {k: runs(v) for k, v in pieces.items()}, out, what)
    ctx.cover(kind, base.kind, len(streams))


@family("P08", "concatenate", quick=300, thorough=6000)
def concatenate(rng, ctx):
    st = make_streams(rng, n=1, aux=False)[0]
    k = int(rng.integers(1, 6))
    same_len = int(rng.integers(1, 6))
    new_dim = gen.chance(rng, 0.4)
    ps, ix = [], []
    pos = 0
    for _ in range(k):
        n = same_len if new_dim or gen.chance(rng, 0.5) else int(rng.integers(1, 6))
        a = 0 if new_dim else pos
        ps.append(st.piece(a, a + n - 1).update(data=st.data(np.arange(pos, pos + n))))
        ix.append((a, n, pos))
        pos += n + int(rng.integers(0, 3))
    val = gen.pick(rng, [None, 1, 2, 3])
    name = "rank" if new_dim else st.dim
    what = f"{name}={val} k={k} {ix}"
    ctx.note(what=what)
    out = list(dc.spool(ps).concatenate(**{name: val}))
    size = k if val is None else val
    grp = [list(range(i, min(k, i + size))) for i in range(0, k, size)]
    ctx.check(len(out) == len(grp), "concat-count", lambda: f"{what}: {len(out)}")
    for p, g in zip(out, grp):
        if new_dim:
            ctx.check(p.dims == st.dims + ("rank",), "concat-dims", lambda: f"{what}: {p.dims}")
            ctx.check(mon.same(p.data, np.stack([ps[i].data for i in g], axis=-1)), "concat-data", what)
        else:
            ax = st.dims.index(st.dim)
            ctx.check(mon.same(p.data, np.concatenate([ps[i].data for i in g], axis=ax)), "concat-data", what)
            lab = np.concatenate([ps[i].get_array(st.dim) for i in g])
            got = np.asarray(p.get_array(st.dim))
            ok = mon.close(got, lab, rtol=1e-9, atol=1e-6 * abs(st.step)) if st.kind == "float" else mon.same(got, lab)
            ctx.check(ok, "concat-labels", lambda: f"{what}: {got} want {lab}")
            ctx.check(mon.quant_same(p.get_coord(st.dim).units, ps[0].get_coord(st.dim).units), "concat-units", lambda: f"{what}: {p.get_coord(st.dim).units}")
        for mech, text in mon.structure_problems(p):
            ctx.check(False, f"structure-{mech}", lambda: f"{what}: {text}")
    ctx.cover(new_dim, val, k, st.kind)


@family("P08", "stack", quick=200, thorough=4000)
def stack(rng, ctx):
    st = make_streams(rng, n=1, aux=False)[0]
    n, k = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    vary = gen.chance(rng, 0.5)
    ps = []
    for i in range(k):
        a = i * n if vary else 0
        ps.append(st.piece(a, a + n - 1).update(data=rng.integers(0, 100, st.data(np.arange(n)).shape) + 0.5))
    what = f"vary={vary} k={k} n={n} {st.kind}"
    if vary and st.kind == "time":
        out = dc.spool(ps).stack(dim_vary=st.dim)
    else:
        out = dc.spool(ps).stack(dim_vary=st.dim if vary else None)
    ctx.check(mon.close(out.data, sum(p.data for p in ps), rtol=1e-12), "stack-data", what)
    ctx.check(out.dims == st.dims and mon.same(out.get_array("other"), st.others), "stack-coords", what)
    lab = np.asarray(out.get_array(st.dim))
    if vary and n > 1:
        d, e = np.diff(lab), np.diff(np.asarray(ps[0].get_array(st.dim)))
        ctx.check(mon.close(d, e, rtol=1e-6) if d.dtype.kind == "f" else mon.same(d.astype("int64"), e.astype("int64")), "stack-spacing", lambda: f"{what}: {lab}")
    elif not vary:
        ctx.check(mon.same(lab, ps[0].get_array(st.dim)), "stack-labels", what)
    ctx.cover(vary, k, st.kind, n > 1)

