"""
Case runner: families of generated cases, monitors' verdicts, evidence.

A *family* is a function ``f(rng, ctx)`` which builds one workload from a
random generator, drives the real code, and lets monitors judge the outcome
through ``ctx``.  A case is identified by (seed, family, index) alone, so that
a violation is replayed from those three values.
"""
from __future__ import annotations

import hashlib
import json
import os
import signal
import tempfile
import sys
import time
import traceback
import zlib
from collections import Counter
from pathlib import Path

import numpy as np

from vf.boot import REPO_REAL, VERIF

FAMILIES: dict[str, list] = {}
META: dict[str, dict] = {}


class Violation(Exception):
    """Raised by a monitor to stop a case."""


class Inapplicable(Exception):
    """The generated case says nothing about the property."""


class CaseTimeout(Exception):
    """A case did not end within its time limit."""


class Family:
    def __init__(self, prop, name, func, quick, thorough, timeout, serial, block, finish):
        self.prop, self.name, self.func = prop, name, func
        self.quick, self.thorough, self.timeout = quick, thorough, timeout
        self.serial, self.block, self.finish = serial, block, finish


def family(prop, name, quick, thorough=None, timeout=120, serial=False, block=None, finish=None):
    """Register a case family."""
    def deco(func):
        FAMILIES.setdefault(prop, []).append(
            Family(prop, name, func, quick, thorough if thorough is not None else quick * 12, timeout, serial, block, finish)
        )
        return func
    return deco


def describe(prop, rule, assumptions=(), level="exploration"):
    META[prop] = dict(rule=rule, assumptions=list(assumptions), level=level)


class Ctx:
    """What monitors talk to while a case runs."""

    def __init__(self, prop, fam, index, seed, tier):
        self.prop, self.fam, self.index, self.seed, self.tier = prop, fam, index, seed, tier
        self.fails: list[tuple[str, str]] = []
        self.sigs: set[str] = set()
        self.counts: Counter = Counter()
        self.desc: dict = {}

    # --- observations
    def cover(self, *parts):
        """Record a non-trivial situation which a monitor has judged."""
        self.sigs.add("|".join(str(p) for p in parts))

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def note(self, **kw):
        for k, v in kw.items():
            self.desc[k] = v if isinstance(v, int | float | str | bool | type(None)) else repr(v)[:300]

    # --- verdicts
    def fail(self, mech, msg=""):
        self.fails.append((mech, str(msg() if callable(msg) else msg)[:2000]))
        raise Violation(mech)

    def soft(self, cond, mech, msg=""):
        """Record a failed assertion but go on."""
        self.counts["assertions"] += 1
        if not cond:
            self.fails.append((mech, str(msg() if callable(msg) else msg)[:2000]))
        return bool(cond)

    def check(self, cond, mech, msg=""):
        self.counts["assertions"] += 1
        if not cond:
            self.fail(mech, msg)

    def skip(self, why=""):
        self.counts["inapplicable:" + why] += 1
        raise Inapplicable(why)

    def raises(self, func, mech, types=Exception, msg=""):
        """func must raise one of types."""
        self.counts["assertions"] += 1
        try:
            out = func()
        except types as exc:
            return exc
        except (Violation, Inapplicable, CaseTimeout):
            raise
        self.fail(mech, lambda: f"no error raised, returned {short(out)}; {msg}")


def short(obj, n=300):
    try:
        text = repr(obj)
    except Exception as exc:  # pragma: no cover
        text = f"<unprintable {type(obj)} {exc}>"
    return text if len(text) <= n else text[:n] + "..."


def case_rng(seed, fam, index):
    return np.random.default_rng([int(seed) & 0xFFFFFFFF, zlib.crc32(fam.encode()), int(index)])


def _alarm(signum, frame):
    raise CaseTimeout()


def _crash_site(exc):
    """Innermost frame of the code under test, if any."""
    site = None
    for frame in traceback.extract_tb(exc.__traceback__):
        if os.path.realpath(frame.filename).startswith(REPO_REAL + os.sep):
            site = f"{os.path.basename(frame.filename)}:{frame.name}"
    return site


def run_case(fam: Family, index, seed, tier):
    ctx = Ctx(fam.prop, fam.name, index, seed, tier)
    rng = case_rng(seed, fam.prop + "/" + fam.name, index)
    status = "ok"
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, fam.timeout)
    tb = ""
    try:
        fam.func(rng, ctx)
    except Violation:
        tb = traceback.format_exc()
    except Inapplicable:
        status = "skip"
    except CaseTimeout:
        ctx.fails.append(("no-termination", f"case did not end within {fam.timeout}s"))
        tb = traceback.format_exc()
    except BaseException as exc:
        if isinstance(exc, KeyboardInterrupt):
            raise
        signal.setitimer(signal.ITIMER_REAL, 0)
        site = _crash_site(exc)
        mech = f"unexpected-exception:{type(exc).__name__}@{site or 'oracle'}"
        ctx.fails.append((mech, f"{exc}"[:1000]))
        tb = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if ctx.fails:
        status = "fail"
    return ctx, status, tb


def _run_block(args):
    fam_index, prop, start, stop, seed, tier = args[:6]
    fam = FAMILIES[prop][fam_index]
    if len(args) > 6:  # tells the parent which process has this block
        Path(args[6]).write_text(str(os.getpid()))
    out = dict(fam=fam.name, evaluated=0, skipped=0, sigs=set(), counts=Counter(), fails=[], samples=[], t=0.0)
    t0 = time.time()
    for index in range(start, stop):
        ctx, status, tb = run_case(fam, index, seed, tier)
        if status == "skip":
            out["skipped"] += 1
        else:
            out["evaluated"] += 1
        out["sigs"] |= {hashlib.blake2b(f"{fam.name}|{s}".encode(), digest_size=8).digest() for s in ctx.sigs}
        out["counts"].update(ctx.counts)
        if len(out["samples"]) < 1 and status == "ok" and ctx.sigs:
            out["samples"].append(dict(family=fam.name, index=index, seed=seed, observed=sorted(ctx.sigs)[:4], **ctx.desc))
        for mech, msg in ctx.fails:
            if len(out["fails"]) < 40:
                out["fails"].append(dict(family=fam.name, index=index, seed=seed, mech=mech, message=msg, trace=tb[-3000:], desc=ctx.desc))
    out["t"] = time.time() - t0
    return out


def _wait(pending, mark, left):
    """Wait for a block; "lost" if the process which has it died."""
    end = time.time() + max(1.0, left)
    while time.time() < end:
        pending.wait(1.0)
        if pending.ready():
            return "ready"
        try:
            os.kill(int(Path(mark).read_text()), 0)
        except (FileNotFoundError, ValueError):
            continue
        except ProcessLookupError:
            pending.wait(3.0)
            return "ready" if pending.ready() else "lost"
    return "late"


def load_known(prop):
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return [x for x in json.loads(path.read_text())["findings"] if x["property"] == prop and x.get("status") != "fixed"]


def is_known(known, fail):
    for item in known:
        if item["mech"] == fail["mech"] and item.get("family", fail["family"]) == fail["family"]:
            return item
    return None


def run_property(prop, tier, seed, jobs=8, only=None, limit=None, scale=1.0):
    """Run all families of a property and return an exit code."""
    import multiprocessing as mp

    t0 = time.time()
    deadline = 780 if tier == "quick" else float(os.environ.get("VF_DEADLINE", 3000))
    fams = FAMILIES[prop]
    tasks, serial = [], []
    planned = {}
    for num, fam in enumerate(fams):
        if only and fam.name not in only:
            continue
        n = fam.quick if tier == "quick" else fam.thorough
        n = max(1, int(n * scale))
        n = min(n, limit) if limit else n
        planned[fam.name] = n
        block = fam.block or max(1, min(64, n // (jobs * 3) or 1))
        for start in range(0, n, block):
            (serial if fam.serial else tasks).append((num, prop, start, min(n, start + block), seed, tier))
    results, errors = [], []
    timed_out = False
    # long families first gives a better packing
    order = {}
    for t in tasks:
        order.setdefault(t[0], []).append(t)
    tasks = [t for grp in order.values() for t in grp]
    rs = np.random.RandomState(0)
    rs.shuffle(tasks)
    tasks = [tuple(t) for t in tasks]
    if jobs <= 1:
        for t in tasks:
            results.append(_run_block(t))
    elif tasks:
        mpctx = mp.get_context("fork")
        lost = []
        with tempfile.TemporaryDirectory() as marks, mpctx.Pool(jobs, maxtasksperchild=None) as pool:
            tasks = [(*t, f"{marks}/{i}") for i, t in enumerate(tasks)]
            pend = [pool.apply_async(_run_block, (t,)) for t in tasks]
            for t, p in zip(tasks, pend):
                state = _wait(p, t[6], deadline - (time.time() - t0))
                if state == "late":
                    timed_out = True
                    errors.append(f"deadline reached before block {t}")
                    break
                if state == "lost":
                    lost.append(t[:6])
                    continue
                try:
                    results.append(p.get())
                except Exception as exc:
                    errors.append(f"worker error in block {t}: {exc!r}")
            pool.terminate()
        for t in lost:  # the process died; see whether it does so again
            with tempfile.TemporaryDirectory() as marks, mpctx.Pool(1) as pool:
                p = pool.apply_async(_run_block, ((*t, f"{marks}/0"),))
                state = _wait(p, f"{marks}/0", max(60.0, deadline - (time.time() - t0)))
                if state == "ready":
                    results.append(p.get())
                    results[-1]["counts"]["blocks repeated after their process died"] += 1
                else:
                    errors.append(f"worker {state} in block {t}")
                pool.terminate()
    for t in serial:
        if time.time() - t0 > deadline:
            timed_out = True
            break
        results.append(_run_block(t))
    evaluated = sum(r["evaluated"] for r in results)
    skipped = sum(r["skipped"] for r in results)
    sigs = set().union(*[r["sigs"] for r in results]) if results else set()
    counts, per_fam, samples, fails = Counter(), {}, {}, []
    for r in results:
        counts.update(r["counts"])
        f = per_fam.setdefault(r["fam"], dict(evaluated=0, skipped=0, seconds=0.0, distinct=set()))
        f["evaluated"] += r["evaluated"]; f["skipped"] += r["skipped"]; f["seconds"] += r["t"]
        f["distinct"] |= r["sigs"]
        for s in r["samples"]:
            samples.setdefault(r["fam"], s)
        fails.extend(r["fails"])
    for f in per_fam.values():
        f["distinct"] = len(f["distinct"]); f["seconds"] = round(f["seconds"], 2)
    known = load_known(prop)
    new, seen_known = {}, {}
    for fl in fails:
        item = is_known(known, fl)
        if item is not None:
            seen_known.setdefault(item["id"], (item, fl))
        else:
            new.setdefault((fl["family"], fl["mech"]), fl)
    evdir = Path(os.environ.get("VF_EVIDENCE", VERIF / "evidence"))
    evdir.mkdir(exist_ok=True, parents=True)
    for item in known:  # each listed finding is announced, and must be observed to stay listed
        state = "observed" if item["id"] in seen_known else "not observed in this run"
        print(f"KNOWN-FINDING: property={prop} {item['what']} [{item['id']}; {state}]")
    if new:
        rdir = evdir / "replays"
        rdir.mkdir(exist_ok=True)
        for num, ((fam, mech), fl) in enumerate(sorted(new.items())):
            if num >= int(os.environ.get("VF_MAXREP", 12)):
                break
            tag = hashlib.blake2b(f"{fam}{mech}{fl['index']}".encode(), digest_size=4).hexdigest()
            path = rdir / f"{prop}-{tag}.json"
            path.write_text(json.dumps(dict(property=prop, tier=tier, **fl), indent=1, default=str))
            print(f"  [{fam}#{fl['index']}] {mech}: {fl['message'][:400]}")
            print(f"VIOLATION property={prop} replay={path}")
    meta = META.get(prop, dict(rule="", assumptions=[], level="exploration"))
    evidence = dict(
        property=prop, tier=tier, seed=int(seed), level=meta["level"],
        coverage=dict(
            evaluations=int(evaluated), distinct_nontrivial=len(sigs), rule=meta["rule"],
            samples=list(samples.values())[:12] or [dict(note="no case completed")],
            inapplicable=int(skipped), monitor_assertions=int(counts.get("assertions", 0)),
            observations={k: int(v) for k, v in sorted(counts.items()) if k != "assertions"},
            families=per_fam,
        ),
        assumptions=meta["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(new),
    )
    (evdir / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str))
    print(f"{prop} {tier} seed={seed}: {evaluated} cases ({skipped} inapplicable), {counts.get('assertions', 0)} monitor assertions, "
          f"{len(sigs)} distinct situations, {len(new)} violation(s), {time.time() - t0:.1f}s")
    if new:
        return 1
    if errors and not timed_out:
        print("CHECK ERROR:", *errors[:5], sep="\n  ")
        return 2
    empty = [f for f in planned if per_fam.get(f, {}).get("evaluated", 0) == 0]
    if empty:
        print("INCONCLUSIVE: monitors never reached in", empty, errors[:3])
        return 3
    return 0


def replay(path, debug=True):
    info = json.loads(Path(path).read_text())
    fam = next(f for f in FAMILIES[info["property"]] if f.name == info["family"])
    ctx, status, tb = run_case(fam, info["index"], info["seed"], info.get("tier", "quick"))
    print("case", info["property"], info["family"], info["index"], "->", status)
    for mech, msg in ctx.fails:
        print("  ", mech, ":", msg)
    if tb:
        print(tb)
    if status == "fail":
        print(f"VIOLATION property={info['property']} replay={path}")
        return 1
    return 0


sys  # keep import
