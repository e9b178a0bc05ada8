"""Files which no reader should accept, and damage to files which one would."""
from __future__ import annotations

import io
import json
import pickle
import shutil
import wave
import zipfile

import h5py
import numpy as np

from vf import gen

EXTS = ("h5", "hdf5", "tdms", "raw", "sgy", "segy", "das", "bsl", "mtx", "sor", "pkl", "jld2", "wav", "txt", "", "csv", "xml", "dat", "zip")

_MARKS = [b"TDSm", b"\x89HDF\r\n\x1a\n", b"dascore.core Patch", b"Map\x00", b"\x44\x33\x22\x11", b"RIFF", b"CDF\x01", b"C 1 CLIENT", b"\x80\x04\x95", b"<?xml", b"PK\x03\x04", b"\x93NUMPY"]


def _random_hdf5(rng, path):
    """An HDF5 file of some other program."""
    names = ["data", "time", "x", "values", "entry", "model_weights", "Metadata", "Acquisition", "fa1-123", "distance", "channel", "depth", "DAS", "raw", "patch1", "waveforms", "Source1", "das", "timestamp", "dsXY"]
    if gen.chance(rng, 0.5):  # arrays named data and time are the H5Simple format
        names = [x for x in names if x not in ("time", "timestamp")]
    else:
        names = [x for x in names if x not in ("data", "raw")]
    with h5py.File(path, "w") as f:
        kind = gen.pick(rng, ["empty", "groups", "arrays", "nested", "attrs", "strings"])
        if kind == "empty":
            return kind
        for name in [names[int(i)] for i in rng.permutation(len(names))[: int(rng.integers(1, 5))]]:
            if kind == "groups":
                f.create_group(name)
            elif kind == "nested":
                f.create_group(name).create_group(gen.pick(rng, names)).create_dataset("v", data=rng.random(5))
            elif kind == "strings":
                f.create_dataset(name, data=[b"a", b"bc"])
            else:
                f.create_dataset(name, data=rng.random(tuple(int(x) for x in rng.integers(1, 6, int(rng.integers(1, 4))))))
                if kind == "attrs":
                    f[name].attrs["units"] = "m"
                    f.attrs[gen.pick(rng, ["version", "format", "title", "Conventions"])] = gen.pick(rng, ["CF-1.8", "7", b"x", 3])
        return kind


def _zip_bytes():
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        z.writestr("a.txt", "hello")
    return out.getvalue()


def _wav_bytes(rng):
    out = io.BytesIO()
    with wave.open(out, "wb") as w:
        w.setnchannels(1), w.setsampwidth(2), w.setframerate(8000)
        w.writeframes(rng.integers(-1000, 1000, 50).astype("<i2").tobytes())
    return out.getvalue()


def _text(rng):
    words = ["das", "fiber", "time", "0.25", "12", "\n", ",", ";", "units", "Map", "# comment\n", "name: value\n", "\t"]
    return " ".join(words[int(i)] for i in rng.integers(0, len(words), int(rng.integers(1, 200)))).encode()


def foreign(rng, folder, stem):
    """Write a file of no supported format; returns (path, kind)."""
    kind = gen.pick(rng, ["empty", "random", "text", "text", "json", "zip", "npy", "wav", "pickle", "marked", "hdf5", "hdf5", "hdf5", "floats", "ints", "zeros", "html", "csv"])
    ext = gen.pick(rng, EXTS)
    path = folder / (f"{stem}.{ext}" if ext else stem)
    if kind == "hdf5":
        return path, kind + "-" + _random_hdf5(rng, path)
    n = int(gen.pick(rng, [1, 3, 7, 30, 300, 5000]))
    raw = {
        "empty": lambda: b"",
        "random": lambda: rng.bytes(n),
        "text": lambda: _text(rng),
        "json": lambda: json.dumps({"a": [1, 2], "dascore": None}).encode(),
        "zip": _zip_bytes,
        "npy": lambda: (lambda b: (np.save(b, np.arange(10.0)), b.getvalue())[1])(io.BytesIO()),
        "wav": lambda: _wav_bytes(rng),
        "pickle": lambda: pickle.dumps(gen.pick(rng, [{"a": 1}, [1, 2], np.arange(4), "dascore.core.patch Patch", ("Spool", "dascore.core")])),
        "marked": lambda: gen.pick(rng, _MARKS) + rng.bytes(n),
        "floats": lambda: np.abs(rng.normal(20, 30, n)).astype(gen.pick(rng, ["<f4", "<f8"])).tobytes(),
        "ints": lambda: rng.integers(0, 50, n).astype(gen.pick(rng, ["<i2", "<i4", ">i4"])).tobytes(),
        "zeros": lambda: bytes(n),
        "html": lambda: b"<!DOCTYPE html><html><body>404</body></html>",
        "csv": lambda: b"time,distance,value\n" + b"\n".join(b"%d,%d,%f" % (i, i * 2, i / 3) for i in range(n % 50 + 1)),
    }[kind]()
    path.write_bytes(raw)
    return path, kind


def _h5_paths(f):
    out = []
    f.visititems(lambda name, obj: out.append((name, isinstance(obj, h5py.Dataset))))
    return out


def damage(rng, made, folder, stem="bad", kinds=None):
    """A damaged copy of a file; returns (path, kind)."""
    src = made.path
    if src.is_dir():
        path = folder / stem
        shutil.copytree(src, path)
        target = gen.pick(rng, sorted(x for x in path.rglob("*") if x.is_file()))
        copy = target
    else:
        path = folder / (src.name if made.named else stem + src.suffix)
        shutil.copyfile(src, path)
        copy = path
    is_h5 = copy.read_bytes()[:4] == b"\x89HDF"
    kind = gen.pick(rng, kinds or (["truncate", "truncate", "empty"] + (["node", "attr", "shape", "dtype", "value", "signature"] if is_h5 else ["bytes", "bytes", "insert", "append", "zero"])))
    raw = bytearray(copy.read_bytes())
    if kind == "truncate":
        cut = gen.pick(rng, [int(rng.integers(0, max(1, len(raw)))), int(rng.integers(0, min(len(raw), 200) or 1)), len(raw) - 1, max(0, len(raw) - int(rng.integers(1, 50)))])
        copy.write_bytes(bytes(raw[: max(0, cut)]))
    elif kind == "empty":
        copy.write_bytes(b"")
    elif kind == "bytes":
        for _ in range(int(gen.pick(rng, [1, 3, 10, 100]))):
            spot = int(rng.integers(0, min(len(raw), gen.pick(rng, [64, 400, len(raw)]))))
            raw[spot] = gen.pick(rng, [0, 255, 127, int(rng.integers(0, 256))])
        copy.write_bytes(bytes(raw))
    elif kind == "insert":
        spot = int(rng.integers(0, len(raw)))
        raw[spot:spot] = rng.bytes(int(rng.integers(1, 20)))
        copy.write_bytes(bytes(raw))
    elif kind == "append":
        copy.write_bytes(bytes(raw) + rng.bytes(int(rng.integers(1, 20))))
    elif kind == "zero":
        lo = int(rng.integers(0, len(raw)))
        hi = min(len(raw), lo + int(rng.integers(1, 200)))
        raw[lo:hi] = bytes(hi - lo)
        copy.write_bytes(bytes(raw))
    elif kind == "signature":
        raw[int(rng.integers(0, 8))] ^= 0xFF
        copy.write_bytes(bytes(raw))
    else:
        with h5py.File(copy, "a") as f:
            nodes = _h5_paths(f)
            sets = [n for n, is_set in nodes if is_set]
            if kind == "node" and nodes:
                name = gen.pick(rng, nodes)[0]
                kind += ":" + name
                del f[name]
            elif kind == "attr":
                holders = [x for x in [n for n, _ in nodes] + ["/"] if len(f[x].attrs)]
                if holders:
                    obj = f[gen.pick(rng, holders)]
                    name = gen.pick(rng, sorted(obj.attrs))
                    kind += ":" + name
                    if gen.chance(rng, 0.6):
                        del obj.attrs[name]
                    else:
                        obj.attrs[name] = gen.pick(rng, ["junk", -1, np.array([]), 0, b"\xff\xfe", np.nan, np.arange(3)])
            elif sets:
                name = gen.pick(rng, sets)
                kind += ":" + name
                old = f[name][()]
                attrs = dict(f[name].attrs)
                del f[name]
                if kind.startswith("shape"):
                    arr = np.asarray(old)
                    new = gen.pick(rng, [arr.ravel()[:0], arr.ravel(), arr[..., None] if arr.ndim else arr, arr[: max(0, len(arr) - 1)] if arr.ndim else np.stack([arr, arr])])
                elif kind.startswith("dtype"):
                    new = gen.pick(rng, [b"text", np.array([b"a", b"b"]), np.zeros(np.shape(old) or (1,), "c8"), np.zeros(np.shape(old) or (1,), "u1")])
                else:
                    arr = np.asarray(old)
                    new = gen.pick(rng, [np.zeros_like(arr), np.full(arr.shape, np.nan) if arr.dtype.kind in "fiu" else arr.ravel()[:0], arr * -1 if arr.dtype.kind in "fi" else arr.ravel()[:0]])
                try:
                    f[name] = new
                    for key, val in attrs.items():
                        f[name].attrs[key] = val
                except (TypeError, ValueError, OSError, RuntimeError):
                    pass
    return path, kind
