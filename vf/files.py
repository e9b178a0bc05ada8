"""
Synthesis of instrument files.

Every function writes one file in a vendor's layout from content drawn by the
harness and returns what the file says (independently of the readers): format,
version, and for each patch its dimensions, data, labels and metadata.
"""
from __future__ import annotations

import contextlib
import datetime
import shutil
import struct
from dataclasses import dataclass, field
from pathlib import Path

import h5py
import numpy as np
import pandas as pd

NS = 1_000_000_000
UTF8 = h5py.string_dtype("utf-8")


@dataclass
class Exp:
    """What one patch of the file should be."""

    dims: tuple
    data: np.ndarray
    coords: dict  # name -> (labels, units or None, absolute tolerance)
    attrs: dict = field(default_factory=dict)


@dataclass
class Made:
    fmt: str
    version: str
    path: Path
    patches: list
    ranged: tuple = ("time", "distance")  # dimensions which can be requested on read
    data_nodes: tuple = ()
    named: bool = False  # the file name carries information
    size_bytes: int = 0


MAKERS = {}


def maker(name):
    def deco(func):
        MAKERS[name] = func
        return func

    return deco


def _pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


class World:
    """Common content: labels and unique data."""

    def __init__(self, rng, big=False, dtypes=("f4", "f8", "i2", "i4"), res=1, min_t=2, min_d=2, rates=None):
        self.rng = rng
        self.n_t = int(rng.integers(400, 500)) if big else int(rng.integers(min_t, 30))
        self.n_d = int(rng.integers(400, 500)) if big else int(rng.integers(min_d, 20))
        while self.n_d == self.n_t:
            self.n_d += 1
        self.rate = float(_pick(rng, rates or (0.5, 1, 2, 4, 10, 50, 100, 250, 500, 1000, 5000)))
        self.step = int(round(NS / self.rate))
        base = int(rng.integers(0, 1_700_000_000)) if rng.random() < 0.3 else int(rng.integers(1_500_000_000, 1_750_000_000))
        sub = int(rng.integers(0, NS)) if rng.random() < 0.7 else 0
        self.start = base * NS + sub - sub % res
        self.dx = float(_pick(rng, (0.25, 0.5, 1.0, 2.0, 1.25, 4.0, 0.125, 0.8167, 1.0209)))
        self.d0 = float(_pick(rng, (0.0, 10.0, -20.0, 1000.5, 12.25)))
        self.dtype = np.dtype(_pick(rng, dtypes))

    def times(self, n=None, step=None, start=None):
        n = self.n_t if n is None else n
        step = self.step if step is None else step
        start = self.start if start is None else start
        return (start + np.arange(n, dtype=np.int64) * step).astype("datetime64[ns]")

    def dists(self, n=None, d0=None, dx=None):
        n = self.n_d if n is None else n
        return (self.d0 if d0 is None else d0) + np.arange(n) * (self.dx if dx is None else dx)

    def data(self, shape, dtype=None):
        dtype = self.dtype if dtype is None else np.dtype(dtype)
        size = int(np.prod(shape))
        if dtype.kind == "i" and dtype.itemsize == 2:
            out = (np.arange(size) * 7 % 32000 - 16000)
        else:
            out = np.arange(size) * 3.0 + 1 if dtype.kind == "i" else np.arange(size) * 0.5 - 3
        return out.reshape(shape).astype(dtype)


def iso(ns, digits=9, sep="T"):
    """ISO string of an integer nanosecond time."""
    txt = str(np.datetime64(int(ns), "ns"))
    if digits < 9:
        txt = txt[: len(txt) - (9 - digits)]
        txt = txt[:-1] if txt.endswith(".") else txt
    return txt.replace("T", sep)


def _set(obj, **kw):
    for key, val in kw.items():
        obj.attrs[key] = val


def _opts(w, shape):
    """Random storage options for a data set."""
    if w.rng.random() < 0.4 and min(shape) > 1:
        return {"chunks": tuple(max(1, s // 2) for s in shape), "compression": "gzip" if w.rng.random() < 0.5 else None}
    return {}


# ------------------------------------------------------------------ HDF5


@maker("APSensing")
def ap_sensing(rng, path, big=False):
    w = World(rng, big, rates=(1, 2, 4, 10, 50, 100, 500, 1000), res=1000)
    data = w.data((w.n_t, w.n_d))
    gauge, rad, serial = float(rng.integers(1, 50)), float(rng.integers(1, 2000)) / 7, f"AP{int(rng.integers(1000))}"
    wrap = lambda x: np.array([x])  # noqa: E731
    unit = _pick(rng, ("m", "ft"))
    with h5py.File(path, "w") as f:
        _set(f, AppVersion="1.2.3", FileVersion="10" if rng.random() < 0.5 else np.array([10]), OpticalChannelNumber=1)
        f["DAQ/SerialNumber"] = wrap(np.bytes_(serial))
        f["DAQ/PositionStart"] = wrap(w.d0)
        f["DAQ/PositionEnd"] = wrap(w.d0 + w.n_d * w.dx)
        for name in ("PositionStart", "PositionEnd"):
            f["DAQ"][name].attrs["Unit"] = unit
        f.create_group("Interrogator")
        f["Metadata/Timestamp"] = wrap(np.bytes_(iso(w.start, 6) + ("" if rng.random() < 0.5 else "")))
        f["Metadata/Timezone"] = wrap(np.bytes_(_pick(rng, ("UTC", "UTC+0"))))
        f["Metadata/TraceCount"] = wrap(w.n_t)
        f["ProcessingServer/DataRate"] = wrap(w.rate)
        f["ProcessingServer/GaugeLength"] = wrap(gauge)
        f["ProcessingServer/RadiansToNanoStrain"] = wrap(rad)
        f.create_dataset("DAS", data=data, **_opts(w, data.shape))
    exp = Exp(("time", "distance"), data, {"time": (w.times(), "s", 0), "distance": (w.dists(), unit, 1e-6)},
              {"gauge_length": gauge, "radians_to_nano_strain": rad, "data_category": "DAS", "instrument_id": serial})
    return Made("APSensing", "10", path, [exp])


@maker("GDR_DAS")
def gdr(rng, path, big=False):
    w = World(rng, big)
    flip = rng.random() < 0.5
    dims = ("distance", "time") if flip else ("time", "distance")
    data = w.data((w.n_d, w.n_t) if flip else (w.n_t, w.n_d))
    gauge, serial = float(rng.integers(1, 50)), f"sn{int(rng.integers(1000))}"
    units = _pick(rng, ("strain", "strain/s", "radians"))
    with h5py.File(path, "w") as f:
        meta = f.create_group("DasMetadata")
        _set(meta, MetadataStandard="DAS-RCN v1.10", RawDataStandard="PRODML v2.2")
        inter = meta.create_group("Interrogator")
        inter.attrs["SerialNumber"] = serial
        acq = inter.create_group("Acquisition")
        _set(acq, GaugeLength=gauge, GaugeLengthUnit="m", UnitOfMeasure=units, SpatialSamplingInterval=w.dx, SpatialSamplingIntervalUnit="m")
        raw = f.create_group("DasRawData")
        raw["DasTimeArray"] = w.times().astype(np.int64)
        ds = raw.create_dataset("RawData", data=data, **_opts(w, data.shape))
        names = {"time": "time", "distance": "locus"}
        ds.attrs["DasDimensions"] = [names[d] for d in dims]
    exp = Exp(dims, data, {"time": (w.times(), None, w.n_t + 1), "distance": (w.dists(d0=0), "m", 1e-6)},
              {"gauge_length": gauge, "gauge_length_units": "m", "instrument_id": serial, "data_units": units})
    return Made("GDR_DAS", "1", path, [exp])


@maker("H5Simple")
def h5simple(rng, path, big=False):
    w = World(rng, big, rates=(1, 2, 4, 10, 50, 100, 500, 1000), res=1000)
    third = rng.random() < 0.3
    names = ["time", "distance"] + (["channels"] if third else [])
    rng.shuffle(names)
    sizes = {"time": w.n_t, "distance": w.n_d, "channels": max(w.n_t, w.n_d) + 3 if not big else 3}
    data = w.data(tuple(sizes[x] for x in names))
    tname, dname = _pick(rng, ("timestamp", "time", "timestamps")), _pick(rng, ("raw", "data"))
    channel = (not third) and rng.random() < 0.3  # no spatial coordinate stored
    dist_name = "channel" if channel else "distance"
    with h5py.File(path, "w") as f:
        f.create_dataset(dname, data=data, **_opts(w, data.shape))
        times = w.times()
        f[tname] = times.astype(np.int64) / 1e9
        if not channel:
            f["distance"] = w.dists()
        if third:
            f["channels"] = np.arange(sizes["channels"])
        if rng.random() < 0.5:
            f.attrs["format"] = "h5simple"
        f.attrs["station"] = "stn"
        if not channel and rng.random() < 0.3:
            f.attrs["dims"] = ",".join("distance" if x == "distance" and not channel else dist_name if x == "distance" else x for x in names)
    coords = {"time": (times, None, 600 + 520 * w.n_t), dist_name: ((np.arange(w.n_d), None, 0) if channel else (w.dists(), None, 1e-6))}
    if third:
        coords["channels"] = (np.arange(sizes["channels"]), None, 0)
    dims = tuple(dist_name if x == "distance" else x for x in names)
    return Made("H5Simple", "1", path, [Exp(dims, data, coords, {"station": "stn"})], ranged=dims)


@maker("TERRA15")
def terra15(rng, path, big=False):
    w = World(rng, big, rates=(1, 2, 4, 10, 50, 100), res=1000)
    version = _pick(rng, ("4", "5", "6"))
    tail = int(rng.integers(1, 6)) if rng.random() < 0.4 else 0
    product = _pick(rng, ("velocity", "strain_rate", "strain"))
    data = w.data((w.n_t + tail, w.n_d), _pick(rng, ("f4", "f8")))
    times = np.concatenate([w.times().astype(np.int64) / 1e9, np.zeros(tail)])
    gauge, pulse = float(rng.integers(1, 20)), float(rng.integers(1, 40))
    with h5py.File(path, "w") as f:
        _set(f, acoustic_bandwidth_end=1.0, amplifier_incoming_current=1.0, file_start_computer_time=w.start / 1e9, file_version=int(version),
             data_product=product, serial_number="TN01", data_product_units="m/s", pulse_rate=1000.0, pulse_length=pulse, gauge_length=gauge,
             sensing_range_start=w.d0, dx=w.dx, nx=w.n_d)
        node = f.create_group(product if version == "4" else "data_product")
        ds = node.create_dataset("data", data=data, **_opts(w, data.shape))
        ds
        node["gps_time" if rng.random() < 0.5 else "posix_time"] = times
    exp = Exp(("time", "distance"), data[: w.n_t], {"time": (w.times(), "s", 600 + 520 * w.n_t), "distance": (w.dists(), "m", 1e-6)},
              {"data_type": product, "instrument_id": "TN01", "data_units": "m/s", "gauge_length": gauge, "pulse_length": pulse, "pulse_rate": 1000.0})
    return Made("TERRA15", version, path, [exp])


@maker("OptoDAS")
def optodas(rng, path, big=False):
    w = World(rng, big, res=1000, rates=(1, 2, 4, 10, 50, 100, 500))
    version = _pick(rng, ("8", "9", "10", "11"))
    flip = rng.random() < 0.3
    dims = ("distance", "time") if flip else ("time", "distance")
    data = w.data((w.n_d, w.n_t) if flip else (w.n_t, w.n_d))
    chans = np.sort(rng.choice(np.arange(3 * w.n_d), w.n_d, replace=False)) if rng.random() < 0.3 else int(rng.integers(0, 50)) + np.arange(w.n_d) * int(rng.integers(1, 4))
    tmin = int(rng.integers(0, 30)) if rng.random() < 0.4 else 0
    gauge = float(rng.integers(1, 20))
    with h5py.File(path, "w") as f:
        f.create_group("acqSpec"), f.create_group("cableSpec")
        f["fileVersion"] = int(version)
        head = f.create_group("header")
        head.create_dataset("dimensionNames", data=[x.encode() for x in dims])
        head.create_dataset("dimensionUnits", data=[{"time": b"s", "distance": b"m"}[x] for x in dims])
        for num, dim in enumerate(dims):
            grp = head.create_group(f"dimensionRanges/dimension{num}")
            grp["unitScale"] = 1 / w.rate if dim == "time" else w.dx
            grp["min"], grp["max"] = (tmin, tmin + w.n_t - 1) if dim == "time" else (int(chans[0]), int(chans[-1]))
        head["time"] = w.start / 1e9
        head["channels"] = chans
        head["gaugeLength"], head["unit"] = gauge, np.bytes_("rad/m/s")
        head["instrument"], head["experiment"] = np.bytes_("opto1"), np.bytes_("exp 1")
        f.create_dataset("data", data=data, **_opts(w, data.shape))
    exp = Exp(dims, data, {"time": (w.times(start=w.start + tmin * w.step), "s", 600), "distance": (chans * w.dx, None, 1e-6)},
              {"gauge_length": gauge, "data_units": "rad/m/s", "instrument_id": "opto1", "acquisition_id": "exp 1", "data_category": "DAS"})
    return Made("OptoDAS", version, path, [exp])


@maker("DASHDF5")
def dashdf5(rng, path, big=False):
    w = World(rng, big, res=1000)
    flip = rng.random() < 0.5
    dims = ("time", "channel") if flip else ("channel", "time")
    shape = (w.n_t, w.n_d) if flip else (w.n_d, w.n_t)
    data = w.data(shape)
    chans = np.arange(w.n_d) + int(rng.integers(0, 100))
    trace = np.arange(w.n_t) + int(rng.integers(0, 100))
    xyz = {name: np.cumsum(rng.random(w.n_d)) * 100 for name in "xyz"}
    with h5py.File(path, "w") as f:
        f.attrs["Conventions"] = np.array(["CF-1.9", "DAS-HDF5-1.0"], dtype=object)
        f.attrs["project"] = "proj"
        f["channel"], f["trace"] = chans, trace
        f["t"] = w.times().astype(np.int64) / 1e9
        for name, val in xyz.items():
            f[name] = val
            f[name].attrs["units"] = "m"
        ds = f.create_dataset("das", data=data, **_opts(w, data.shape))
        ds.attrs["long_name"] = "DAS signal"
        f.create_dataset("crs", data=0)
        f["crs"].attrs["epsg_code"] = "EPSG:4326"
    coords = {"channel": (chans, None, 0), "time": (w.times(), None, 600 + 520 * w.n_t), "trace": (trace, None, 0)}
    coords.update({k: (v, "m", 1e-9) for k, v in xyz.items()})
    return Made("DASHDF5", "1.0", path, [Exp(dims, data, coords, {"project": "proj"})], ranged=("time", "channel"))


@maker("Silixa_H5")
def silixa(rng, path, big=False):
    w = World(rng, big, res=1000, rates=(1, 2, 4, 10, 50, 100, 500))
    data = w.data((w.n_t, w.n_d), "i2")
    mult, length, gauge, pulse = float(_pick(rng, (1.0, 1.02))), float(rng.integers(0, 1000)), float(rng.integers(1, 30)), float(rng.integers(1, 90))
    stamp = pd.Timestamp(w.start).strftime("%d/%m/%Y %H:%M:%S.%f") + " (UTC)"
    gps = rng.random() < 0.6
    other = "01/02/2003 04:05:06.000000 (UTC)"
    with h5py.File(path, "w") as f:
        ds = f.create_dataset("Acoustic", data=data, **_opts(w, data.shape))
        vals = {"GaugeLength": gauge, "SamplingFrequency[Hz]": w.rate, "Fibre Length Multiplier": mult, "Start Distance (m)": w.d0,
                "Stop Distance (m)": w.d0 + w.n_d, "Fibre Length per Metre": mult, "GPSTimeStamp": stamp if gps else "NaT (UTC)", "CPUTimeStamp": other if gps else stamp,
                "Tags": "tagged", "PulseWidth[ns]": pulse, "MeasureLength[m]": length, "StartPosition[m]": w.d0, "SpatialResolution[m]": w.dx,
                "SystemInfomation.Devices1.SerialNum": "sil1"}
        for key, val in vals.items():
            ds.attrs[key] = val
    exp = Exp(("time", "distance"), data, {"time": (w.times(), None, 0), "distance": (w.dists(d0=w.d0 + length * mult, dx=w.dx * mult), "m", 1e-6)},
              {"gauge_length": gauge, "pulse_width": pulse, "instrument_id": "sil1", "tag": "tagged"})
    return Made("Silixa_H5", "1", path, [exp])


_TP = np.dtype([("hi", "f8"), ("lo", "f8")])
_SR = np.dtype([("ref", _TP), ("step", _TP), ("len", "i8"), ("offset", "i8")])


@maker("DASVader")
def dasvader(rng, path, big=False):
    w = World(rng, big, res=1_000_000, rates=(1, 2, 4, 10, 50, 100, 500))
    name = _pick(rng, ("data", "strainrate"))
    dims = ("distance", "time") if name == "data" else ("time", "distance")
    data = w.data((w.n_d, w.n_t) if name == "data" else (w.n_t, w.n_d), _pick(rng, ("f4", "f8")))
    has_attr = rng.random() < 0.7
    off_t, off_d = (int(rng.integers(1, 4)) if rng.random() < 0.5 else 1), (int(rng.integers(1, 4)) if rng.random() < 0.5 else 1)
    t_rel = float(_pick(rng, (0.0, 0.0, 5.0, 0.5)))
    gauge = float(rng.integers(1, 40))

    def srange(start, step, num, offset):
        return ((start + (offset - 1) * step, 0.0), (step, 0.0), num, offset)

    with h5py.File(path, "w") as f:
        grp = f.create_group("_types")
        ms = w.start // 1_000_000 + 62135683200000
        htime = grp.create_dataset("h", data=(ms + np.arange(w.n_t) * (w.step // 1_000_000)).astype(np.int64))
        ds = grp.create_dataset("d", data=data, **_opts(w, data.shape))
        fields = [("time", _SR), ("htime", h5py.ref_dtype), ("offset", _SR), (name, h5py.ref_dtype)]
        if has_attr:
            at_dtype = np.dtype([("GaugeLength", "f8"), ("SamplingRate", "f8"), ("Hostname", h5py.string_dtype("utf-8")), ("PulseWidth", h5py.ref_dtype)])
            pulse = grp.create_dataset("p", data=np.array([7.5]))
            rec = np.zeros((), dtype=at_dtype)
            rec["GaugeLength"], rec["SamplingRate"], rec["Hostname"], rec["PulseWidth"] = gauge, w.rate, "host", pulse.ref
            at = grp.create_dataset("a", shape=(), dtype=at_dtype)
            at[()] = rec
            fields.append(("atrib", h5py.ref_dtype))
        dtype = np.dtype(fields)
        rec = np.zeros((), dtype=dtype)
        rec["time"] = srange(t_rel, 1 / w.rate, w.n_t, off_t)
        rec["offset"] = srange(w.d0, w.dx, w.n_d, off_d)
        rec["htime"], rec[name] = htime.ref, ds.ref
        if has_attr:
            rec["atrib"] = at.ref
        out = f.create_dataset("dDAS", shape=(), dtype=dtype)
        out[()] = rec
    attrs = {"gauge_length": gauge, "sampling_rate": w.rate, "host_name": "host", "pulse_width": 7.5, "data_category": "DAS", "data_units": "nanostrain"} if has_attr else {}
    start = w.start + int(t_rel * NS)
    exp = Exp(dims, data, {"time": (w.times(start=start), None, 1000), "distance": (w.dists(), None, 1e-6)}, attrs)
    return Made("DASVader", "1", path, [exp])


@maker("NeubrexRFS")
def neubrex_rfs(rng, path, big=False):
    w = World(rng, big, res=1_000_000, rates=(0.5, 1, 2, 4, 10), min_t=1)
    data = w.data((w.n_t, w.n_d), _pick(rng, ("f4", "f8")))
    depth = w.dists() if rng.random() < 0.6 else np.sort(rng.choice(np.arange(5 * w.n_d), w.n_d, replace=False)) * 1.0
    with h5py.File(path, "w") as f:
        ds = f.create_dataset("data", data=data, **_opts(w, data.shape))
        _set(ds, DataUnitLabel="micro-strain", StartDateTime=iso(w.start, 0), EndDateTime=iso(w.start, 0), API="42", FieldName="fld", WellID="w1",
             WellName="well", WellBoreID="wb")
        f["depth"] = depth
        f["stamps"] = np.array([iso(x, 3).encode() for x in w.times().astype(np.int64)])
        f["stamps_unix"] = w.times().astype(np.int64) / 1000
    exp = Exp(("time", "distance"), data, {"time": (w.times(), None, 600 + 520 * w.n_t), "distance": (depth, None, 1e-6)},
              {"api": "42", "field_name": "fld", "well_id": "w1", "well_name": "well", "well_bore_id": "wb", "data_units": "microstrain"})
    return Made("NeubrexRFS", "1", path, [exp])


@maker("NeubrexDAS")
def neubrex_das(rng, path, big=False):
    w = World(rng, big, res=1000)
    data = w.data((w.n_t, w.n_d))
    gauge = float(rng.integers(1, 40))
    gps = rng.random() < 0.6
    with h5py.File(path, "w") as f:
        ds = f.create_dataset("Acoustic", data=data, **_opts(w, data.shape))
        vals = {"NEUBRESCOPE.DAS.Model": "NBX", "NEUBRESCOPE.DAS.SerialNum": "sn7", "StartPosition": w.d0, "StopPosition": w.d0 + w.n_d * w.dx,
                "SpatialSamplingInterval": w.dx, "StartStopPositionUnit": "m", "GPSTimeStamp(UTC)": iso(w.start, 6) if gps else "",
                "CPUTimeStamp(UTC)": iso(w.start - NS if gps else w.start, 6), "TimeSamplingInterval(seconds)": 1 / w.rate, "TimeDecimationFilter": int(rng.integers(0, 2)),
                "DistanceDecimationFilter": 1, "DataPhysicalUnit": "nano-strain/s", "GaugeLength": gauge, "GaugeLengthUnits": "m", "IndexOfRefraction": 1.468,
                "PhaseToStrainConversion(MicroStrainPerRadian)": 0.11}
        for key, val in vals.items():
            ds.attrs[key] = val
    exp = Exp(("time", "distance"), data, {"time": (w.times(), None, 0), "distance": (w.dists(), "m", 1e-6)},
              {"gauge_length": gauge, "gauge_length_units": "m", "instrument_id": "sn7", "instrument_model": "NBX", "data_units": "nanostrain/s", "phase_to_strain": 0.11,
               "distance_decimation_filter": 1})
    return Made("NeubrexDAS", "1", path, [exp])


@maker("PRODML")
def prodml(rng, path, big=False):
    w = World(rng, big, res=1000, rates=(1, 2, 4, 10, 50, 100, 500))
    version = _pick(rng, ("2.0", "2.1"))
    start_locus = int(rng.integers(0, 20))
    gauge, pulse = float(rng.integers(1, 40)), float(rng.integers(1, 90))
    sfx = "Unit" if version == "2.0" else ".uom"
    dist_all = (start_locus + np.arange(w.n_d)) * w.dx
    out = []
    base = {"gauge_length": gauge, "pulse_width": pulse, "gauge_length_units": "m", "pulse_width_units": "ns", "schema_version": version, "pulse_rate": 1000.0}
    with h5py.File(path, "w") as f:
        acq = f.create_group("Acquisition")
        vals = {"PulseRate": 1000.0, "PulseWidth": pulse, "NumberOfLoci": w.n_d, "schemaVersion": np.bytes_(version) if rng.random() < 0.5 else version, "uuid": "u-1",
                "SpatialSamplingInterval": w.dx, "SpatialSamplingInterval" + sfx: "m", "StartLocusIndex": start_locus, "GaugeLength": gauge,
                "GaugeLength" + sfx: "m", "PulseWidth" + sfx: "ns"}
        for key, val in vals.items():
            acq.attrs[key] = val

        def stamps(grp, name, times):
            grp[name] = times.astype("datetime64[us]").astype(np.int64)
            zone = _pick(rng, ("Z", "+00:00", ""))
            _set(grp[name], PartStartTime=iso(times.astype("datetime64[ns]").astype(np.int64)[0], 6) + zone,
                 PartEndTime=np.bytes_(iso(times.astype("datetime64[ns]").astype(np.int64)[-1], 6) + zone))

        n_fbe = int(rng.integers(1, 3)) if rng.random() < 0.5 else 0
        if n_fbe:
            fbe = acq.create_group("Processed/Fbe[0]")
            lo = int(rng.integers(0, max(1, w.n_d - 2)))
            num = int(rng.integers(1, w.n_d - lo + 1))
            times = w.times(n=max(2, w.n_t // 2), step=w.step * 2)
            _set(fbe, NumberOfLoci=num, StartLocusIndex=lo, Dimensions=np.array(["time", "locus"], dtype=object), TransformSize=16.0, WindowSize=8)
            stamps(fbe, "FbeDataTime", times)
            for i in range(n_fbe):
                dat = w.data((len(times), num), "f4") + i
                ds = fbe.create_dataset(f"FbeData[{i}]", data=dat)
                _set(ds, StartFrequency=1.0 + i, EndFrequency=2.0 + i, FbeDataUnit="m/s")
                out.append(Exp(("time", "distance"), dat, {"time": (times, "s", 0), "distance": (dist_all[lo: lo + num], "m", 1e-6)},
                               {**base, "start_frequency": 1.0 + i, "end_frequency": 2.0 + i, "data_units": "m/s", "transform_size": 16.0, "window_size": 8}))
        for i in range(int(rng.integers(1, 3))):
            raw = acq.create_group(f"Raw[{i}]")
            dims, txt = _pick(rng, [(("time", "distance"), "time, locus"), (("distance", "time"), "locus, time"), (("distance", "time"), "locus time")])
            dat = w.data((w.n_t, w.n_d) if dims[0] == "time" else (w.n_d, w.n_t)) + i
            ds = raw.create_dataset("RawData", data=dat, **_opts(w, dat.shape))
            ds.attrs["Dimensions"] = txt if rng.random() < 0.5 else np.array(txt.replace(",", " ").split(), dtype=object)
            times = w.times(start=w.start + i * 60 * NS)
            if rng.random() < 0.3 and w.n_t > 4:  # clock drift within the part
                times = times + np.concatenate([[0], np.sort(rng.integers(0, max(1, w.step // 3000), w.n_t - 2)), [0]]) * np.timedelta64(1000, "ns")
            stamps(raw, "RawDataTime", times)
            _set(raw, RawDescription="Strain Rate", RawDataUnit="radian")
            out.append(Exp(dims, dat, {"time": (times, "s", w.step // 3 + 1000), "distance": (dist_all, "m", 1e-6)}, {**base, "data_type": "strain_rate", "data_units": "radian"}))
        return Made("PRODML", version, path, out)


@maker("febus")
def febus(rng, path, big=False):
    w = World(rng, False)
    out = []
    ver = _pick(rng, (None, "2.1.3", "1.0.2"))
    with h5py.File(path, "w") as f:
        for g in range(int(rng.integers(1, 3)) if rng.random() < 0.3 else 1):
            grp = f.create_group(f"fa1-{g}")
            for s in range(1, 1 + (int(rng.integers(1, 3)) if rng.random() < 0.3 else 1)):
                src = grp.create_group(f"Source{s}")
                _set(src, AmpliPower=1.0, Hostname="h", WholeExtent=np.arange(6), SamplingRate=1000.0)
                if ver:
                    src.attrs["Version"] = ver
                n_block = int(rng.integers(100, 120)) if big else int(rng.integers(2, 6))
                no_pad = 2 * int(rng.integers(1, 6))  # samples per block without overlap
                step_ms = float(_pick(rng, (1, 2, 4, 5, 10, 20)))
                block_s = no_pad * step_ms / 1000
                t0 = w.start // 1_000_000 / 1000
                src["time"] = t0 + np.arange(n_block) * block_s
                pad = int(rng.integers(0, no_pad // 2 + 1)) * 2  # extra samples in each block
                for z in range(1, 1 + (int(rng.integers(1, 3)) if rng.random() < 0.3 else 1)):
                    zone = src.create_group(f"Zone{z}")
                    n_d = int(rng.integers(100, 120)) if big else int(rng.integers(2, 12))
                    block_len = no_pad + pad
                    ext0 = int(rng.integers(0, 30))
                    org_d = float(rng.integers(0, 50))
                    dist_step = float(_pick(rng, (0.5, 1.0, 2.4)))
                    origin_t = -float(step_ms * int(rng.integers(0, 4)))
                    gauge = float(rng.integers(1, 40))
                    vals = dict(Extent=np.array([ext0, ext0 + n_d - 1, 0, block_len - 1, 0, 0]), Spacing=np.array([dist_step, step_ms, 1.0]), Origin=np.array([org_d, origin_t, 0.0]),
                                GaugeLength=np.array([gauge]), PulseWidth=np.array([5.0]), SamplingRate=np.array([1000.0 / step_ms]))
                    if rng.random() < 0.5:
                        vals["BlockRate"] = np.array([1000.0 / block_s])
                    vals[_pick(rng, ("Overlap", "BlockOverlap"))] = np.array([100.0 * pad / no_pad])
                    if ver:
                        vals["Version"] = np.bytes_(ver)
                    _set(zone, **vals)
                    # continuous stream; block b holds stream[b*no_pad - left : ... + block_len]
                    left = pad // 2
                    stream = w.data((n_block * no_pad + pad, n_d), "f4")
                    cube = np.stack([stream[b * no_pad: b * no_pad + block_len] for b in range(n_block)])
                    zone.create_dataset("StrainRate", data=cube)
                    total = n_block * no_pad
                    start = round(t0 * 1000) * 1_000_000 + int(round((origin_t + left * step_ms) * 1e6))
                    exp = Exp(("time", "distance"), stream[left: left + total],
                              {"time": (w.times(n=total, step=int(step_ms * 1e6), start=start), None, 1000),
                               "distance": (org_d + (ext0 + np.arange(n_d)) * dist_step, "m", 1e-6)},
                              {"gauge_length": gauge, "pulse_width": 5.0, "group": f"fa1-{g}", "source": f"Source{s}", "zone": f"Zone{z}", "data_units": "nanostrain/s"})
                    out.append(exp)
    return Made("febus", ver.split(".")[0] if ver else "1", path, out)


def _g1_common(f, w, rng):
    times = w.times()
    f["start_times"] = times.astype(np.int64) / 1e9
    f["end_times"] = times.astype(np.int64) / 1e9 + 1 / w.rate
    f["distances"] = w.dists()
    temps = np.round(rng.random(w.n_t) * 30, 2)
    f["temperatures"] = temps
    return {"time": (times, None, 600 + 520 * w.n_t), "distance": (w.dists(), "m", 1e-6), "temperature": (temps, "degC", 1e-9)}


@maker("febus_mtx_h5")
def febus_mtx(rng, path, big=False):
    w = World(rng, big, res=1000, rates=(0.5, 1, 2, 4, 10))
    n_f = int(rng.integers(2, 9))
    data = w.data((w.n_t, w.n_d, n_f), _pick(rng, ("f4", "f8")))
    f0, df = float(rng.integers(10000, 11000)), float(_pick(rng, (1.0, 0.5, 2.5)))
    with h5py.File(path, "w") as f:
        coords = _g1_common(f, w, rng)
        f.create_dataset("mtx", data=data)
        _set(f, formatVersion=_pick(rng, ("1", np.array([1]), 1)), freq_offset_abs=np.array([f0]), freq_step=df, ampliPower=np.array([3.0]), average=5)
    coords["frequency"] = (f0 + np.arange(n_f) * df, "MHz", 1e-6)
    return Made("febus_mtx_h5", "1", path, [Exp(("time", "distance", "frequency"), data, coords, {"data_category": "DSS", "ampli_power": 3.0, "average": 5})],
                ranged=("time", "distance", "frequency"))


@maker("febus_bsl_h5")
def febus_bsl(rng, path, big=False):
    w = World(rng, big, res=1000, rates=(0.5, 1, 2, 4, 10))
    data = w.data((w.n_t, w.n_d), _pick(rng, ("f4", "f8")))
    mode = int(rng.integers(0, 3))
    with h5py.File(path, "w") as f:
        coords = _g1_common(f, w, rng)
        f.create_dataset("bsl_data", data=data, **_opts(w, data.shape))
        _set(f, formatVersion="1", channel=np.array([2]), fiberFrom=w.d0, fiberTo=w.d0 + 10, mode=mode)
    at = {"data_category": "DSS", "channel": 2, "fiber_from": w.d0, "fiber_to": w.d0 + 10}
    if mode == 1:
        at.update(data_type="strain", data_units="microstrain")
    return Made("febus_bsl_h5", "1", path, [Exp(("time", "distance"), data, coords, at)])


@maker("FEBUS_T1")
def febus_t1(rng, path, big=False):
    w = World(rng, big, res=1_000_000, rates=(0.5, 1, 2, 4, 10))
    data = w.data((w.n_t, w.n_d), _pick(rng, ("f4", "f8")))
    dist = w.dists() if rng.random() < 0.6 else w.d0 + np.cumsum(rng.random(w.n_d) + 0.1)
    with h5py.File(path, "w") as f:
        f["Data/Temperature"] = data
        f["Data/Distance"] = dist
        f["Data/DistanceSignal"] = dist
        secs = w.times().astype(np.int64) / 1e9
        f["Data/Time"] = secs if rng.random() < 0.5 else secs[:, None]
    exp = Exp(("time", "distance"), data, {"time": (w.times(), "s", 600 + 520 * w.n_t), "distance": (dist, "m", 1e-6)},
              {"data_type": "temperature", "data_units": "degC", "data_category": "DTS", "instrument_model": "T1"})
    return Made("FEBUS_T1", "1", path, [exp])


# ------------------------------------------------------------------ text and binary


@maker("febus_g1_csv")
def febus_csv(rng, path, big=False):
    w = World(rng, big, min_d=3)
    start = w.start // NS
    path = path.with_name(f"gauge{int(rng.integers(9))}_C{int(rng.integers(1, 5))}_" + iso(start * NS, 0).replace(":", ".") + "+0000.bsl")
    span = int(rng.integers(1, 600))
    mode = _pick(rng, ("strain", "temperature"))
    data = np.round(w.rng.random(w.n_d) * 100, 4)
    lines = [f"Param;mode;{mode}", "Param;channel;2", f"Param;start time;{start}", f"Param;end time;{start + span}", f"Param;fiberFrom;{w.d0}",
             f"Param;fiberTo;{w.d0 + w.n_d * w.dx}", f"Param;sampling resolution;{w.dx}", "Param;average;12;m"]
    path.write_text("\n".join(lines + [str(x) for x in data]) + "\n")
    times = np.array([start * NS], dtype="datetime64[ns]")
    exp = Exp(("distance", "time"), data[:, None], {"time": (times, None, 0), "distance": (w.dists(), "m", 1e-6)},
              {"data_type": mode, "data_units": "microstrain" if mode == "strain" else "celsius", "data_category": "DSS", "instrument_id": path.name.split("_")[0], "average": 12.0})
    return Made("febus_g1_csv", "1", path, [exp], ranged=(), named=True)


@maker("sentek")
def sentek(rng, path, big=False):
    w = World(rng, big, min_d=9, rates=(1, 2, 4, 8, 16, 32, 64), res=1_000_000)
    n_t = w.n_d + 2 + int(rng.integers(0, 30))
    n_d = w.n_d
    rate_flag = int(rng.integers(0, 2))
    path = path.with_name(f"Shot0{int(rng.integers(9))}_" + pd.Timestamp(w.start).strftime("%Y%m%d%H%M%S") + f"{w.start // 1_000_000 % 1000:03d}.das")
    dx, off = float(_pick(rng, (0.25, 0.5, 1.0, 2.0))), float(_pick(rng, (0.0, 0.5, -1.0, 0.25)))
    d0 = float(_pick(rng, (0.0, 8.0, 100.5)))
    head = np.zeros(n_t, dtype="f4")
    head[:6] = n_d, n_t, 1e6, rate_flag, 0, 1
    head[6], head[n_d - 1], head[n_d], head[n_t - 1] = d0, d0 + n_d * dx, off, off + n_t / w.rate
    data = w.data((n_d, n_t), "f4")
    path.write_bytes(head.tobytes() + data.T.tobytes())
    times = w.times(n=n_t, start=w.start // 1_000_000 * 1_000_000 + int(off * NS))
    exp = Exp(("distance", "time"), data, {"time": (times, None, 1000 + 80 * n_t), "distance": (w.dists(n=n_d, d0=d0, dx=dx), None, 1e-4)}, {"data_type": "strain_rate" if rate_flag else "strain"})
    return Made("sentek", "5", path, [exp], named=True)


_SINTELA = np.dtype([("sync_word", "<u4"), ("header_size", "<u4"), ("version", "<u4"), ("sample_count", "<u8"), ("start_time_ns", "<u8"), ("num_channels", "<u4"), ("num_samples", "<u4"),
                     ("sample_rate", "<f4"), ("channel_spacing", "<f4"), ("gauge_length", "<f4"), ("trigger", "<u4"), ("start_channel", "<u4"), ("channel_step", "<u4"),
                     ("gps_pps_time", "<u4"), ("gps_pps_sample_offset", "<i4"), ("gps_status", "<u4"), ("flags", "<u1", (4,)), ("data_type", "<u1"), ("demod_data_type", "<u1"),
                     ("unused", "<u2"), ("trigger_offsets", "<u2", (8,))])


@maker("Sintela_Binary")
def sintela(rng, path, big=False):
    w = World(rng, big, rates=(1, 2, 4, 10, 50, 100, 500, 1000))
    packets, per = int(rng.integers(1, 6)), max(1, w.n_t // 3)
    dx, start_ch, ch_step = float(_pick(rng, (0.25, 0.5, 1.0, 2.0))), int(rng.integers(0, 50)), int(rng.integers(1, 4))
    kind = int(rng.integers(0, 5))
    data = w.data((packets * per, w.n_d), "f4")
    blob = b""
    for num in range(packets):
        head = np.zeros((), _SINTELA)
        head["sync_word"], head["header_size"], head["version"] = 287454020, _SINTELA.itemsize, 3
        head["sample_count"], head["start_time_ns"] = num * per, w.start + num * per * w.step
        head["num_channels"], head["num_samples"], head["sample_rate"] = w.n_d, per, w.rate
        head["channel_spacing"], head["gauge_length"], head["start_channel"], head["channel_step"] = dx, 8.0, start_ch, ch_step
        head["data_type"], head["gps_status"] = kind, 3
        blob += head.tobytes() + data[num * per: (num + 1) * per].tobytes()
    path.write_bytes(blob)
    kinds = [("phase", "radians"), ("phase_difference", "radians"), ("phase_rate", "radians/s"), ("strain", "microstrain"), ("strain_rate", "microstrain/s")]
    exp = Exp(("time", "distance"), data, {"time": (w.times(n=len(data)), None, 0), "distance": ((start_ch + np.arange(w.n_d) * ch_step) * dx, "m", 1e-5)},
              {"data_type": kinds[kind][0], "data_units": kinds[kind][1], "gauge_length": 8.0, "gps_status": 3})
    return Made("Sintela_Binary", "3", path, [exp])


def _sor_block(name, payload):
    return name, name.encode() + b"\0" + payload


@maker("SR4731")
def sr4731(rng, path, big=False):
    w = World(rng, big)
    n = 300_000 if big else int(rng.integers(2, 200))
    raw = (np.arange(n) * 37 % 60000).astype("<u2")
    scale = int(_pick(rng, (1000, 500, 1)))
    stamp = w.start // NS
    spacing, index = int(rng.integers(1, 5000)), int(rng.integers(140000, 150000))
    fixed = bytearray(60)
    struct.pack_into("<I", fixed, 0, stamp)
    fixed[4:6] = b"km"
    struct.pack_into("<H", fixed, 6, 15500)
    struct.pack_into("<I", fixed, 20, spacing)
    struct.pack_into("<I", fixed, 24, n)
    struct.pack_into("<I", fixed, 28, index)
    struct.pack_into("<I", fixed, 40, 1000)
    pts = struct.pack("<IHIH", n, 1, n, scale) + raw.tobytes()
    blocks = [_sor_block("GenParams", b"EN\0cable\0"), _sor_block("SupParams", b"Acme\0M1\0S9\0"), _sor_block("FxdParams", bytes(fixed)), _sor_block("DataPts", pts), _sor_block("Cksum", b"\0\0")]
    if rng.random() < 0.3:
        blocks.insert(int(rng.integers(0, 4)), _sor_block("KeyEvents", b"\1\2\3"))
    entries = b"".join(name.encode() + b"\0" + struct.pack("<HI", 200, len(raw_)) for name, raw_ in blocks)
    head_size = 4 + 8 + len(entries)
    path.write_bytes(b"Map\0" + struct.pack("<HIH", 200, head_size, len(blocks) + 1) + entries + b"".join(x for _, x in blocks))
    dx = spacing * 1e-8 * 0.299792458 / (index * 1e-5) * 1000
    data = (raw.max() - raw.astype(float)) * scale / 1e6
    exp = Exp(("time", "distance"), data[None], {"time": (np.array([stamp * NS], dtype="datetime64[ns]"), None, 0), "distance": (np.arange(n) * dx, "m", 1e-6 * n * dx)},
              {"data_type": "otdr", "data_units": "dB", "instrument_id": "Acme-M1-S9", "trace_count": 1, "sample_scale": scale})
    return Made("SR4731", "200", path, [exp])


def _tdms_str(text):
    return struct.pack("<i", len(text)) + text.encode()


@maker("TDMS")
def tdms(rng, path, big=False):
    w = World(rng, big, res=1000, rates=(1, 2, 4, 10, 50, 100, 500, 1000), min_t=4)
    dtype, code = _pick(rng, (("i2", 3 - 1), ("f4", 9)))
    chunk = int(rng.integers(1, w.n_t + 1))
    mult = 1.0
    dx = float(_pick(rng, (0.25, 0.5, 1.0, 2.0)))
    stamp = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=w.start // 1000)
    delta = stamp - datetime.datetime(1904, 1, 1)
    secs, frac = delta.days * 86400 + delta.seconds, int(round(delta.microseconds / 1e6 * 2**64))
    props = [("SamplingFrequency[Hz]", 10, struct.pack("<d", w.rate)), ("GPSTimeStamp", 68, struct.pack("<Qq", frac, secs)), ("Fibre Length Multiplier", 10, struct.pack("<d", mult)),
             ("MeasureLength[m]", 10, struct.pack("<d", w.n_d * dx)), ("StartPosition[m]", 10, struct.pack("<d", w.d0)), ("SpatialResolution[m]", 10, struct.pack("<d", dx)),
             ("SystemInfomation.Devices0.SerialNum", 32, _tdms_str("tdms-1")), ("station", 32, _tdms_str("stn")), ("flag", 33, struct.pack("<?", True)), ("num", 5, struct.pack("<B", 200))]
    meta = struct.pack("<i", w.n_d + 2) + _tdms_str("/") + struct.pack("<ii", -1, len(props))
    for num in rng.permutation(len(props)):
        name, typ, val = props[num]
        meta += _tdms_str(name) + struct.pack("<i", typ) + val
    meta += _tdms_str("/'M'") + struct.pack("<ii", -1, 0)
    for ch in range(w.n_d):
        index = struct.pack("<iiiQ", 20, code, 1, chunk) if ch == 0 else struct.pack("<i", 0)
        meta += _tdms_str(f"/'M'/'{ch}'") + index + struct.pack("<i", 0)
    data = w.data((w.n_t, w.n_d), dtype)
    interleaved = rng.random() < 0.3
    if interleaved:
        blob = data.tobytes()
    else:  # chunks of consecutive values of each channel
        blob = b"".join(np.ascontiguousarray(data[b: b + chunk].T).tobytes() for b in range(0, w.n_t, chunk))
    toc = 2 | 4 | 8 | (32 if interleaved else 0)
    lead = b"TDSm" + struct.pack("<iiQQ", toc, 4713, len(meta) + len(blob), len(meta))
    path.write_bytes(lead + meta + blob)
    exp = Exp(("time", "distance"), data, {"time": (w.times(), "s", 0), "distance": (w.dists(dx=dx), "m", 1e-6)}, {"instrument_id": "tdms-1", "station": "stn", "data_type": "strain_rate"})
    return Made("TDMS", "4713", path, [exp])


@maker("segy")
def segy(rng, path, big=False):
    import segyio

    w = World(rng, big, res=NS, rates=(50, 100, 250, 500, 1000, 2000, 4000))
    data = w.data((w.n_t, w.n_d), "f4")
    spec = segyio.spec()
    spec.format, spec.samples, spec.tracecount, spec.endian = 5, np.arange(w.n_t), w.n_d, "big"
    version = _pick(rng, ((0, 0), (1, 0), (2, 0), (2, 1)))
    stamp = pd.Timestamp(w.start)
    tf = segyio.TraceField
    with segyio.create(str(path), spec) as f:
        f.bin.update({segyio.BinField.Samples: w.n_t, segyio.BinField.Interval: w.step // 1000, segyio.BinField.SEGYRevision: version[0],
                      segyio.BinField.SEGYRevisionMinor: version[1]})
        for num in range(w.n_d):
            f.header[num] = {tf.YearDataRecorded: stamp.year, tf.DayOfYear: stamp.day_of_year, tf.HourOfDay: stamp.hour, tf.MinuteOfHour: stamp.minute,
                             tf.SecondOfMinute: stamp.second, tf.TRACE_SAMPLE_INTERVAL: w.step // 1000, tf.TRACE_SAMPLE_COUNT: w.n_t}
            f.trace[num] = np.ascontiguousarray(data[:, num])
    exp = Exp(("time", "channel"), data, {"time": (w.times(), None, 0), "channel": (np.arange(w.n_d), None, 0)}, {})
    return Made("segy", f"{version[0]}.{version[1]}", path, [exp], ranged=("time", "channel"))


_XML = """<?xml version="1.0"?>
<Metadata><FileFormat>raw</FileFormat><DateTime>{start}</DateTime><DasInterrogatorSerial><Das0>{serial}</Das0></DasInterrogatorSerial>
<GaugeLengthM>{gauge}</GaugeLengthM><PulseWidthNs>{pulse}</PulseWidthNs><DataType>{dtype}</DataType><NumberOfLasers>1</NumberOfLasers>
<ITUChannels><Laser1>33</Laser1></ITUChannels><OriginalTemporalSamplingRate>{rate}</OriginalTemporalSamplingRate>
<OutputTemporalSamplingRate>{rate}</OutputTemporalSamplingRate><OriginalSpatialSamplingInterval>{dx}</OriginalSpatialSamplingInterval>
<Units>m</Units><Zones><Zone1><StartChannel>{c0}</StartChannel><EndChannel>{c1}</EndChannel><Stride>1</Stride><NumberOfChannels>{n_d}</NumberOfChannels></Zone1></Zones>
<NumberOfChannels>{n_d}</NumberOfChannels><NumberOfFrames>{n_t}</NumberOfFrames><UseRelativeStrain>false</UseRelativeStrain><TransposedData>false</TransposedData></Metadata>
"""


@maker("XMLBinary")
def xml_binary(rng, path, big=False):
    w = World(rng, big, res=1000, rates=(1, 2, 4, 10, 50, 100, 500, 1000))
    dtype = _pick(rng, (("int16", "i2"), ("float32", "f4"), ("float64", "f8")))
    path.mkdir()
    c0, gauge, pulse = int(rng.integers(1, 30)), float(rng.integers(1, 40)), float(rng.integers(1, 90))
    (path / "metadata.xml").write_text(_XML.format(start=iso(w.start, 6), serial="iu7", gauge=gauge, pulse=pulse, dtype=dtype[0], rate=w.rate, dx=w.dx, c0=c0,
                                                  c1=c0 + w.n_d - 1, n_d=w.n_d, n_t=w.n_t))
    out = []
    for num in range(int(rng.integers(1, 4))):
        start = w.start + num * w.n_t * w.step
        data = w.data((w.n_t, w.n_d), dtype[1]) + num
        data = data.astype(dtype[1])
        stamp = iso(start, 6).replace("-", "").replace(":", "").replace(".", "_")
        (path / f"DAS_{stamp}Z.raw").write_bytes(data.tobytes())
        out.append(Exp(("time", "distance"), data, {"time": (w.times(start=start // 1000 * 1000), "s", 0), "distance": ((c0 - 1 + np.arange(w.n_d)) * w.dx, "m", 1e-6)},
                       {"gauge_length": gauge, "pulse_width_ns": pulse, "instrument_id": "iu7", "zone_name": "Zone1"}))
    return Made("XMLBinary", "1", path, out, named=True)


EXT = {"TDMS": ".tdms", "SR4731": ".sor", "Sintela_Binary": ".raw", "segy": ".sgy", "DASVader": ".jld2", "XMLBinary": "", "febus_g1_csv": ".bsl", "sentek": ".das"}


@contextlib.contextmanager
def folder():
    """A scratch directory removed afterwards."""
    from vf import boot

    path = boot.scratch_dir("f_")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def make(name, rng, folder, stem="file", big=False):
    """Write one file of a format; returns a Made."""
    path = Path(folder) / (stem + EXT.get(name, ".h5"))
    return MAKERS[name](rng, path, big=big)
