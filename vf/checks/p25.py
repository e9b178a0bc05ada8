"""P25: requests which can't be honoured are refused, and leave everything as it was."""
from __future__ import annotations

import os
import warnings

import numpy as np
import pandas as pd

import dascore as dc
from dascore.core import get_coord
from dascore.units import get_quantity, percent, s
from vf import files, gen, mon
from vf.core import describe, family

describe(
    "P25",
    "Random patches (dimensions in any order, attached coordinates, 2 or 3 dimensions, float32 and float64) and spools are asked for things which cannot be done: names which "
    "are no dimension or coordinate (made up, or of a coordinate where a dimension is needed), quantities of other dimensions, even sampling of uneven labels, malformed and out of "
    "range parameters, inconsistent shapes, and requests of several parts of which one is bad. Monitors require an error, that the patch or spool is as it was before, and that a "
    "later valid operation gives what it gave before; the same call with a valid name is a control. Valid selections with nothing in them must give an empty patch of the same "
    "kind (other dimensions, labels, data type and attributes untouched). Non-trivial: distinct by request, kind of bad argument, dimension order, and type of error.",
    [
        "any exception counts as a refusal, its type is only recorded",
        "quantities without dimension, percentages, null (open) limits, reversed limits, windows longer than the data (of the filters which define them), and new names for "
        "append_dims, drop_coords and fillna values are legitimate requests",
        "spools are lazy: a bad request may be refused when the first patch is loaded",
    ],
)

WORDS = ("bogus", "tim", "Time", "distance_", "", "d time", "ft_time", "lag_time")
ALSO_COORDS = {"select", "select_s", "order", "rename", "set_units", "convert", "sort", "snap", "coord", "array", "checkc", "set_dims2", "update_coords", "upd2"}
BAD_UNITS = ("kg", "1/m", "kelvin", "A", "mol/s", "m**3", "candela")


def named_kw(p, d, Q):
    return {
        "rolling": lambda: p.rolling(**{d: 0.1}).mean(),
        "median_filter": lambda: p.median_filter(**{d: 0.1}),
        "hampel": lambda: p.hampel_filter(**{d: 0.1}),
        "savgol": lambda: p.savgol_filter(polyorder=2, **{d: 0.1}),
        "gaussian": lambda: p.gaussian_filter(**{d: 0.1}),
        "kurtosis": lambda: p.kurtosis(**{d: 0.1}),
        "stalta": lambda: p.stalta(**{d: (0.05, 0.2)}),
        "fbe": lambda: p.fbe(window=0.1, **{d: (5, 20)}),
        "wiener": lambda: p.wiener_filter(**{d: 5}, samples=True),
        "taper": lambda: p.taper(**{d: 0.1}),
        "taper_range": lambda: p.taper_range(**{d: (0.1, 0.2)}, relative=True),
        "pad": lambda: p.pad(**{d: 3}, samples=True),
        "pad_fft": lambda: p.pad(**{d: "fft"}),
        "resample": lambda: p.resample(**{d: 0.02}),
        "decimate": lambda: p.decimate(**{d: 2}),
        "decimate_none": lambda: p.decimate(**{d: 2}, filter_type=None),
        "interpolate": lambda: p.interpolate(**{d: np.array([1, 2.0])}),
        "roll": lambda: p.roll(**{d: 3}, samples=True),
        "stft": lambda: p.stft(**{d: 0.2}),
        "correlate": lambda: p.correlate(**{d: 1}, samples=True),
        "line_mute": lambda: p.line_mute(**{d: (0.1, 0.2)}),
        "align": lambda: p.align_to_coord(**{d: "quality"}),
        "align2": lambda: p.align_to_coord(time=d),
        "pass_filter": lambda: p.pass_filter(**{d: (5, 20)}),
        "notch": lambda: p.notch_filter(q=10, **{d: 10}),
        "whiten": lambda: p.whiten(**{d: (5, 20)}, smooth_size=3),
        "whiten0": lambda: p.whiten(**{d: None}, smooth_size=3),
        "select": lambda: p.select(**{d: (1, 2)}),
        "select_s": lambda: p.select(**{d: (1, 2)}, samples=True),
        "order": lambda: p.order(**{d: [1, 2]}, samples=True),
        "update_coords": lambda: p.update_coords(**{d: (d, np.arange(60.0))}),
        "upd2": lambda: p.update_coords(new=(d, np.arange(60.0))),
        "rename": lambda: p.rename_coords(**{d: "other"}),
        "set_dims": lambda: p.set_dims(**{d: "note"}),
        "set_dims2": lambda: p.set_dims(time=d),
        "set_units": lambda: p.set_units(**{d: "m"}),
        "convert": lambda: p.convert_units(**{d: "s"}),
    }


def named_arg(p, d, Q):
    return {
        "slope_filter": lambda: p.slope_filter(filt=np.array([1, 2, 3, 4.0]), dims=("distance", d)),
        "slope_mute": lambda: p.slope_mute((1, 2), dims=("distance", d)),
        "dft2": lambda: p.dft(["time", d]),
        "real": lambda: p.dft("time", real=d),
        "aggregate": lambda: p.aggregate(d),
        "aggregate2": lambda: p.aggregate(["time", d]),
        "mean": lambda: p.mean(d),
        "dft": lambda: p.dft(d),
        "rfft": lambda: p.rfft(d),
        "idft": lambda: p.dft("time").idft(d),
        "integrate": lambda: p.integrate(d),
        "integratedef": lambda: p.integrate(d, definite=True),
        "integ2": lambda: p.integrate(["time", d]),
        "diff": lambda: p.differentiate(d),
        "diff2": lambda: p.differentiate(["time", d]),
        "demean": lambda: p.demean(d),
        "demedian": lambda: p.demedian(d),
        "detrend": lambda: p.detrend(d),
        "dropna": lambda: p.dropna(d),
        "envelope": lambda: p.envelope(d),
        "hilbert": lambda: p.hilbert(d),
        "flip": lambda: p.flip(d),
        "flip2": lambda: p.flip("time", d),
        "flipF": lambda: p.flip("time", d, flip_coords=False),
        "normalize": lambda: p.normalize(d),
        "standardize": lambda: p.standardize(d),
        "sobel": lambda: p.sobel_filter(d),
        "spectrogram": lambda: p.spectrogram(d),
        "pws": lambda: p.phase_weighted_stack(d),
        "pwst": lambda: p.phase_weighted_stack("distance", d),
        "sort": lambda: p.sort_coords(d),
        "snap": lambda: p.snap_coords(d),
        "squeeze": lambda: p.squeeze(d),
        "transpose": lambda: p.transpose("time", d),
        "transpose2": lambda: p.transpose("time", d, "distance"),
        "transpose3": lambda: p.transpose("time", d, ...),
        "corr_shift": lambda: p.correlate_shift(d),
        "axis": lambda: p.get_axis(d),
        "coord": lambda: p.get_coord(d),
        "array": lambda: p.get_array(d),
        "check": lambda: p.check_coords(dims=(d,)),
        "checkc": lambda: p.check_coords(coords=(d,)),
        "wf": lambda: p.viz.wiggle(d),
        "sg": lambda: p.viz.spectrogram(dim=d),
    }


def unit_requests(p, q):
    return {
        "rolling": lambda: p.rolling(time=q).mean(),
        "rollstep": lambda: p.rolling(time=0.1, step=q).mean(),
        "rolling_overlap": lambda: p.rolling(time=0.1, overlap=q).mean(),
        "median_filter": lambda: p.median_filter(time=q),
        "hampel": lambda: p.hampel_filter(time=q),
        "savgol": lambda: p.savgol_filter(polyorder=2, time=q),
        "gaussian": lambda: p.gaussian_filter(time=q),
        "kurtosis": lambda: p.kurtosis(time=q),
        "stalta": lambda: p.stalta(time=(q, 5 * q)),
        "fbe": lambda: p.fbe(window=q, time=(5, 20)),
        "fbe2": lambda: p.fbe(window=0.1, time=(q, 2 * q)),
        "wiener": lambda: p.wiener_filter(time=q),
        "taper": lambda: p.taper(time=q),
        "taper2": lambda: p.taper(time=(q, 0.1)),
        "taper_range": lambda: p.taper_range(time=(q, 2 * q)),
        "taper_ranger": lambda: p.taper_range(time=(q, 2 * q), relative=True),
        "pad": lambda: p.pad(time=q),
        "pad2": lambda: p.pad(time=(q, q)),
        "resample": lambda: p.resample(time=q),
        "interpolate": lambda: p.interpolate(distance=np.array([11, 12]) * q),
        "roll": lambda: p.roll(time=q),
        "stft": lambda: p.stft(time=q),
        "stfto": lambda: p.stft(time=0.2, overlap=q),
        "correlate": lambda: p.correlate(distance=11 * q),
        "line_mute": lambda: p.line_mute(time=(q, 2 * q)),
        "pass": lambda: p.pass_filter(time=(5 * q, 20 * q)),
        "pass1": lambda: p.pass_filter(time=(5 * q, ...)),
        "notch": lambda: p.notch_filter(q=10, time=10 * q),
        "whiten": lambda: p.whiten(time=(5 * q, 20 * q), smooth_size=3),
        "whiten2": lambda: p.whiten(time=(5, 20), smooth_size=3 * q),
        "select": lambda: p.select(time=(q, 2 * q)),
        "selectd": lambda: p.select(distance=(q, 2 * q)),
        "selectd1": lambda: p.select(distance=(q, None)),
        "selrel": lambda: p.select(time=(q, 2 * q), relative=True),
        "order": lambda: p.order(distance=[10, 12] * q),
        "convert": lambda: p.convert_units(time=q.units),
        "convertd": lambda: p.convert_units(distance=q.units),
        "convdata": lambda: p.convert_units(q.units),
        "tau": lambda: p.tau_p(np.array([1.0, 2]) * q),
        "disp": lambda: p.dispersion_phase_shift(np.array([1.0, 2]) * q),
        "slope": lambda: p.slope_filter(filt=np.array([1, 2, 3, 4.0]) * q),
        "add": lambda: p + q,
        "sub": lambda: p - q,
        "addp": lambda: p + p.set_units(q.units),
        "max": lambda: p.maximum(q),
        "gt": lambda: np.greater(p, q),
        "eq": lambda: np.arctan2(p, q),
        "rad": lambda: p.set_units("radians").radians_to_strain(gauge_length=q),
        "next": lambda: p.get_coord("time").get_next_index(q),
        "coordsel": lambda: p.get_coord("distance").select((q, 2 * q)),
        "count": lambda: p.get_coord("time").get_sample_count(q),
        "updc": lambda: p.update_coords(time_step=q),
        "updmin": lambda: p.update_coords(time_min=q),
        "updd": lambda: p.update_coords(distance_min=q),
        "gl": lambda: p.get_coord("distance").update_limits(q),
        "spool": lambda: dc.spool(p).select(time=(q, 2 * q))[0],
        "spoold": lambda: dc.spool(p).select(distance=(q, 2 * q))[0],
        "chunk": lambda: dc.spool(p).chunk(time=q)[0],
        "chunko": lambda: dc.spool(p).chunk(time=0.2, overlap=q)[0],
        "chunkt": lambda: dc.spool(p).chunk(time=None, tolerance=q)[0],
    }


def sampled(p):
    return {
        "rolling": lambda: p.rolling(time=0.1).mean(),
        "median": lambda: p.median_filter(time=0.1),
        "hampel": lambda: p.hampel_filter(time=0.1),
        "savgol": lambda: p.savgol_filter(polyorder=2, time=0.1),
        "gauss": lambda: p.gaussian_filter(time=0.1),
        "kurt": lambda: p.kurtosis(time=0.1),
        "stalta": lambda: p.stalta(time=(0.05, 0.2)),
        "fbe": lambda: p.fbe(window=0.1, time=(1, 2)),
        "pass": lambda: p.pass_filter(time=(1, 2)),
        "notch": lambda: p.notch_filter(q=5, time=3),
        "whiten": lambda: p.whiten(time=(1, 2), smooth_size=3),
        "dft": lambda: p.dft("time"),
        "rfft": lambda: p.rfft("time"),
        "stft": lambda: p.stft(time=0.2),
        "spec": lambda: p.spectrogram("time"),
        "hilbert": lambda: p.hilbert("time"),
        "env": lambda: p.envelope("time"),
        "pws": lambda: p.phase_weighted_stack("distance"),
        "resample": lambda: p.resample(time=0.02),
        "resample_s": lambda: p.resample(time=20, samples=True),
        "corr": lambda: p.correlate(distance=1, samples=True),
        "cs": lambda: p.correlate_shift("time"),
        "tau": lambda: p.tau_p(np.array([100.0, 200])),
        "disp": lambda: p.dispersion_phase_shift(np.array([100.0, 200])),
        "slope": lambda: p.slope_filter(np.array([1, 2, 3, 4.0])),
        "strain": lambda: p.velocity_to_strain_rate(),
        "straine": lambda: p.velocity_to_strain_rate_edgeless(),
        "pad": lambda: p.pad(time=0.1),
        "roll": lambda: p.roll(time=0.1),
        "wiener": lambda: p.wiener_filter(time=0.1),
        "idft": lambda: p.rename_coords(time="ft_time").idft(),
        "even": lambda: p.get_coord("time", require_evenly_sampled=True),
    }


def malformed(p):
    G = np.array([1, 2, 3, 4.0])
    return {
        "corners0": lambda: p.pass_filter(time=(1, 10), corners=0),
        "corners-": lambda: p.pass_filter(time=(1, 10), corners=-2),
        "cornersf": lambda: p.pass_filter(time=(1, 10), corners=2.5),
        "pass_rev": lambda: p.pass_filter(time=(10, 1)),
        "pass_eq": lambda: p.pass_filter(time=(5, 5)),
        "pass_neg": lambda: p.pass_filter(time=(-5, 5)),
        "pass0": lambda: p.pass_filter(time=(0, 5)),
        "pass_nyq": lambda: p.pass_filter(time=(1, 51)),
        "pass_nyq2": lambda: p.pass_filter(time=(1, 50)),
        "pass_none": lambda: p.pass_filter(time=(None, None)),
        "pass_scalar": lambda: p.pass_filter(time=5),
        "pass3": lambda: p.pass_filter(time=(1, 2, 3)),
        "pass_two": lambda: p.pass_filter(time=(1, 2), distance=(0.01, 0.1)),
        "pass_no": lambda: p.pass_filter(),
        "pass_str": lambda: p.pass_filter(time=("a", "b")),
        "notch_q0": lambda: p.notch_filter(q=0, time=10),
        "notch_q-": lambda: p.notch_filter(q=-3, time=10),
        "notch_nyq": lambda: p.notch_filter(q=10, time=60),
        "notch0": lambda: p.notch_filter(q=10, time=0),
        "notch-": lambda: p.notch_filter(q=10, time=-5),
        "notch_no": lambda: p.notch_filter(q=10),
        "med0": lambda: p.median_filter(time=0),
        "med-": lambda: p.median_filter(time=-0.1),
        "medmode": lambda: p.median_filter(time=0.05, mode="bogus"),
        "med0s": lambda: p.median_filter(time=0, samples=True),
        "medfs": lambda: p.median_filter(time=3.5, samples=True),
        "mednone": lambda: p.median_filter(),
        "mednan": lambda: p.median_filter(time=np.nan),
        "hamp0": lambda: p.hampel_filter(time=0),
        "hamp-": lambda: p.hampel_filter(time=-0.1),
        "hampt0": lambda: p.hampel_filter(time=0.1, threshold=0),
        "hampt-": lambda: p.hampel_filter(time=0.1, threshold=-1),
        "hamptnan": lambda: p.hampel_filter(time=0.1, threshold=np.nan),
        "hampbig": lambda: p.hampel_filter(time=5.0),
        "hamp1": lambda: p.hampel_filter(time=1, samples=True),
        "hampno": lambda: p.hampel_filter(),
        "savorder": lambda: p.savgol_filter(polyorder=7, time=5, samples=True),
        "savneg": lambda: p.savgol_filter(polyorder=-1, time=5, samples=True),
        "sav0": lambda: p.savgol_filter(polyorder=2, time=0),
        "savbig": lambda: p.savgol_filter(polyorder=2, time=101, samples=True),
        "savmode": lambda: p.savgol_filter(polyorder=2, time=5, samples=True, mode="bogus"),
        "sav-": lambda: p.savgol_filter(polyorder=2, time=-5, samples=True),
        "gauss-": lambda: p.gaussian_filter(time=-0.1),
        "gausstr": lambda: p.gaussian_filter(time=0.1, truncate=-1),
        "gaussmode": lambda: p.gaussian_filter(time=0.1, mode="x"),
        "gaussno": lambda: p.gaussian_filter(),
        "sobmode": lambda: p.sobel_filter("time", mode="x"),
        "slope3": lambda: p.slope_filter(G[:3]),
        "slopeuns": lambda: p.slope_filter(G[::-1]),
        "slopeneg": lambda: p.slope_filter(-G),
        "slopedims": lambda: p.slope_filter(G, dims=("time", "time")),
        "slope1dim": lambda: p.slope_filter(G, dims=("time",)),
        "slopenan": lambda: p.slope_filter(np.array([1, np.nan, 3, 4])),
        "wien0": lambda: p.wiener_filter(time=0),
        "wien-": lambda: p.wiener_filter(time=-0.1),
        "wiennoise": lambda: p.wiener_filter(time=0.1, noise=-1),
        "wienno": lambda: p.wiener_filter(),
        "roll0": lambda: p.rolling(time=0).mean(),
        "roll-": lambda: p.rolling(time=-0.1).mean(),
        "rollbig": lambda: p.rolling(time=5.0).mean(),
        "rollstep0": lambda: p.rolling(time=0.1, step=0).mean(),
        "rollstep-": lambda: p.rolling(time=0.1, step=-0.1).mean(),
        "rollstepbig": lambda: p.rolling(time=0.1, step=50.0).mean(),
        "rolleng": lambda: p.rolling(time=0.1, engine="x").mean(),
        "rollovbig": lambda: p.rolling(time=0.1, overlap=0.2).mean(),
        "rollov-": lambda: p.rolling(time=0.1, overlap=-0.05).mean(),
        "rollboth": lambda: p.rolling(time=0.1, overlap=0.05, step=0.05).mean(),
        "rollno": lambda: p.rolling().mean(),
        "rolltwo": lambda: p.rolling(time=0.1, distance=4).mean(),
        "roll0s": lambda: p.rolling(time=0, samples=True).mean(),
        "rolls61": lambda: p.rolling(time=99, samples=True).mean(),
        "rollfs": lambda: p.rolling(time=2.5, samples=True).mean(),
        "taper-": lambda: p.taper(time=-0.1),
        "taper1.5": lambda: p.taper(time=1.5),
        "taper2": lambda: p.taper(time=(0.7, 0.7)),
        "taperwin": lambda: p.taper("bogus", time=0.1),
        "taper3": lambda: p.taper(time=(0.1, 0.1, 0.1)),
        "taperno": lambda: p.taper(),
        "tapernan": lambda: p.taper(time=np.nan),
        "tapersec": lambda: p.taper(time=5 * s),
        "taper-s": lambda: p.taper(time=-0.1 * s),
        "taperpct": lambda: p.taper(time=150 * percent),
        "trng1": lambda: p.taper_range(time=0.1, relative=True),
        "trng3": lambda: p.taper_range(time=(0.1, 0.2, 0.3), relative=True),
        "trnguns": lambda: p.taper_range(time=(0.4, 0.1), relative=True),
        "trngout": lambda: p.taper_range(time=(5, 6), relative=True),
        "trngwin": lambda: p.taper_range("x", time=(0.1, 0.2), relative=True),
        "trng4uns": lambda: p.taper_range(time=(0.1, 0.3, 0.2, 0.4), relative=True),
        "trngno": lambda: p.taper_range(),
        "lm1": lambda: p.line_mute(time=0.1),
        "lm3": lambda: p.line_mute(time=(0.1, 0.2, 0.3)),
        "lmsm-": lambda: p.line_mute(time=(0.1, 0.2), smooth=-0.1),
        "lmsm2": lambda: p.line_mute(time=(0.1, 0.2), smooth=1.5),
        "lmno": lambda: p.line_mute(),
        "sm1": lambda: p.slope_mute((1,)),
        "sm3": lambda: p.slope_mute((1, 2, 3)),
        "sm-": lambda: p.slope_mute((-1, 2)),
        "smdims": lambda: p.slope_mute((1, 2), dims=("time", "time")),
        "smsm": lambda: p.slope_mute((1, 2), smooth=-1),
        "smnan": lambda: p.slope_mute((np.nan, 2)),
        "res0": lambda: p.resample(time=0),
        "res-": lambda: p.resample(time=-0.02),
        "resbig": lambda: p.resample(time=100.0),
        "ress0": lambda: p.resample(time=0, samples=True),
        "ress-": lambda: p.resample(time=-5, samples=True),
        "ressf": lambda: p.resample(time=5.5, samples=True),
        "resno": lambda: p.resample(),
        "restwo": lambda: p.resample(time=0.02, distance=4),
        "resnan": lambda: p.resample(time=np.nan),
        "dec0": lambda: p.decimate(time=0),
        "dec-": lambda: p.decimate(time=-2),
        "decf": lambda: p.decimate(time=2.5),
        "dec0n": lambda: p.decimate(time=0, filter_type=None),
        "dec-n": lambda: p.decimate(time=-2, filter_type=None),
        "decfn": lambda: p.decimate(time=2.5, filter_type=None),
        "decft": lambda: p.decimate(time=2, filter_type="x"),
        "decno": lambda: p.decimate(),
        "decnan": lambda: p.decimate(time=np.nan, filter_type=None),
        "intkind": lambda: p.interpolate(distance=[11, 12.0], kind="bogus"),
        "intno": lambda: p.interpolate(),
        "int2d": lambda: p.interpolate(distance=np.ones((2, 2)) * 11),
        "intk-": lambda: p.interpolate(distance=[11, 12.0], kind=-1),
        "intscalar": lambda: p.interpolate(distance=11.0),
        "padmode": lambda: p.pad(time=1, mode="bogus"),
        "pad-": lambda: p.pad(time=-3, samples=True),
        "pad-2": lambda: p.pad(time=(-3, 3), samples=True),
        "pad3": lambda: p.pad(time=(1, 2, 3), samples=True),
        "padstr": lambda: p.pad(time="bogus"),
        "padno": lambda: p.pad(),
        "padfs": lambda: p.pad(time=2.5, samples=True),
        "padsec-": lambda: p.pad(time=-0.1),
        "rollno2": lambda: p.roll(),
        "rollfs2": lambda: p.roll(time=2.5, samples=True),
        "stft0": lambda: p.stft(time=0),
        "stft-": lambda: p.stft(time=-0.1),
        "stftbig": lambda: p.stft(time=10.0),
        "stftwin": lambda: p.stft("bogus", time=0.2),
        "stftov": lambda: p.stft(time=0.2, overlap=0.3),
        "stftov-": lambda: p.stft(time=0.2, overlap=-0.1),
        "stftno": lambda: p.stft(),
        "stftovs": lambda: p.stft(time=20, overlap=20, samples=True),
        "istft": lambda: p.istft(),
        "kurt1": lambda: p.kurtosis(time=1, samples=True),
        "kurt0": lambda: p.kurtosis(time=0),
        "kurt-": lambda: p.kurtosis(time=-0.1),
        "kurtno": lambda: p.kurtosis(),
        "sta_rev": lambda: p.stalta(time=(0.2, 0.1)),
        "sta_eq": lambda: p.stalta(time=(0.1, 0.1)),
        "sta1": lambda: p.stalta(time=0.1),
        "sta-": lambda: p.stalta(time=(-0.1, 0.1)),
        "sta0": lambda: p.stalta(time=(0, 0.1)),
        "stano": lambda: p.stalta(),
        "stanone": lambda: p.stalta(time=(None, 0.1)),
        "stanone2": lambda: p.stalta(time=(0.1, None)),
        "fbew0": lambda: p.fbe(window=0, time=(1, 10)),
        "fbew-": lambda: p.fbe(window=-1, time=(1, 10)),
        "fbebig": lambda: p.fbe(window=100.0, time=(1, 10)),
        "fbestep": lambda: p.fbe(window=0.1, step=-0.1, time=(1, 10)),
        "fbe0": lambda: p.fbe(window=0.1, step=0, time=(1, 10)),
        "whsm0": lambda: p.whiten(time=(1, 10), smooth_size=0),
        "whsm-": lambda: p.whiten(time=(1, 10), smooth_size=-1),
        "whsmbig": lambda: p.whiten(time=(1, 10), smooth_size=100),
        "whwl": lambda: p.whiten(time=(1, 10), water_level=-1),
        "whrev": lambda: p.whiten(time=(10, 1)),
        "wh3": lambda: p.whiten(time=(1, 2, 3)),
        "wh4": lambda: p.whiten(time=(1, 4, 3, 5)),
        "whnyq": lambda: p.whiten(time=(1, 80)),
        "whneg": lambda: p.whiten(time=(-1, 10)),
        "agg": lambda: p.aggregate("time", method="bogus"),
        "aggr": lambda: p.aggregate("time", dim_reduce="bogus"),
        "aggc": lambda: p.aggregate("time", method=3),
        "norm": lambda: p.normalize("time", norm="bogus"),
        "dett": lambda: p.detrend("time", type="bogus"),
        "dropna": lambda: p.dropna("time", how="bogus"),
        "dftout": lambda: p.dft("time", output="bogus"),
        "dftdb": lambda: p.dft("time", db=True),
        "dftdup": lambda: p.dft(["time", "time"]),
        "idft": lambda: p.idft("time"),
        "difford": lambda: p.differentiate("time", order=3),
        "difford0": lambda: p.differentiate("time", order=0),
        "difford-": lambda: p.differentiate("time", order=-2),
        "diffstep0": lambda: p.differentiate("time", step=0),
        "diffstep-": lambda: p.differentiate("time", step=-1),
        "difff": lambda: p.differentiate("time", order=2.5),
        "diffstepbig": lambda: p.differentiate("time", step=100),
        "diffbig": lambda: p.differentiate("time", order=80),
        "sr0": lambda: p.velocity_to_strain_rate(0),
        "sr-": lambda: p.velocity_to_strain_rate(-2),
        "sr3": lambda: p.velocity_to_strain_rate(3),
        "srbig": lambda: p.velocity_to_strain_rate(20),
        "srf": lambda: p.velocity_to_strain_rate(2.5),
        "sre0": lambda: p.velocity_to_strain_rate_edgeless(0),
        "sref": lambda: p.velocity_to_strain_rate_edgeless(1.5),
        "rad0": lambda: p.set_units("radians").radians_to_strain(gauge_length=0),
        "rad-": lambda: p.set_units("radians").radians_to_strain(gauge_length=-1),
        "radnan": lambda: p.set_units("radians").radians_to_strain(gauge_length=np.nan),
        "tau0": lambda: p.tau_p(np.array([0.0, 1])),
        "tau-": lambda: p.tau_p(np.array([-1.0, 1])),
        "tauuns": lambda: p.tau_p(np.array([2.0, 1])),
        "taudup": lambda: p.tau_p(np.array([1.0, 1])),
        "taunan": lambda: p.tau_p(np.array([np.nan, 1])),
        "tauempty": lambda: p.tau_p(np.array([])),
        "tau2d": lambda: p.tau_p(np.array([[1.0, 2]])),
        "disp0": lambda: p.dispersion_phase_shift(np.array([0.0, 1])),
        "dispuns": lambda: p.dispersion_phase_shift(np.array([2.0, 1])),
        "disptau": lambda: p.dispersion_phase_shift(np.array([1.0, 2]), approx_freq=(10, 5)),
        "dispres": lambda: p.dispersion_phase_shift(np.array([1.0, 2]), approx_resolution=-1),
        "dispnyq": lambda: p.dispersion_phase_shift(np.array([1.0, 2]), approx_freq=(1, 60)),
        "dispf1": lambda: p.dispersion_phase_shift(np.array([1.0, 2]), approx_freq=(1,)),
        "dispnan": lambda: p.dispersion_phase_shift(np.array([1.0, np.nan])),
        "dispf3": lambda: p.dispersion_phase_shift(np.array([1.0, 2]), approx_freq=(1, 2, 3)),
        "pwsred": lambda: p.phase_weighted_stack("distance", dim_reduce="bogus"),
    }


def structural(p, p5, t, tmp, odd):
    return {
        "ctor_shape": lambda: dc.Patch(data=np.zeros((3, 4)), coords=dict(a=np.arange(3), b=np.arange(5)), dims=("a", "b")),
        "ctor_dims": lambda: dc.Patch(data=np.zeros((3, 4)), coords=dict(a=np.arange(3), b=np.arange(4)), dims=("a",)),
        "ctor_dims3": lambda: dc.Patch(data=np.zeros((3, 4)), coords=dict(a=np.arange(3), b=np.arange(4)), dims=("a", "b", "c")),
        "ctor_dup": lambda: dc.Patch(data=np.zeros((3, 3)), coords=dict(a=np.arange(3)), dims=("a", "a")),
        "ctor_nodims": lambda: dc.Patch(data=np.zeros((3, 3)), coords=dict(a=np.arange(3), b=np.arange(3))),
        "ctor_cdim": lambda: dc.Patch(data=np.zeros((3,)), coords=dict(a=np.arange(3), c=("zz", np.arange(3))), dims=("a",)),
        "ctor_clen": lambda: dc.Patch(data=np.zeros((3,)), coords=dict(a=np.arange(3), c=("a", np.arange(4))), dims=("a",)),
        "ctor_nocoord": lambda: dc.Patch(data=np.zeros((3,)), dims=("a", "b")),
        "ctor_c2": lambda: dc.Patch(data=np.zeros((3,)), coords=dict(a=np.arange(3), c=("a", np.zeros((3, 2)))), dims=("a",)),
        "new_shape": lambda: p.new(data=np.zeros((2, 3))),
        "new_1d": lambda: p.new(data=np.zeros(480)),
        "new_dims": lambda: p.new(dims=("time", "distance")),
        "upd_shape": lambda: p.update(data=p.data[:3]),
        "newt": lambda: p.new(data=p.data.T),
        "newscalar": lambda: p.new(data=3),
        "uc_len": lambda: p.update_coords(time=t[:5]),
        "uc_dim": lambda: p.update_coords(q=("bogus", t)),
        "uc_2d": lambda: p.update_coords(q=(("distance", "time"), np.zeros((3, 3)))),
        "uc_len2": lambda: p.update_coords(q=("distance", np.zeros(99))),
        "uc_assoc": lambda: p.update_coords(distance=("time", np.zeros(p.shape[1]))),
        "uc_str": lambda: p.update_coords(time="hello"),
        "uc_step": lambda: p.update_coords(time_step="hello"),
        "uc_scalar": lambda: p.update_coords(time=3),
        "uc_minmax": lambda: p.update_coords(time_min=1, time_max=2, time_step=5),
        "uc_step0": lambda: p.update_coords(distance_step=0),
        "rn_exist": lambda: p.rename_coords(time="distance"),
        "rn_exist2": lambda: p.rename_coords(quality="note"),
        "rn_dimq": lambda: p.rename_coords(time="quality"),
        "rn_same": lambda: p.rename_coords(time="x", distance="x"),
        "rn_int": lambda: p.rename_coords(time=3),
        "sd_shape": lambda: p.set_dims(time="quality"),
        "sd_2": lambda: p.set_dims(time="note", distance="note"),
        "tr_dup": lambda: p.transpose("time", "time"),
        "tr_one": lambda: p.transpose("time"),
        "tr_3": lambda: p.transpose("time", "distance", "x"),
        "tr_dots": lambda: p.transpose(..., "time", ...),
        "tr_dup3": lambda: p.transpose("time", "distance", "time"),
        "sq": lambda: p.squeeze("time"),
        "sq2": lambda: p.append_dims("x").squeeze(("x", "time")),
        "flip2": lambda: p.flip("time", "bogus"),
        "flipnd": lambda: p.flip("quality"),
        "sort2": lambda: p.sort_coords("quality", "distance"),
        "sort3": lambda: p.sort_coords("time", "bogus"),
        "snap2": lambda: p.snap_coords("time", "bogus"),
        "get_sorted": lambda: p.get_coord("quality", require_sorted=True),
        "get_even": lambda: p.get_array("quality", require_evenly_sampled=True),
        "where": lambda: p.where(np.ones((3, 3), bool)),
        "whereint": lambda: p.where(np.ones((8, 60))),
        "whereother": lambda: p.where(p.data > 0.5, np.zeros((3, 3))),
        "wherestr": lambda: p.where("x"),
        "fillstr": lambda: p.fillna("x"),
        "full": lambda: p.full(np.zeros((3, 3))),
        "add_shape": lambda: p + np.zeros((3, 3)),
        "add_none": lambda: p + None,
        "add_str": lambda: p + "x",
        "pow_units": lambda: p**p,
        "out": lambda: np.add(p, 1, out=np.zeros((3, 3))),
        "concat": lambda: np.concatenate([p, p]),
        "mbt": lambda: p.make_broadcastable_to((8, 99)),
        "mbt2": lambda: p.make_broadcastable_to((3, 3)),
        "cfd": lambda: p.coords_from_df(pd.DataFrame(dict(bogus=[1, 2, 3], x=[1, 2, 3]))),
        "cfd_two": lambda: p.coords_from_df(pd.DataFrame(dict(distance=[10, 20], time=[1, 2], x=[1, 2]))),
        "cfd_units": lambda: p.coords_from_df(pd.DataFrame(dict(distance=[10, 20.0], x=[1, 2.0])), units=dict(bogus="m")),
        "cfd_udim": lambda: p.coords_from_df(pd.DataFrame(dict(distance=[10, 20.0], x=[1, 2.0])), units=dict(distance="s")),
        "adt": lambda: p.add_distance_to(pd.Series(dict(x=1, y=2))),
        "adt2": lambda: p.update_coords(x=("distance", np.zeros(p.shape[0])), y=("time", np.zeros(p.shape[1]))).add_distance_to(pd.Series(dict(x=1, y=2))),
        "adt3": lambda: p.update_coords(x=("distance", np.zeros(p.shape[0]))).add_distance_to(pd.Series(dict(x=1, zz=2))),
        "adto": lambda: p.update_coords(x=("distance", np.zeros(p.shape[0]))).add_distance_to(pd.Series(dict(x=1)), ord="bogus"),
        "align": lambda: p.align_to_coord(time="quality", mode="bogus"),
        "align2": lambda: p.align_to_coord(time="note"),
        "align3": lambda: p.align_to_coord(time=np.zeros(5)),
        "alno": lambda: p.align_to_coord(),
        "alval": lambda: p.align_to_coord(mode="valid", time=np.linspace(0, 100, 8)),
        "sel3": lambda: p.select(time=(1, 2, 3)),
        "selstr": lambda: p.select(time="bogus"),
        "selstr2": lambda: p.select(time=("a", "b")),
        "selscalar": lambda: p.select(distance=5),
        "selmask": lambda: p.select(distance=np.ones(5, bool)),
        "selsf": lambda: p.select(time=(1.5, 2.5), samples=True),
        "selsarr": lambda: p.select(distance=np.array([1.5, 2]), samples=True),
        "selslice": lambda: p.select(distance=slice(1, 5, 2)),
        "selrel2": lambda: p.select(distance=(0, 1), quality=(0, 1), relative=True),
        "sel_nd": lambda: p.update_coords(g=(("distance", "time"), np.zeros((8, 60)))).select(g=(0, 1)),
        "seltnum": lambda: p.select(time=(None, "2020-13-45")),
        "units": lambda: p.set_units("bogus_unit"),
        "units2": lambda: p.set_units(distance="bogus_unit"),
        "conv": lambda: p.convert_units("bogus"),
        "convnone": lambda: p.set_units(None).convert_units("m") if 0 else p.convert_units(distance="bogus"),
        "convtwo": lambda: p.convert_units("ft/s", distance="s"),
        "attrs": lambda: p.update_attrs(data_units="bogus"),
        "attrs_hist": lambda: p.update_attrs(history=3),
        "attrs_coords": lambda: p.update_attrs(coords={"time": 3}),
        "attr_tmin": lambda: p.update_attrs(time_min="bogus"),
        "chk": lambda: p.check_attrs({"data_type": "bogus"}),
        "chk2": lambda: p.check_attrs("bogus"),
        "pipe": lambda: p.pipe(3),
        "ufunc": lambda: p.apply_ufunc(3),
        "io": lambda: p.io.write(tmp + "/x.h5", "BOGUS"),
        "iov": lambda: p.io.write(tmp + "/x.h5", "dasdae", "99"),
        "iowr": lambda: p.io.write(tmp + "/x.h5", "TERRA15"),
        "wav": lambda: odd.io.write(tmp + "/x.wav", "wav"),
        "viz": lambda: p.viz.waterfall(scale=(1, 2, 3)),
        "vizsc": lambda: p.viz.waterfall(scale_type="x"),
        "q": lambda: dc.get_quantity("bogus"),
        "unit": lambda: dc.get_unit("bogus"),
        "dt": lambda: dc.to_datetime64("bogus"),
        "td": lambda: dc.to_timedelta64("bogus"),
        "convu": lambda: dc.units.convert_units(1, "m", "s"),
        "gc1": lambda: get_coord(),
        "gc2": lambda: get_coord(start=1),
        "gc3": lambda: get_coord(start=1, stop=0, step=1),
        "gc4": lambda: get_coord(start=0, stop=10, step=0),
        "gc6": lambda: get_coord(start=0, stop=10),
        "gc9": lambda: get_coord(start=0, stop=10, step=np.nan),
        "gc10": lambda: get_coord(data=np.arange(3), units="bogus"),
        "clim": lambda: get_coord(data=np.arange(5)).update_limits(1, 2, 3),
        "cshape": lambda: get_coord(data=np.arange(5)).change_length(-2),
        "cidx": lambda: get_coord(data=np.arange(5))[7],
        "cnext": lambda: get_coord(data=np.arange(5)).get_next_index(7),
        "cnexts": lambda: get_coord(data=np.arange(5)).get_next_index(7, samples=True),
        "cscb": lambda: get_coord(data=np.arange(5)).get_sample_count(50, enforce_lt_coord=True),
        "cup": lambda: get_coord(data=np.arange(5)).update(bogus=3),
    }


def spooled(p, p5, sp, tmp):
    return {
        "spidx": lambda: sp[100],
        "spneg": lambda: sp[-100],
        "spf": lambda: sp[1.5],
        "spstr": lambda: sp["x"],
        "spchunk": lambda: sp.chunk(bogus=3),
        "spchunk0": lambda: sp.chunk(time=0),
        "spchunk-": lambda: sp.chunk(time=-3),
        "spchunk2": lambda: sp.chunk(time=3, distance=3),
        "spchunkno": lambda: sp.chunk(),
        "spover": lambda: sp.chunk(time=3, overlap=5),
        "spconf": lambda: sp.chunk(time=3, conflict="bogus"),
        "spchunkstr": lambda: sp.chunk(time="x"),
        "spchnan": lambda: sp.chunk(time=np.nan),
        "spchrng": lambda: sp.chunk(time=(1, 2)),
        "spsort": lambda: sp.sort("bogus"),
        "spsel3": lambda: sp.select(time=(1, 2, 3)),
        "spselbad": lambda: sp.select(time=("a", "b")),
        "spselnum": lambda: sp.select(time=5),
        "spconcat2": lambda: sp.concatenate()[0],
        "spstack": lambda: sp.stack(dim_vary="bogus"),
        "sparr": lambda: sp[np.array([50])],
        "spbool": lambda: sp[np.array([True])],
        "sparr2": lambda: sp[np.array([0.5])],
        "spslice0": lambda: sp[::0],
        "dcspool": lambda: dc.spool(tmp + "/nope"),
        "dcspool2": lambda: dc.spool(3),
        "read": lambda: dc.read(tmp + "/nope.h5"),
        "read2": lambda: dc.read(p),
        "scan": lambda: dc.scan(tmp + "/nope"),
        "fmt": lambda: dc.get_format(tmp + "/nope"),
        "write": lambda: dc.write(p, tmp + "/z.h5", "bogus"),
        "readfmt": lambda: dc.read(tmp, file_format="bogus"),
        "ex": lambda: dc.get_example_patch("bogus"),
        "exs": lambda: dc.get_example_spool("bogus"),
    }
def build(rng, even=True, three=None):
    """A patch with attached coordinates, 10 ms sampling and 2 m spacing."""
    nt, nx = int(rng.integers(56, 66)), int(rng.integers(8, 11))
    start = np.datetime64("2020-01-01", "ns") + np.timedelta64(int(rng.integers(0, 10**6)), "ms")
    t = start + np.arange(nt) * np.timedelta64(10, "ms")
    x = 10.0 + 2 * np.arange(nx)
    if not even:
        t = t + np.cumsum(rng.integers(0, 9, nt)).astype("timedelta64[ms]")
        x = x + np.cumsum(rng.random(nx))
    coords = {
        "distance": get_coord(data=x, units="m"),
        "time": get_coord(data=t, units="s"),
        "quality": ("distance", rng.random(nx)),
        "note": ("time", rng.random(nt)),
    }
    names, shape = ["distance", "time"], [nx, nt]
    if three is None:
        three = gen.chance(rng, 0.2)
    if three:
        coords["shot"] = np.arange(2)
        names, shape = [*names, "shot"], [*shape, 2]
    data = rng.random(shape).astype(gen.pick(rng, ["float64", "float32"]))
    p = dc.Patch(data=data, dims=tuple(names), coords=coords, attrs={"data_units": "m/s", "data_type": "velocity", "tag": gen.word(rng)})
    if gen.chance(rng, 0.6):
        order = list(names)
        rng.shuffle(order)
        p = p.transpose(*order)
    return p


PROBES = {
    "select": lambda p: p.select(time=(3, 20), samples=True),
    "pass": lambda p: p.pass_filter(time=(5, 20)),
    "rolling": lambda p: p.rolling(time=0.05).mean(),
    "dft": lambda p: p.dft("distance"),
    "coords": lambda p: p.update_coords(distance_min=3),
    "units": lambda p: p.convert_units(distance="ft"),
    "add": lambda p: p + 1,
    "mean": lambda p: p.mean("time"),
    "median": lambda p: p.median_filter(distance=3, samples=True),
    "resample": lambda p: p.resample(time=0.02),
}


def outcome(func):
    """The error of a call, or its result."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return None, func()
        except Exception as e:  # noqa: BLE001
            return e, None


def probe(rng, p):
    """A later valid operation and what it gives now."""
    name = gen.pick(rng, sorted(PROBES))
    err, out = outcome(lambda: PROBES[name](p))
    return name, (type(err).__name__ if err is not None else mon.fp_patch(out))


def refused(rng, ctx, p, what, call, kind):
    """The request raises, and patch and later operations are as before."""
    before = mon.fp_patch(p)
    name, expected = probe(rng, p)
    err, out = outcome(call)
    ctx.count("bad requests made")
    ctx.check(
        err is not None,
        "accepted",
        lambda: f"{what} of {gen.describe(p)} gave a {type(out).__name__} of shape {getattr(out, 'shape', None)} instead of an error",
    )
    same = mon.fp_patch(p)
    ctx.check(before == same, "changed-by-refusal", lambda: f"{what} was refused but changed the patch: {mon.diff_fp(before, same)}")
    _, again = outcome(lambda: PROBES[name](p))
    again = mon.fp_patch(again) if again is not None else None
    ctx.check(again is None or again == expected, "later-operation", lambda: f"after the refused {what}, {name} gives something else: {mon.diff_fp(expected, again)}")
    ctx.cover(what, kind, p.dims, type(err).__name__)
    return err


def control(ctx, what, call):
    """The same request with a valid name works."""
    err, _ = outcome(call)
    ctx.count("controls which worked" if err is None else "controls refused as well")
    return err


@family("P25", "names", 900, 20000)
def names(rng, ctx):
    """Names which are no dimension, or no coordinate."""
    p = build(rng)
    table, kw = (named_kw, True) if gen.chance(rng, 0.5) else (named_arg, False)
    keys = sorted(table(p, "time", get_quantity))
    what = keys[ctx.index % len(keys)]
    kind = gen.pick(rng, ["word", "word", "coord"])
    words = [w for w in WORDS if not (what == "idft" and w == "ft_time")]
    if kind == "coord" and what not in ALSO_COORDS:
        bad = gen.pick(rng, ["quality", "note"])
    else:
        kind = "word"
        bad = gen.word(rng) if gen.chance(rng, 0.5) else gen.pick(rng, words)
        if what in {"update_coords", "upd2"} and bad == "":
            ctx.skip("no dimension is a valid one of coordinates")
    ctx.note(request=what, name=bad, dims=p.dims)
    refused(rng, ctx, p, what, table(p, bad, get_quantity)[what], kind)
    if gen.chance(rng, 0.15):
        control(ctx, what, table(p, "time", get_quantity)[what])


@family("P25", "units", 500, 12000)
def units(rng, ctx):
    """Quantities of something else."""
    p = build(rng)
    table = unit_requests(p, get_quantity("kg"))
    keys = sorted(table)
    what = keys[ctx.index % len(keys)]
    unit = gen.pick(rng, BAD_UNITS)
    q = float(gen.pick(rng, [1.0, 0.1, 5.0, 0.02])) * get_quantity(unit)
    ctx.note(request=what, quantity=str(q), dims=p.dims)
    refused(rng, ctx, p, what, unit_requests(p, q)[what], unit)


@family("P25", "sampling", 250, 5000)
def sampling(rng, ctx):
    """Methods which need even sampling, of uneven labels."""
    p, even = build(rng, even=False), build(rng)
    keys = sorted(sampled(p))
    what = keys[ctx.index % len(keys)]
    ctx.note(request=what, dims=p.dims)
    refused(rng, ctx, p, what, sampled(p)[what], "uneven")
    if gen.chance(rng, 0.2) and even.ndim == 2:
        control(ctx, what, sampled(even)[what])


@family("P25", "parameters", 1100, 24000)
def parameters(rng, ctx):
    """Malformed, out of range, missing and contradicting parameters."""
    p = build(rng, three=False)
    table = malformed(p)
    keys = sorted(table)
    what = keys[ctx.index % len(keys)]
    ctx.note(request=what, dims=p.dims)
    refused(rng, ctx, p, what, table[what], "parameter")


@family("P25", "structure", 700, 14000)
def structure(rng, ctx):
    """Shapes, names, units and labels which don't fit together."""
    p = build(rng, three=False).transpose("distance", "time")
    odd = build(rng, even=False, three=False)
    with files.folder() as tmp:
        tmp = str(tmp)
        p5 = p.select(distance=(0, 5), samples=True)
        table = structural(p, p5, p.get_array("time"), tmp, odd)
        keys = sorted(table)
        what = keys[ctx.index % len(keys)]
        ctx.note(request=what)
        refused(rng, ctx, p, what, table[what], "structure")
        if what in {"io", "iov", "iowr", "wav"}:
            ctx.check(not os.listdir(tmp), "file-left", lambda: f"the refused {what} left {os.listdir(tmp)}")


@family("P25", "spools", 350, 7000)
def spools(rng, ctx):
    """Bad requests of spools and of reading and writing."""
    p = build(rng, three=False)
    parts = [p.select(time=(i, i + 20), samples=True) for i in (0, 20, 40)]
    sp = dc.spool(parts)
    with files.folder() as tmp:
        tmp = str(tmp)
        if gen.chance(rng, 0.3):
            folder = os.path.join(tmp, "archive")
            os.makedirs(folder)
            for i, part in enumerate(parts):
                dc.write(part, os.path.join(folder, f"p{i}.h5"), "dasdae")
            sp = dc.spool(folder).update()
        before = [mon.fp_patch(x) for x in sp]
        contents = sp.get_contents().astype(str).to_dict("list")
        p5 = p.select(distance=(0, 5), samples=True)
        table = spooled(p, p5, sp, tmp)
        keys = sorted(table)
        what = keys[ctx.index % len(keys)]
        ctx.note(request=what, spool=type(sp).__name__)
        listing = sorted(os.listdir(tmp))
        refused(rng, ctx, p, what, table[what], type(sp).__name__)
        ctx.check(sorted(os.listdir(tmp)) == listing, "file-left", lambda: f"the refused {what} left {os.listdir(tmp)}")
        after = [mon.fp_patch(x) for x in sp]
        ctx.check(before == after, "spool-changed", lambda: f"the refused {what} changed the patches of the spool")
        ctx.check(contents == sp.get_contents().astype(str).to_dict("list"), "spool-changed", lambda: f"the refused {what} changed the contents of the spool")


def several(p, bad):
    """Requests of several parts, the last or first of which is bad."""
    t, x = p.get_array("time"), p.get_array("distance")
    return {
        "select": lambda: p.select(time=(t[3], t[9]), **{bad: (1, 2)}),
        "select first": lambda: p.select(**{bad: (1, 2)}, time=(t[3], t[9])),
        "order": lambda: p.order(time=t[[3, 1]], **{bad: [1]}),
        "update_coords": lambda: p.update_coords(time=t + np.timedelta64(1, "s"), distance=x[:3]),
        "update_coords new": lambda: p.update_coords(time=t + np.timedelta64(1, "s"), new=(bad, t)),
        "rename_coords": lambda: p.rename_coords(time="when", **{bad: "other"}),
        "set_units": lambda: p.set_units("m/s", distance="ft", **{bad: "m"}),
        "set_units bad": lambda: p.set_units("m/s", distance="ft", time="no_such_unit"),
        "convert_units": lambda: p.convert_units("ft/s", distance="kg"),
        "convert_units data": lambda: p.convert_units("kg", distance="ft"),
        "convert_units name": lambda: p.convert_units(distance="ft", **{bad: "m"}),
        "sort_coords": lambda: p.sort_coords("quality", bad),
        "snap_coords": lambda: p.snap_coords("time", bad),
        "pad": lambda: p.pad(time=(3, 3), **{bad: (1, 1)}, samples=True),
        "taper": lambda: p.taper(time=0.1, **{bad: 0.1}),
        "median_filter": lambda: p.median_filter(time=3, **{bad: 3}, samples=True),
        "gaussian_filter": lambda: p.gaussian_filter(time=3, **{bad: 3}, samples=True),
        "hampel_filter": lambda: p.hampel_filter(time=3, **{bad: 3}, samples=True),
        "wiener_filter": lambda: p.wiener_filter(time=3, **{bad: 3}, samples=True),
        "savgol_filter": lambda: p.savgol_filter(polyorder=1, time=3, **{bad: 3}, samples=True),
        "notch_filter": lambda: p.notch_filter(q=5, time=10, **{bad: 3}),
        "roll": lambda: p.roll(time=3, **{bad: 3}, samples=True),
        "dft": lambda: p.dft(["time", bad]),
        "integrate": lambda: p.integrate(["time", bad]),
        "differentiate": lambda: p.differentiate(["time", bad]),
        "aggregate": lambda: p.aggregate(["time", bad]),
        "transpose": lambda: p.transpose("time", bad, ...),
        "flip": lambda: p.flip("time", bad),
        "squeeze": lambda: p.append_dims("extra").squeeze(("extra", bad)),
        "decimate two": lambda: p.decimate(time=2, distance=2),
        "line_mute": lambda: p.line_mute(time=(0.1, 0.2), **{bad: (1, 2)}),
        "align": lambda: p.align_to_coord(time="quality", **{bad: "quality"}),
        "attrs": lambda: p.update_attrs(tag="x", data_units="no_such_unit"),
    }


@family("P25", "several", 300, 6000)
def several_parts(rng, ctx):
    """Nothing of a request is done if part of it is bad."""
    p = build(rng)
    bad = gen.word(rng)
    keys = sorted(several(p, bad))
    what = keys[ctx.index % len(keys)]
    ctx.note(request=what, name=bad, dims=p.dims)
    refused(rng, ctx, p, what, several(p, bad)[what], "several")


def empties(rng, p):
    """Valid selections with nothing in them: {what: (call, dimension)}."""
    t, x = p.get_array("time"), p.get_array("distance")
    sec = np.timedelta64(1, "s")
    i = int(rng.integers(0, len(x) - 1))
    k = int(rng.integers(0, len(t) - 1))
    off = float(rng.uniform(0.3, 1.7))
    return {
        "above": (lambda: p.select(distance=(x.max() + off, x.max() + 50)), "distance"),
        "below": (lambda: p.select(distance=(x.min() - 50, x.min() - off)), "distance"),
        "above open": (lambda: p.select(distance=(x.max() + off, None)), "distance"),
        "below open": (lambda: p.select(distance=(None, x.min() - off)), "distance"),
        "between": (lambda: p.select(distance=(x[i] + 0.25, x[i] + 0.75)), "distance"),
        "time above": (lambda: p.select(time=(t.max() + sec, t.max() + 5 * sec)), "time"),
        "time below": (lambda: p.select(time=(t.min() - 5 * sec, t.min() - sec)), "time"),
        "time text": (lambda: p.select(time=("1999-01-01", "1999-01-02")), "time"),
        "time open": (lambda: p.select(time=(t.max() + sec, None)), "time"),
        "time between": (lambda: p.select(time=(t[k] + np.timedelta64(2, "ms"), t[k] + np.timedelta64(5, "ms"))), "time"),
        "units": (lambda: p.select(distance=(1 * get_quantity("km"), 2 * get_quantity("km"))), "distance"),
        "relative": (lambda: p.select(time=(900.0, 1000.0), relative=True), "time"),
        "relative distance": (lambda: p.select(distance=(500, None), relative=True), "distance"),
        "samples": (lambda: p.select(time=(500, 600), samples=True), "time"),
        "samples equal": (lambda: p.select(time=(k, k), samples=True), "time"),
        "samples open": (lambda: p.select(distance=(200, None), samples=True), "distance"),
        "mask": (lambda: p.select(distance=np.zeros(len(x), bool)), "distance"),
        "time mask": (lambda: p.select(time=np.zeros(len(t), bool)), "time"),
        "array": (lambda: p.select(distance=x + 0.5), "distance"),
        "empty array": (lambda: p.select(distance=x[:0]), "distance"),
        "time array": (lambda: p.select(time=t[:3] + np.timedelta64(3, "ms")), "time"),
        "attached": (lambda: p.select(quality=(2, 3)), "distance"),
        "attached note": (lambda: p.select(note=(-3, -2)), "time"),
        "order": (lambda: p.order(distance=[500.0]), "distance"),
        "order samples": (lambda: p.order(time=np.array([], dtype=int), samples=True), "time"),
        "dropna": (lambda: p.new(data=np.full(p.shape, np.nan)).dropna("time"), "time"),
        "twice": (lambda: p.select(distance=(None, x[i])).select(distance=(x[i] + 1, None)), "distance"),
        "both": (lambda: p.select(distance=(x.max() + off, None), time=(t[2], t[9])), "distance"),
    }


@family("P25", "empty", 500, 10000)
def empty(rng, ctx):
    """Nothing selected is an empty patch, not an error or other data."""
    p = build(rng)
    if gen.chance(rng, 0.3):
        p = p.flip(gen.pick(rng, list(p.dims)))
    table = empties(rng, p)
    keys = sorted(table)
    what = keys[ctx.index % len(keys)]
    call, dim = table[what]
    ctx.note(request=what, dims=p.dims)
    before = mon.fp_patch(p)
    err, out = outcome(call)
    ctx.check(err is None, "empty-error", lambda: f"an empty selection ({what}) of {gen.describe(p)} raised {type(err).__name__}: {err}")
    shape = list(p.shape)
    shape[p.get_axis(dim)] = 0
    if what == "both":
        shape[p.get_axis("time")] = 8
    ctx.check(
        out.dims == p.dims and out.shape == tuple(shape) == np.asarray(out.data).shape,
        "empty-shape",
        lambda: f"an empty selection ({what}) of {p.shape} {p.dims} gave {out.shape} {out.dims} and data of {np.asarray(out.data).shape}",
    )
    ctx.check(out.data.dtype == p.data.dtype or what == "dropna", "empty-dtype", lambda: f"{what}: {out.data.dtype} instead of {p.data.dtype}")
    ctx.check(len(out.get_coord(dim)) == 0 and out.get_array(dim).shape == (0,), "empty-coord", lambda: f"{what}: {dim} has labels {out.get_array(dim)}")
    for name in p.dims:
        if name != dim and what != "both":
            ctx.check(mon.fp_coord(out.get_coord(name)) == mon.fp_coord(p.get_coord(name)), "empty-other-coord", lambda: f"{what}: {name} changed: {out.get_coord(name)}")
    ctx.check(
        out.attrs.tag == p.attrs.tag and out.attrs.data_type == p.attrs.data_type and str(out.attrs.data_units) == str(p.attrs.data_units),
        "empty-attrs",
        lambda: f"{what}: attributes {out.attrs}",
    )
    ctx.check(mon.fp_patch(p) == before, "changed-by-selection", lambda: f"{what} changed the patch")
    # The empty patch is a patch.
    again = {
        "transpose": lambda: out.transpose(*reversed(out.dims)).shape == tuple(reversed(out.shape)),
        "add": lambda: (out + 1).shape == out.shape,
        "select": lambda: out.select(**{dim: (None, None)}).shape == out.shape,
        "new": lambda: out.new(data=out.data).shape == out.shape,
        "text": lambda: isinstance(str(out), str),
        "equals": lambda: out.equals(out),
    }
    name = gen.pick(rng, sorted(again))
    err, ok = outcome(again[name])
    ctx.check(err is None and ok, "empty-unusable", lambda: f"{name} of the empty patch of {what}: {err!r}")
    ctx.cover(what, p.dims, name)
    ctx.count("empty selections")


@family("P25", "empty-spools", 120, 2500)
def empty_spools(rng, ctx):
    """Nothing selected from a spool is an empty spool."""
    p = build(rng, three=False)
    t, x = p.get_array("time"), p.get_array("distance")
    parts = [p.select(time=(i, i + 20), samples=True) for i in (0, 20, 40)]
    sec = np.timedelta64(1, "s")
    with files.folder() as tmp:
        sp = dc.spool(parts)
        if gen.chance(rng, 0.3):
            for i, part in enumerate(parts):
                dc.write(part, os.path.join(str(tmp), f"p{i}.h5"), "dasdae")
            sp = dc.spool(str(tmp)).update()
        table = {
            "time after": lambda: sp.select(time=(t[-1] + sec, t[-1] + 9 * sec)),
            "time before": lambda: sp.select(time=(None, t[0] - sec)),
            "time text": lambda: sp.select(time=("1999-01-01", "1999-01-02")),
            "distance after": lambda: sp.select(distance=(x[-1] + 3, None)),
            "tag": lambda: sp.select(tag="no such tag"),
            "tag family": lambda: sp.select(tag=["a-", "b-"]),
            "slice": lambda: sp[3:],
            "slice backward": lambda: sp[2:1],
            "array": lambda: sp[np.array([], dtype=int)],
            "mask": lambda: sp[np.zeros(3, bool)],
            "both": lambda: sp.select(time=(t[0], t[30])).select(time=(t[45], None)),
        }
        keys = sorted(table)
        what = keys[ctx.index % len(keys)]
        ctx.note(request=what, spool=type(sp).__name__)
        if what == "distance after" and type(sp).__name__ == "DirectorySpool":
            ctx.skip("the index of a directory only has times")
        before = [mon.fp_patch(q) for q in sp]
        err, out = outcome(table[what])
        ctx.check(err is None, "empty-error", lambda: f"{what} of a {type(sp).__name__}: {err!r}")
        err, got = outcome(lambda: (len(out), list(out), len(out.get_contents())))
        ctx.check(err is None and got[0] == 0 and not got[1] and got[2] == 0, "empty-spool", lambda: f"{what} of a {type(sp).__name__} gave {err or got}")
        err, _ = outcome(lambda: out[0])
        ctx.check(isinstance(err, IndexError), "empty-spool-index", lambda: f"the first patch of an empty spool ({what}): {err!r}")
        ctx.check(before == [mon.fp_patch(q) for q in sp], "spool-changed", lambda: f"{what} changed the spool")
        ctx.cover(what, type(sp).__name__)
