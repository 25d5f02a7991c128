"""Registry of the public operations: how to build valid arguments for each of them at any size and data variant.

Used by the checks that quantify over *every* function and method (inputs untouched, representations, no hidden
state, object = function).  An operation is called with keyword-free positional arguments; `data` says which of them
are arrays of user data."""
import copy

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from mc import ref

import deltares_wave_toolbox.cores.core_dispersion as cdis
import deltares_wave_toolbox.cores.core_engine as ceng
import deltares_wave_toolbox.cores.core_spectral as cspe
import deltares_wave_toolbox.cores.core_time as ctim
import deltares_wave_toolbox.cores.core_wave_decomposition as cdec
import deltares_wave_toolbox.cores.core_wavefunctions as cwav
from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

VARIANTS = 6  # 0 base, 1 other interior, 2 permuted interior, 3 other options, 4 shifted axis, 5 scaled data


def rec(n, v):
    """A record; all variants of one length share what a careless cache key would look at."""
    x = ref.waves_like(n, seed=3)
    if n > 3:
        if v == 1:
            x[1:-1] = ref.waves_like(n, seed=8)[1:-1]
        if v == 2:
            x[1:-1] = x[1:-1][::-1].copy()
    if v == 5:
        x = x * 1.5
    return x


def taxis(n, v):
    return ref.axis(n, -20.0 if v == 4 else 0.0, 0.5)


def faxis(n, v, zero=False):
    return (np.arange(n) + (0.0 if zero else 1.0) + (2.0 if v == 4 else 0.0)) * (0.4 / n)


def dens(n, v):
    f = faxis(n, 0)
    s = np.exp(-((f - 0.11) / 0.06) ** 2) + 0.05 + 0.01 * ref.lcg(n, 2)
    if n > 3:
        if v == 1:
            s[1:-1] = (0.6 * np.exp(-((f - 0.2) / 0.05) ** 2) + 0.07 + 0.01 * ref.lcg(n, 9))[1:-1]
        if v == 2:
            s[1:-1] = s[1:-1][::-1].copy()
    return s * 1.5 if v == 5 else s


def heights(n, v):
    h = 0.2 + np.abs(rec(n, v))
    return h


def comp(n, v, k=0):
    c = (ref.lcg(n, 5 + k) + 1j * ref.lcg(n, 15 + k)) * 3.0
    if n > 3:
        if v == 1:
            c[1:-1] *= 1j
        if v == 2:
            c[1:-1] = c[1:-1][::-1].copy()
    c[0] = c[0].real
    return c * 1.5 if v == 5 else c


def gauges(n, v):
    t = taxis(n, v)
    d = [0.0, 1.7, 4.1]
    x = np.zeros((n, 3))
    for j in range(3):
        for (w, a, ph) in ((0.9, 1.0, 0.3), (1.7, 0.5, 1.1), (2.6, 0.3, 2.0)):
            k = w * w / 9.81
            x[:, j] += a * np.cos(w * t - k * d[j] + ph + (0.4 if v == 1 else 0.0)) + 0.4 * a * np.cos(w * t + k * d[j] + 0.9)
    x[:, :] = x + 0.01 * ref.lcg(3 * n, 4).reshape(n, 3)
    return x * 1.5 if v == 5 else x


class Op:
    def __init__(self, name, build, call, data, nmin=2, kind="function", random=False):
        self.name, self.build, self.call, self.data = name, build, call, data
        self.nmin, self.kind, self.random = nmin, kind, random

    def args(self, n, v=0):
        return list(self.build(max(n, self.nmin), v))


OPS = {}


def op(name, build, call, data, **kw):
    OPS[name] = Op(name, build, call, data, **kw)


def _sorted(n, v):
    i = np.argsort(-heights(n, v), kind="stable")
    return heights(n, v)[i], (4.0 + np.arange(n) % 7)[i]


op("sort_wave_params", lambda n, v: (heights(n, v), 4.0 + np.arange(n) % 7), ctim.sort_wave_params, [0, 1], nmin=1)
for _c in ("down", "up"):
    op(f"determine_zero_crossing[{_c}]", lambda n, v, c=_c: (taxis(n, v), rec(n, v), c), ctim.determine_zero_crossing, [0, 1])
op("highest_waves_params", lambda n, v: (*_sorted(n, v), 0.5 if v == 3 else 1 / 3), ctim.highest_waves_params, [0, 1], nmin=1)
op("exceedance_wave_height", lambda n, v: (_sorted(n, v)[0], 40.0 if v == 3 else 20.0), ctim.exceedance_wave_height, [0], nmin=1)


def _tc(n, v):
    return np.array(ref.crossings(taxis(n, v), rec(n, v), v != 3))


op("determine_params_individual_waves", lambda n, v: (_tc(n, v), taxis(n, v), rec(n, v)), ctim.determine_params_individual_waves, [0, 1, 2])
op("frequency_averaging", lambda n, v: (faxis(n, v), dens(n, v), (3 if v == 3 else 2) * 0.4 / n), cspe.frequency_averaging, [0, 1])
op("frequency_averaging[default]", lambda n, v: (faxis(n, v), dens(n, v)), cspe.frequency_averaging, [0, 1])
op("unfold_spectrum", lambda n, v: (faxis(n, 0, True), comp(n, v), v != 3), cspe.unfold_spectrum, [0, 1])
op("coherence", lambda n, v: (faxis(n, v), comp(n, v), comp(n, v, 1), (3 if v == 3 else 2) * 0.4 / n), cspe.coherence, [0, 1, 2])
op("coherence[default]", lambda n, v: (faxis(n, v), comp(n, v) * 1e-6, comp(n, v, 1)), cspe.coherence, [0, 1, 2])
op("freq2time", lambda n, v: (comp(n, v),), cspe.freq2time, [0])
op("time2freq", lambda n, v: (taxis(n, v), rec(n, v)), cspe.time2freq, [0, 1])
op("time2freq_nyquist", lambda n, v: (taxis(n, v), rec(n, v)), cspe.time2freq_nyquist, [0, 1])
op("compute_spectrum_time_series", lambda n, v: (taxis(n, v), rec(n, v), (6 if v == 3 else 4) / n), cspe.compute_spectrum_time_series, [0, 1])
op("compute_spectrum_time_series[default]", lambda n, v: (taxis(n, v), rec(n, v)), cspe.compute_spectrum_time_series, [0, 1])
op("compute_spectrum_freq_series", lambda n, v: (faxis(n, v, True), comp(n, v), 2 * n - (1 if v == 3 else 2), 0.8 / n), cspe.compute_spectrum_freq_series, [0, 1], nmin=3)
op("spectrum2timeseries[seed]", lambda n, v: (faxis(n, v), dens(n, v), 0.0, n / 2.0, 0.5, 8 if v == 3 else 7), cspe.spectrum2timeseries, [0, 1], random=True)
op("spectrum2timeseries[unseeded]", lambda n, v: (faxis(n, v), dens(n, v), 0.0, n / 2.0, 0.5), cspe.spectrum2timeseries, [0, 1], random=True)
op("spectrum2timeseries_object", lambda n, v: (faxis(n, v), dens(n, v), 0.0, n / 2.0, 0.5, 8 if v == 3 else 7), cspe.spectrum2timeseries_object, [0, 1], random=True)
op("compute_spectrum_welch_wrapper", lambda n, v: (rec(n, v), 0.5, max(n // 2, 2), 0, 0, "hamming" if v == 3 else "hann"), cspe.compute_spectrum_welch_wrapper, [0])
op("compute_spectrum_welch_wrapper[default]", lambda n, v: (rec(n, v), 0.5), cspe.compute_spectrum_welch_wrapper, [0])
op("applybandfilter", lambda n, v: (faxis(n, v, True), comp(n, v), 0.07, 0.33 if v == 3 else 0.28), cspe.applybandfilter, [0, 1])
op("bandpassfilter", lambda n, v: (taxis(n, v), rec(n, v), 0.07, 0.33 if v == 3 else 0.28), cspe.bandpassfilter, [0, 1])
op("disper", lambda n, v: (np.arange(n) * 0.3 - (0.6 if v == 4 else 0.0), 3.0 if v == 3 else 5.0), cdis.disper, [0], nmin=1)
op("disper[deep]", lambda n, v: (np.arange(n) * 0.3 - (0.6 if v == 4 else 0.0), np.inf), cdis.disper, [0], nmin=1)
op("disper[shallow]", lambda n, v: (np.arange(n) * 0.3 - (0.6 if v == 4 else 0.0), -5.0), cdis.disper, [0], nmin=1)
op("compute_spectrum_params", lambda n, v: (faxis(n, v), dens(n, v)), cwav.compute_spectrum_params, [0, 1], nmin=3)
op("compute_spectrum_params[limits]", lambda n, v: (faxis(n, v), dens(n, v), 0.04, 0.3 if v == 3 else 0.35), cwav.compute_spectrum_params, [0, 1], nmin=4)
for _m in (-1, 0, 2):
    op(f"compute_moment[{_m}]", lambda n, v, m=_m: (faxis(n, v, True), dens(n, v), m), cwav.compute_moment, [0, 1], nmin=3)
    op(f"compute_moment[{_m},limits]", lambda n, v, m=_m: (faxis(n, v, True), dens(n, v), m, 0.04, np.inf if v == 3 else 0.35), cwav.compute_moment, [0, 1], nmin=3)
op("create_spectrum_jonswap", lambda n, v: (faxis(n, v), 0.12, 2.0, 5.0 if v == 3 else 3.3, 1.0 if v == 1 else 0.0), cwav.create_spectrum_jonswap, [0])
op("create_spectrum_object_jonswap", lambda n, v: (faxis(n, v), 0.12, 2.0, 5.0 if v == 3 else 3.3), cwav.create_spectrum_object_jonswap, [0])
op("create_spectrum_piersonmoskowitz", lambda n, v: (faxis(n, v), 0.12, 3.0 if v == 3 else 2.0), cwav.create_spectrum_piersonmoskowitz, [0])
op("create_spectrum_object_piersonmoskowitz", lambda n, v: (faxis(n, v), 0.12, 3.0 if v == 3 else 2.0), cwav.create_spectrum_object_piersonmoskowitz, [0])
op("tpd", lambda n, v: (faxis(n, v), dens(n, v)), cwav.tpd, [0, 1])
op("compute_tps", lambda n, v: (faxis(n, v), dens(n, v)), cwav.compute_tps, [0, 1], nmin=1)
op("BattjesGroenendijk", lambda n, v: (1.0 + 0.1 * v, 100 + n % 7, 1.5, 50.0 if v == 3 else 100.0),
   cwav.compute_BattjesGroenendijk_wave_height_distribution, [], nmin=1)
op("decompose_linear_ZS", lambda n, v: (taxis(n, v), gauges(n, v), 4.0 if v == 3 else 6.0, np.array([0.0, 1.7, 4.1]), np.array([1.0, 0.5, 1.0])),
   cdec.decompose_linear_ZS, [0, 1, 3, 4], nmin=4)
op("decompose_linear_ZS_series", lambda n, v: ([Series(taxis(n, v), g) for g in gauges(n, v).T.copy()], 4.0 if v == 3 else 6.0,
                                               np.array([0.0, 1.7, 4.1]), np.array([1.0, 0.5, 1.0])),
   cdec.decompose_linear_ZS_series, [0, 2, 3], nmin=4)
op("monotonic_increasing_constant_step", lambda n, v: (taxis(n, v),), ceng.monotonic_increasing_constant_step, [0])
op("approx_array_index", lambda n, v: (faxis(n, v), 0.3 if v == 3 else 0.2), ceng.approx_array_index, [0], nmin=1)
op("is1darray", lambda n, v: (rec(n, v),), ceng.is1darray, [0], nmin=1)

# ---- objects: construction and one method (or several) on the fresh object
WM = {
    "": lambda o: None, "sort": lambda o: o.sort(), "Hrms": lambda o: o.get_Hrms(), "Hmax": lambda o: o.get_Hmax(),
    "Hs": lambda o: o.get_Hs(), "H2p": lambda o: o.get_H2p_Rayleigh(), "exc": lambda o: o.get_exceedance_waveheight(30.0),
    "highest": lambda o: o.highest_waves(0.4), "str": lambda o: (str(o), repr(o)),
}
WPLOT = {
    "plot_exc": lambda o: o.plot_exceedance_waveheight(),
    "plot_Rayleigh": lambda o: o.plot_exceedance_waveheight_Rayleigh(normalize=True, plot_BG=True, water_depth=1.2, cota_slope=60.0, hm0=1.0),
    "plot_hist": lambda o: o.plot_hist_waveheight(),
}
SM = {
    "down": lambda o: o.get_crossing(), "up": lambda o: o.get_crossing("up"), "skew": lambda o: o.get_skewness(),
    "asym": lambda o: o.get_asymmetry(), "spec": lambda o: o.get_spectrum(dfDesired=0.1),
    "spec2": lambda o: o.get_spectrum(nperseg=4, use_dfDesired=False), "raw": lambda o: o.get_spectrum_raw(0.1),
    "band": lambda o: o.get_bandpassfilter(0.07, 0.4), "four": lambda o: o.get_fourier_comp(),
    "max": lambda o: o.max(), "min": lambda o: o.min(), "mean": lambda o: o.mean(), "var": lambda o: o.var(),
    "waves_up": lambda o: o._determine_individual_waves("up"),
    "waves_min": lambda o: o._determine_individual_waves("down", 0, 0.5),
    "waves_cut": lambda o: o._determine_individual_waves("down", 0.05, 0.0),
}
SPLOT = {"plot": lambda o: o.plot(plot_crossing=True)}
PM = {
    "": lambda o: None, "Hm0": lambda o: o.get_Hm0(), "Tps": lambda o: o.get_Tps(), "Tp": lambda o: o.get_Tp(), "Tmm10": lambda o: o.get_Tmm10(),
    "Tm01": lambda o: o.get_Tm01(), "Tm02": lambda o: o.get_Tm02(), "s0p": lambda o: o.get_s0p(), "smm10": lambda o: o.get_smm10(),
    "Hm0_HF": lambda o: o.get_Hm0_HF(), "Hm0_LF": lambda o: o.get_Hm0_LF(), "Tmm10_HF": lambda o: o.get_Tmm10_HF(),
    "Tmm10_LF": lambda o: o.get_Tmm10_LF(), "smm10_HF": lambda o: o.get_smm10_HF(), "Hm0lim": lambda o: o.get_Hm0(0.05, 0.3),
    "Tpslim": lambda o: o.get_Tps(0.05, 0.3), "Tplim": lambda o: o.get_Tp(0.05, 0.3), "str": lambda o: (str(o), repr(o)),
}
PPLOT = {"plot": lambda o: (o.get_Tps(), o.get_Tmm10(), o.get_Tm02(), o.plot(xlim=0.3))[-1]}


def _construct(cls, f):
    def call(*a):
        o = cls(*a)
        return (o, f(o))
    return call


for _k, _f in {**WM, **WPLOT}.items():
    op(f"WaveHeights.{_k}", lambda n, v: (heights(n, v), 4.0 + np.arange(n) % 7), _construct(WaveHeights, _f), [0, 1],
       nmin=3, kind="plot" if _k in WPLOT else "object")
for _k, _f in {**SM, **SPLOT, **{"W" + k: f for k, f in {**WM, **WPLOT}.items()}}.items():
    op(f"Series.{_k}", lambda n, v: (taxis(n, v), rec(n, v)), _construct(Series, _f), [0, 1],
       nmin=50 if _k in ("WHrms", "WHmax") or "plot" in _k else 4, kind="plot" if "plot" in _k else "object")
for _k, _f in {**PM, **PPLOT}.items():
    op(f"Spectrum.{_k}", lambda n, v: (faxis(n, v), dens(n, v)), _construct(Spectrum, _f), [0, 1],
       nmin=20, kind="plot" if "plot" in _k else "object")
op("Spectrum.2D", lambda n, v: (faxis(n, v), dens(n, v), np.arange(8.0) * 45.0), _construct(Spectrum, lambda o: (o.spec, o.get_Hm0(), o.get_Tps())), [0, 1, 2], nmin=3, kind="object")
op("Spectrum.create_series", lambda n, v: (faxis(n, v), dens(n, v)), _construct(Spectrum, lambda o: o.create_series(0.0, 40.0, 0.5)),
   [0, 1], nmin=3, kind="object", random=True)


def invoke(name, args):
    """Result, or the exception's type (the call was rejected)."""
    np.random.seed(12345)
    try:
        return True, OPS[name].call(*args)
    except Exception as e:
        return False, type(e).__name__


def norm(r):
    """A comparable copy of any result."""
    if isinstance(r, matplotlib.figure.Figure):
        out = ["figure"]
        for a in r.axes:
            out.append(tuple(np.array(l.get_xydata(), dtype=float) for l in a.lines))
            out.append(np.array([p.get_height() for p in a.patches], dtype=float))
        plt.close(r)
        return tuple(out)
    if isinstance(r, Spectrum):
        return ("Spectrum", np.array(r.f), np.array(r.sVarDens), r.spec, r.nf)
    if isinstance(r, Series):
        return ("Series", np.array(r.time), np.array(r.xTime), float(r.dt), r.nt, np.array(ref.flat(r.hwave)), np.array(ref.flat(r.twave)), np.array(ref.flat(r.tCross)))
    if isinstance(r, WaveHeights):
        return ("WaveHeights", np.array(ref.flat(r.hwave)), np.array(ref.flat(r.twave)), r.nwave)
    if isinstance(r, (tuple, list)):
        return tuple(norm(v) for v in r)
    if isinstance(r, (str, bool)) or r is None:
        return r
    return np.array(r)


def same(a, b, what, rtol=1e-9):
    if isinstance(b, tuple):
        ref.need(isinstance(a, tuple) and len(a) == len(b), lambda: f"{what}: different structure {a!r:.200} / {b!r:.200}")
        for i, (u, v) in enumerate(zip(a, b)):
            same(u, v, f"{what}[{i}]", rtol)
    elif isinstance(b, (str, bool)) or b is None:
        ref.need(a == b and isinstance(a, (str, bool, type(None))) or (isinstance(b, bool) and isinstance(a, np.ndarray) and a.size == 1 and bool(a) == b),
                 lambda: f"{what}: {a!r}, expected {b!r}")
    else:
        ref.close(ref.flat(a), ref.flat(b), what, rtol=rtol)


def snapshot(x):
    """Everything a caller can see of an argument."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("a", x.shape, "object", tuple(snapshot(v) for v in x.ravel()))
        base = x.base.tobytes() if isinstance(x.base, np.ndarray) else None
        return ("a", x.shape, x.strides, str(x.dtype), bool(x.flags.writeable), x.tobytes(), base)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x) if isinstance(x, list) else 0, tuple(snapshot(v) for v in x))
    if isinstance(x, (Series, Spectrum, WaveHeights)):
        return ("o", id(x), tuple(sorted((k, id(v) if isinstance(v, np.ndarray) else 0, snapshot(v)) for k, v in vars(x).items())))
    return ("s", type(x).__name__, repr(x))


def arrays_in(r):
    """All arrays inside a function's result."""
    if isinstance(r, np.ndarray):
        return [r]
    if isinstance(r, (tuple, list)):
        return [a for v in r for a in arrays_in(v)]
    return []


def deep(args):
    return copy.deepcopy(args)
