"""Objects against functions: every method, constructor and object-returning function over all argument combinations."""
import itertools

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, need

from deltares_wave_toolbox.cores import core_spectral as cspe
from deltares_wave_toolbox.cores import core_time as ctim
from deltares_wave_toolbox.cores import core_wave_decomposition as cdec
from deltares_wave_toolbox.cores import core_wavefunctions as cwav
from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = ["arrays agree to 1e-12 of their largest element, numbers to 1e-9",
               "half a segment of odd length may be rounded either way by Series.get_spectrum"]


def record(kind, n):
    return {"waves": lambda: ref.waves_like(n), "offset": lambda: ref.waves_like(n, seed=6) + 0.7, "noise": lambda: ref.lcg(n, 2),
            "none": lambda: 3.0 + ref.lcg(n, 2), "steps": lambda: np.array([[1.0, 1.0, -1.0, 0.0, -2.0][i % 5] for i in range(n)])}[kind]()


def eq(a, b, what, m):
    """Results of any structure."""
    if isinstance(b, (tuple, list)):
        need(len(a) == len(b), f"{what}: {len(a)} results, expected {len(b)}")
        for i, (u, v) in enumerate(zip(a, b)):
            eq(u, v, f"{what}[{i}]", m)
        return
    close(ref.flat(a), ref.flat(b), what, rtol=1e-12 if np.size(b) > 1 else 1e-9)
    m.step()


def is_series(o, t, x, what, m):
    need(type(o) is Series, f"{what}: a {type(o).__name__}")
    eq(o.time, t, what + ": time", m)
    eq(o.xTime, x, what + ": record", m)
    need(o.nt == len(t), f"{what}: nt {o.nt}")
    eq(o.dt, (t[-1] - t[0]) / (len(t) - 1), what + ": dt", m)
    _, tc = ctim.determine_zero_crossing(t, x)
    h, T, *_ = ctim.determine_params_individual_waves(tc, t, x)
    eq(o.tCross, tc, what + ": crossings", m)
    eq(o.hwave, h, what + ": heights", m)
    eq(o.twave, T, what + ": periods", m)
    need(o.nwave == np.size(h), f"{what}: nwave {o.nwave}")


def is_spectrum(o, f, s, what, m):
    need(type(o) is Spectrum, f"{what}: a {type(o).__name__}")
    eq(o.f, f, what + ": frequencies", m)
    eq(o.sVarDens, s, what + ": density", m)
    need(o.nf == len(f) and o.spec == "1D", f"{what}: nf {o.nf}, {o.spec}")


def check_series(case, m):
    n, dt, t0 = case["n"], case["dt"], case["t0"]
    t, x = ref.axis(n, t0, dt), record(case["kind"], n)
    what = f"{case['kind']} n={n} dt={dt}"
    is_series(Series(t, x), t, x, what, m)
    new = lambda: Series(t, x)  # noqa: E731
    eq(new().get_crossing(), ctim.determine_zero_crossing(t, x), what + " default crossing", m)
    for c in ("up", "down"):
        eq(new().get_crossing(c), ctim.determine_zero_crossing(t, x, c), f"{what} crossing {c}", m)
        nw, tc = ctim.determine_zero_crossing(t, x, c)
        want = ctim.determine_params_individual_waves(tc, t, x)
        o = new()
        eq(o._determine_individual_waves(c)[:6], want, f"{what} waves {c}", m)
        eq((o.hwave, o.twave, o.nwave), (want[0], want[1], np.size(want[0])), f"{what} object after waves {c}", m)
    eq(new().get_fourier_comp()[:2], cspe.time2freq_nyquist(t, x)[:2], what + " Fourier", m)
    need(bool(new().get_fourier_comp()[2]) == bool(n % 2), what + " isOdd")
    T = n * dt
    for df in (0.0, 0.3 / T, 1 / T, 2.4 / T, 5 / T, 0.01, 0.05):
        f, s = cspe.compute_spectrum_time_series(t, x, df)
        if len(f) > 1:
            is_spectrum(new().get_spectrum_raw(df), f, s, f"{what} raw spectrum {df}", m)
    f, s = cspe.compute_spectrum_time_series(t, x, 0.01)
    if len(f) > 1:
        is_spectrum(new().get_spectrum_raw(), f, s, f"{what} default raw spectrum", m)
    fn = 0.5 / dt
    for lo, hi in itertools.product((0.0, 0.9 / T, 0.21 * fn, 0.62 * fn, 1.1 * fn), (0.33 * fn, 0.81 * fn, fn, 3 * fn)):
        is_series(new().get_bandpassfilter(lo, hi), t, cspe.bandpassfilter(t, x, lo, hi), f"{what} filter {lo} {hi}", m)
    eq((new().max(), new().min(), new().mean(), new().var()), (np.max(x), np.min(x), np.mean(x), np.var(x)), what + " statistics", m)
    # segments
    for p, o, nf, w in itertools.product((0, 4, 7, n // 2, n), (0, 1, 3), (0, n + 3), ("hann", "boxcar")):
        if p and (o >= p or nf and nf < p) or p > n or p == 1:
            continue
        f, s = cspe.compute_spectrum_welch_wrapper(x, dt, p, o, nf, w)
        is_spectrum(new().get_spectrum(p, o, nf, w, 0.01, False), f, s, f"{what} Welch {p} {o} {nf} {w}", m)
        is_spectrum(new().get_spectrum(nperseg=p, noverlap=o, nfft=nf, windows_type=w, use_dfDesired=False), f, s, f"{what} Welch {p} {o} {nf} {w}", m)
    for df, nf, w in itertools.product((0.0113, 0.0537, 0.107), (0, n + 5), ("hann", "boxcar")):
        r = 1 / dt / df
        p = min(int(round(r)), n)
        if abs(r - int(r) - 0.5) < 0.05 or p < 2:
            continue
        got = new().get_spectrum(dfDesired=df, nfft=nf, windows_type=w)
        errs = []
        for ov in {p // 2, (p + 1) // 2}:
            if ov >= p:
                continue
            f, s = cspe.compute_spectrum_welch_wrapper(x, dt, p, ov, nf, w)
            try:
                is_spectrum(got, f, s, f"{what} resolution {df} {nf} {w}", m)
                errs = []
                break
            except ref.Violation as e:
                errs.append(e)
        if errs:
            raise errs[0]
    m.state(n, dt, t0, case["kind"])


def series_cases(tier):
    for n in list(range(4, 20)) + [31, 40, 64, 101, 128, 257] + ([] if tier == "quick" else list(range(20, 31)) + [500, 777]):
        for kind in ("waves", "offset", "noise", "none", "steps"):
            for dt, t0 in ((1.0, 0.0), (0.25, -11.0), (7.3e4, 0.0), (2.1e-5, 0.0)) if n % 3 else ((1.0, 0.0), (0.25, -11.0)):
                yield {"n": n, "kind": kind, "dt": dt, "t0": t0}


def check_jitter(case, m):
    """A sampling jitter that Series accepts: the time step is the mean step of the record."""
    n = case["n"]
    st = np.array([case["dt"] * (1 + case["pat"][i % len(case["pat"])]) for i in range(n - 1)])
    t, x = case["t0"] + np.concatenate([[0.0], np.cumsum(st)]), record(case["kind"], n)
    what = f"{case['kind']} n={n} dt={case['dt']} jitter {case['pat']}"
    s = Series(t, x)
    is_series(s, t, x, what, m)
    dt = float(np.sum(st)) / (n - 1)
    for p, o in ((4, 1), (n // 2, 2), (n, 0)):
        is_spectrum(s.get_spectrum(p, o, 0, "hann", 0.01, False), *cspe.compute_spectrum_welch_wrapper(x, dt, p, o, 0, "hann"), f"{what} Welch {p} {o}", m)
    for r in (4.2, 7.8, 8.1):
        p = min(int(round(r)), n)
        f, d = cspe.compute_spectrum_welch_wrapper(x, dt, p, p // 2, 0, "hann")
        is_spectrum(s.get_spectrum(dfDesired=1 / dt / r), f, d, f"{what} segments of {p}", m) if p % 2 == 0 else None
    for c in ("up", "down"):
        eq(s.get_crossing(c), ctim.determine_zero_crossing(t, x, c), f"{what} {c}-crossings", m)
    m.state(n, case["kind"])


def jitter_cases(tier):
    for n in (8, 9, 21, 64):
        for kind in ("waves", "noise", "none"):
            for pat in ([0.07, -0.07], [0.08, 0.0, -0.05], [0.09] + [0.0] * 30, [-0.05, 0.01, 0.06, 0.02]):
                for dt, t0 in ((1.0, 0.0), (0.04, 7.0)):
                    yield {"n": n, "kind": kind, "pat": pat, "dt": dt, "t0": t0}


def check_waves(case, m):
    n = case["n"]
    h, T = {"distinct": lambda: (0.1 + np.abs(ref.lcg(n, 4)), 3.0 + np.abs(ref.lcg(n, 5))),
            "ties": lambda: (np.array([1.0 + (i * 5) % 3 for i in range(n)]), np.array([4.0 + (i * 7) % 11 for i in range(n)])),
            "sorted": lambda: (np.arange(n, 0, -1.0), np.arange(n) + 2.0), "rising": lambda: (np.arange(n) + 1.0, np.arange(n) + 2.0)}[case["kind"]]()
    hs, Ts = ctim.sort_wave_params(h, T)
    what = f"{n} waves ({case['kind']})"
    new = lambda: WaveHeights(h, T)  # noqa: E731
    o = new()
    eq((o.hwave, o.twave, o.nwave), (h, T, n), what, m)
    o.sort()
    eq((o.hwave, o.twave), (hs, Ts), what + " sorted", m)
    eq(new().get_Hs(), ctim.highest_waves_params(hs, Ts, 1 / 3), what + " Hs", m)
    for fr in [k / 20 for k in range(21)] + [1 / 3, 0.999, 1e-9]:
        eq(new().highest_waves(fr), ctim.highest_waves_params(hs, Ts, fr), f"{what} highest {fr}", m)
        eq(new().highest_waves(fracP=fr), ctim.highest_waves_params(hs, Ts, fr), f"{what} highest {fr}", m)
    for p in list(range(0, 101, 5)) + [0.1, 1.0, 2.0, 33.3, 99.9]:
        eq(new().get_exceedance_waveheight(p), ctim.exceedance_wave_height(hs, p), f"{what} exceedance {p}", m)
        eq(new().get_exceedance_waveheight(excPerc=p), ctim.exceedance_wave_height(hs, p), f"{what} exceedance {p}", m)
    if n:
        eq(new().get_Hmax(), ctim.highest_waves_params(hs, Ts, 1.0 / n + 1e-12)[0] if n > 1 else h[0], what + " Hmax", m)
        eq(new().get_Hrms(), float(np.sqrt(sum(v * v for v in h) / n)), what + " Hrms", m)
    m.state(n, case["kind"])


def wave_cases(tier):
    for n in list(range(0, 31)) + [50, 99, 100, 101, 333] + ([] if tier == "quick" else list(range(31, 120)) + [1000]):
        for kind in ("distinct", "ties", "sorted", "rising"):
            yield {"n": n, "kind": kind}


# ---------------------------------------------------------------- spectra
def spec(kind, n):
    f = np.arange(1, n + 1) * (0.5 / n)
    if kind == "jonswap":
        return f, ref.jonswap(f, 0.13, 2.0, 3.3, False) + 1e-4
    if kind == "double":
        return f, ref.jonswap(f, 0.09, 1.0, 6.0, False) + ref.jonswap(f, 0.27, 1.3, 1.0, False) + 0.02
    if kind == "rough":
        return f, 0.6 + 0.5 * ref.lcg(n, 8)
    if kind == "from zero":
        f = np.arange(n) * (0.5 / n)
        return f, ref.jonswap(f, 0.2, 1.5, 2.0, False) + 0.01
    if kind == "ties":
        return f, np.array([0.3 + (0.5 if i % 3 else 0.0) for i in range(n)])
    raise KeyError(kind)


def check_spectrum(case, m):
    f, s = spec(case["kind"], case["n"])
    n = len(f)
    what = f"{case['kind']} nf={n}"
    df = f[1] - f[0]
    new = lambda: Spectrum(f, s)  # noqa: E731
    is_spectrum(new(), f, s, what, m)
    los = [None, float(f[0]), float(f[1]), float(f[n // 5] + 0.3 * df), float(f[n // 3] - 0.2 * df)]
    his = [None, float(f[-1]), float(f[-2]), float(f[2 * n // 3] + 0.4 * df), float(f[n // 2 + 2])]
    if f[0] == 0:
        los = [v for v in los if v is None or v > 0] + [0.0]
    for lo, hi in itertools.product(los, his):
        kw = {k: v for k, v in (("fmin", lo), ("fmax", hi)) if v is not None}
        lohi = (f[0] if lo is None else lo, f[-1] if hi is None else hi)
        w = f"{what} limits {kw}"
        r = cwav.compute_spectrum_params(f, s, **kw)
        mom = {k: cwav.compute_moment(f, s, k, *lohi) for k in (-1, 0, 1, 2)}
        o = new()
        got = (o.get_Hm0(**kw), o.get_Tp(**kw), o.get_Tps(**kw), o.get_Tmm10(**kw), o.get_Tm01(**kw), o.get_Tm02(**kw))
        eq(got, r, w + " parameters", m)
        eq((got[0], got[3], got[4], got[5]), (4 * np.sqrt(mom[0]), mom[-1] / mom[0], mom[0] / mom[1], np.sqrt(mom[0] / mom[2])), w + " moments", m)
        pos = [v for v in (lo, hi)]
        if lo is not None and hi is not None:
            eq((new().get_Hm0(*pos), new().get_Tps(*pos), new().get_Tm02(*pos)), (r[0], r[2], r[5]), w + " positional", m)
        idx = [i for i in range(n) if lohi[0] <= f[i] <= lohi[1]]
        eq(new().get_Tps(**kw), cwav.compute_tps(f[idx], s[idx]), w + " Tps", m)
        for g in (9.81, 1.62):
            eq(new().get_s0p(g=g, **kw), 2 * np.pi * r[0] / (g * r[2] ** 2), w + f" s0p g={g}", m)
            eq(new().get_smm10(g=g, **kw), 2 * np.pi * r[0] / (g * r[3] ** 2), w + f" smm10 g={g}", m)
    for ts, te, dt, seed in ((0.0, 30.0, 0.5, 3), (-5.0, 20.0, 0.25, 11), (100.0, 131.0, 1.0, 0), (1.0, 3.0, 2.0, 5), (0.0, 2.0, 1.0, 6), (-4.0, -1.0, 1.0, 7)):
        t, x = cspe.spectrum2timeseries(f, s, ts, te, dt, seed)
        is_series(cspe.spectrum2timeseries_object(f, s, ts, te, dt, seed), t, x, f"{what} synthesis", m)
        is_series(cspe.spectrum2timeseries_object(f, s, tInit=ts, tEnd=te, dt=dt, seed=seed), t, x, f"{what} synthesis", m)
        np.random.seed(seed)
        is_series(new().create_series(ts, te, dt), t, x, f"{what} create_series", m)
        np.random.seed(seed)
        is_series(cspe.spectrum2timeseries_object(f, s, ts, te, dt), t, x, f"{what} unseeded synthesis", m)
    m.state(case["kind"], n)


def spectrum_cases(tier):
    for n in list(range(8, 26)) + [33, 50, 64, 101, 200] + ([] if tier == "quick" else list(range(26, 50)) + [401]):
        for kind in ("jonswap", "double", "rough", "from zero", "ties"):
            yield {"kind": kind, "n": n}


def check_makers(case, m):
    n, zero = case["n"], case["zero"]
    f = np.arange(n) * (0.6 / n) + (0.0 if zero else 0.6 / n)
    for fp, hm0, gam, tail in itertools.product((0.08, 0.13, 0.3), (0.5, 2.0), (None, 1.0, 3.3, 7.0), (None, 0, 1)):
        kw = {k: v for k, v in (("gammaPeak", gam), ("l_fmax", tail)) if v is not None}
        for a, b, g0 in ((cwav.create_spectrum_jonswap, cwav.create_spectrum_object_jonswap, 3.3),
                         (cwav.create_spectrum_piersonmoskowitz, cwav.create_spectrum_object_piersonmoskowitz, 1.0)):
            want = a(f, fp, hm0, **kw)
            w = f"{b.__name__} nf={n} fp={fp} {kw}"
            is_spectrum(b(f, fp, hm0, **kw), f, want, w, m)
            pos = [g0 if gam is None else gam, 0 if tail is None else tail]
            is_spectrum(b(f, fp, hm0, *pos), f, want, w + " positional", m)
            eq(cwav.create_spectrum_jonswap(f, fp, hm0, *pos), want, w + " against JONSWAP", m)
    m.state(n, zero)


def check_gauges(case, m):
    n, g = case["n"], case["g"]
    t = ref.axis(n, case["t0"], 0.5)
    x = np.stack([ref.waves_like(n, seed=j) + 0.2 * ref.lcg(n, j) for j in range(g)], axis=1)
    xl = np.cumsum([0.0, 1.1, 1.9, 0.8, 1.4][:g])
    for h, dl, w in itertools.product((0.7, 5.0, 40.0), (None, 0.01, 0.125, 0.5), (np.ones(g), np.linspace(1.0, 0.5 if g > 2 else 1.0, g))):
        kw = {} if dl is None else {"detLim": dl}
        a = cdec.decompose_linear_ZS(t, x, h, xl, w, **kw)
        objs = [Series(t, x[:, j]) for j in range(g)]
        b = cdec.decompose_linear_ZS_series(objs, h, xl, w, **kw)
        need(len(b) == 2, "two Series")
        what = f"decomposition n={n} {g} gauges h={h} {kw}"
        is_series(b[0], t, a[0], what + " incident", m)
        is_series(b[1], t, a[1], what + " reflected", m)
        c = cdec.decompose_linear_ZS_series(objs, h, xl, w, 0.125 if dl is None else dl)
        eq((c[0].xTime, c[1].xTime), a, what + " positional", m)
        c = cdec.decompose_linear_ZS_series(tuple(objs), h, list(xl), list(w), 0.125 if dl is None else dl)
        eq((c[0].xTime, c[1].xTime), a, what + " lists", m)
    m.state(n, g)


def gauge_cases(tier):
    for g in (2, 3, 4, 5):
        for n in (12, 13, 32, 61) + (() if tier == "quick" else (100, 151)):
            for t0 in (0.0, 50.0):
                yield {"n": n, "g": g, "t0": t0}


SPACES = [
    Space("series", "22 lengths x 5 records x 2 axes x every method of Series over crossings, 8 resolutions, 20 bands, 60 segmentations", series_cases, check_series, chunk=2),
    Space("jitter", "4 lengths x 3 records x 4 jitter patterns below 10 % x 2 axes: time step, segment spectra and crossings of the Series", jitter_cases, check_jitter, chunk=4),
    Space("waves", "35 lengths (0..30 and more) x 4 wave lists x 24 fractions and 26 percentages", wave_cases, check_waves, chunk=4),
    Space("spectra", "23 sizes x 5 spectra x 5 x 5 limits (given, partly given, on and off the grid) x every method, synthesis with 6 axes (from two samples)", spectrum_cases, check_spectrum, chunk=2),
    Space("spectral shapes", "JONSWAP and Pierson-Moskowitz objects: 72 argument combinations x 16 axes",
          lambda tier: ({"n": n, "zero": z} for n in (5, 6, 11, 12, 40, 41, 100, 160) for z in (True, False)), check_makers, chunk=1),
    Space("decomposition", "2..5 gauges x 4 lengths x 2 axes x 3 depths x 4 limits x 2 weightings", gauge_cases, check_gauges, chunk=1),
]
