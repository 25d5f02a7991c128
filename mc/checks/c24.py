"""Metamorphic model: the symmetry group (scale of the signal, scale of time, shift of time) acting on every result."""
import itertools

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, fail, need

from deltares_wave_toolbox.cores import core_dispersion as cdis
from deltares_wave_toolbox.cores import core_spectral as cspe
from deltares_wave_toolbox.cores import core_time as ctim
from deltares_wave_toolbox.cores import core_wave_decomposition as cdec
from deltares_wave_toolbox.cores import core_wavefunctions as cwav
from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = [
    "results are compared to 1e-7 relative (1e-6 for shifts by more than 1e5 steps, where the axis itself loses digits)",
    "quantities with a documented absolute floor are only scaled to 1e-3..1e6; all others from 1e-9 to 1e9",
]
FREE = [2.0, 0.5, 3.7, 1e-3, 1e3, 1e-6, 1e6, 1e-9, 1e9, 2.0**-20, 1e-20, 1e-14, 1e15, 1e25]
FLOORED = [2.0, 0.5, 3.7, 0.01, 1e-3, 1e3, 1e6]
TAUS = [2.0, 0.5, 3.7, 60.0, 1e-3, 1e3, 1 / 44100, 3600.0, 1e5]
SHIFTS = [1.0, -3.7, 250.0, 1e4, -1e4, 1e6]


def record(kind, n):
    if kind == "waves":
        return ref.waves_like(n)
    if kind == "offset":
        return ref.waves_like(n, seed=5) + 0.4
    if kind == "noise":
        return ref.lcg(n, 11)
    if kind == "touch":  # zeros and ties
        return np.array([[1.0, 0.0, -1.0, 0.0, 2.0, -2.0, -2.0, 0.0, 0.0, 3.0, 3.0, -1.0][i % 12] for i in range(n)])
    if kind == "ripple":  # large waves and small ones
        return ref.waves_like(n) + 1e-3 * np.sign(ref.lcg(n, 2))
    if kind == "none":
        return 2.0 + ref.lcg(n, 3)
    raise KeyError(kind)


# an observation: name -> (value, power of the amplitude, power of the time unit, is a time on the axis, floored)
def put(out, name, v, a=0, p=0, time=False, floored=False):
    out[name] = (np.array(ref.flat(v), dtype=complex if np.iscomplexobj(v) else float), a, p, time, floored)


def observe_record(t, x, tau):
    """All results of a record; tau: the unit of time (frequency arguments are given in that unit)."""
    out = {}
    n = len(t)
    for c in ("down", "up"):
        nw, tc = ctim.determine_zero_crossing(t, x, c)
        put(out, f"number of waves {c}", nw)
        put(out, f"crossings {c}", tc, 0, 1, True)
        h, T, ac, at, tcr, ttr = ctim.determine_params_individual_waves(tc, t, x)
        put(out, f"heights {c}", h, 1)
        put(out, f"periods {c}", T, 0, 1)
        put(out, f"crests {c}", ac, 1)
        put(out, f"troughs {c}", at, 1)
        put(out, f"crest times {c}", tcr, 0, 1, True)
        put(out, f"trough times {c}", ttr, 0, 1, True)
    o = Series(t, x)
    put(out, "Series heights", o.hwave, 1)
    put(out, "Series periods", o.twave, 0, 1)
    put(out, "Series crossings", o.tCross, 0, 1, True)
    if o.nwave:
        put(out, "Hrms", o.get_Hrms(), 1)
        put(out, "Hmax", o.get_Hmax(), 1)
    for fr in (1 / 3, 0.1, 1.0):
        h, T = o.highest_waves(fr)
        put(out, f"highest {fr}", h, 1)
        put(out, f"highest period {fr}", T, 0, 1)
    put(out, "H2p", o.get_H2p_Rayleigh(), 1)
    for e in (2.0, 50.0):
        put(out, f"exceedance {e}", o.get_exceedance_waveheight(e), 1)
    put(out, "skewness", o.get_skewness())
    put(out, "asymmetry", o.get_asymmetry())
    for k in ("max", "min", "mean"):
        put(out, k, getattr(o, k)(), 1)
    put(out, "var", o.var(), 2)
    f, X, odd = o.get_fourier_comp()
    put(out, "Fourier frequencies", f, 0, -1)
    put(out, "Fourier components", X, 1)
    put(out, "synthesis", cspe.freq2time(cspe.unfold_spectrum(f, X, odd)[1]), 1)
    df = 1 / (n * (t[1] - t[0]))
    for d in (0.0, 2 * df, 5 * df):
        f, s = cspe.compute_spectrum_time_series(t, x, d)
        put(out, f"frequencies {d * n * (t[1] - t[0]):.0f}", f, 0, -1)
        put(out, f"density {d * n * (t[1] - t[0]):.0f}", s, 2, 1)
    sp = o.get_spectrum(dfDesired=0.0503 / tau)
    put(out, "Welch frequencies", sp.f, 0, -1)
    put(out, "Welch density", sp.sVarDens, 2, 1)
    sp = o.get_spectrum(nperseg=8, noverlap=3, nfft=11, use_dfDesired=False)
    put(out, "Welch density 2", sp.sVarDens, 2, 1)
    for lo, hi in ((0.053713, 0.296171), (0.0, 0.113177), (0.213719, 9.0)):
        put(out, f"filtered {lo}", cspe.bandpassfilter(t, x, lo / tau, hi / tau), 1)
    raw = o.get_spectrum_raw(2 * df)
    if raw.nf > 8:
        observe_spectrum(out, raw.f[1:], raw.sVarDens[1:], tau, "raw ")
    return out


def observe_spectrum(out, f, s, tau, pre=""):
    sp = Spectrum(f, s)
    lims = [{}, {"fmin": 0.071317 / tau, "fmax": 0.311713 / tau}]
    for i, kw in enumerate(lims):
        if kw and (kw["fmin"] < f[0] or kw["fmax"] > f[-1]):
            continue
        put(out, f"{pre}Hm0 {i}", sp.get_Hm0(**kw), 1)
        put(out, f"{pre}Tp {i}", sp.get_Tp(**kw), 0, 1)
        put(out, f"{pre}Tps {i}", sp.get_Tps(**kw), 0, 1, floored=True)
        for k in ("Tmm10", "Tm01", "Tm02"):
            put(out, f"{pre}{k} {i}", getattr(sp, "get_" + k)(**kw), 0, 1)
        put(out, f"{pre}s0p {i}", sp.get_s0p(**kw), 1, -2, floored=True)
        put(out, f"{pre}smm10 {i}", sp.get_smm10(**kw), 1, -2)
        r = cwav.compute_spectrum_params(f, s, *kw.values())
        put(out, f"{pre}params Hm0 {i}", r[0], 1, floored=True)
        for j, k in enumerate(("Tp", "Tps", "Tmm10", "Tm01", "Tm02")):
            put(out, f"{pre}params {k} {i}", r[j + 1], 0, 1, floored=True)
    for k, a, p in (("Hm0_HF", 1, 0), ("Hm0_LF", 1, 0), ("Tmm10_HF", 0, 1), ("Tmm10_LF", 0, 1), ("smm10_HF", 1, -2)):
        put(out, pre + k, getattr(sp, "get_" + k)(), a, p)
    for m in (-1, 0, 1, 2):
        put(out, f"{pre}moment {m}", cwav.compute_moment(f, s, m), 2, -m)
        put(out, f"{pre}moment {m} with tail", cwav.compute_moment(f, s, m, float(f[0]), np.inf), 2, -m)
    put(out, pre + "tpd", cwav.tpd(f, s), 0, 1)
    put(out, pre + "tps", cwav.compute_tps(f, s), 0, 1, floored=True)
    df = f[1] - f[0]
    fa, sa = cspe.frequency_averaging(f, s, 3 * df)
    put(out, pre + "averaged frequencies", fa, 0, -1)
    put(out, pre + "averaged density", sa, 2, 1)
    t, x = cspe.spectrum2timeseries(f, s, 0.0, 40.0 * tau, 0.5 * tau, 4)
    put(out, pre + "synthesised times", t, 0, 1)
    put(out, pre + "synthesised record", x, 1)
    np.random.seed(77)
    o = sp.create_series(0.0, 40.0 * tau, 0.5 * tau)
    put(out, pre + "synthesised series", o.xTime, 1)


def judge(base, got, c, tau, shift, what, m, floored, rtol):
    need(base.keys() == got.keys(), f"{what}: other results")
    for k, (v, a, p, time, fl) in base.items():
        if fl and not floored:
            continue
        w = got[k][0]
        want = v * (c**a * tau**p) + (shift if time else 0.0)
        sc = float(np.max(np.abs(want))) if want.size and np.isfinite(want).any() else 1.0
        if k == "Fourier components" and want.size:
            sc = float(np.nanmax(np.abs(want)))
        # mean-like results of cancelling sums: relative to the size of the data
        extra = CANCEL.get(k, 0.0) * c**a * tau**p
        close(w, want, f"{what}: {k}", rtol=rtol, scale=sc + extra)
        m.step()


CANCEL = {"mean": 1.0, "skewness": 1.0, "asymmetry": 1.0, "filtered 0.053713": 1.0, "filtered 0.0": 1.0, "filtered 0.213719": 1.0}


def check_record(case, m):
    n, kind, dt, t0 = case["n"], case["kind"], case["dt"], case["t0"]
    t, x = ref.axis(n, t0, dt), record(kind, n)
    base = observe_record(t, x, 1.0)
    for c in FREE:
        judge(base, observe_record(t, c * x, 1.0), c, 1.0, 0.0, f"{kind} n={n} dt={dt}: record x {c}", m, c in FLOORED, 1e-7)
    for tau in TAUS:
        judge(base, observe_record(t * tau, x, tau), 1.0, tau, 0.0, f"{kind} n={n} dt={dt}: time x {tau}", m, True, 1e-7)
    for s in SHIFTS:
        judge(base, observe_record(t + s, x, 1.0), 1.0, 1.0, s, f"{kind} n={n} dt={dt}: time + {s}", m, True, 1e-7 if abs(s) <= 1e4 else 1e-5)
    for c, tau, s in itertools.product((3.7, 0.01), (60.0, 0.25), (0.0, 40.0)):
        judge(base, observe_record(t * tau + s, c * x, tau), c, tau, s, f"{kind} n={n} dt={dt}: record x {c}, time x {tau} + {s}", m, True, 1e-7)
    m.state(n, kind, dt, t0, tuple(base))


def record_cases(tier):
    for n in (24, 49, 100, 181) if tier == "quick" else (24, 25, 49, 64, 100, 181, 300, 511):
        for kind in ("waves", "offset", "noise", "touch", "ripple", "none"):
            for dt, t0 in ((1.0, 0.0), (0.5, -20.0)) if tier == "quick" else ((1.0, 0.0), (0.5, -20.0), (0.2, 7.0)):
                yield {"n": n, "kind": kind, "dt": dt, "t0": t0}


# ---------------------------------------------------------------- spectra
def spec(kind, n):
    f = np.arange(1, n + 1) * (0.5 / n)
    if kind == "jonswap":
        return f, ref.jonswap(f, 0.13, 2.0, 3.3, False)
    if kind == "double":
        return f, ref.jonswap(f, 0.09, 1.0, 6.0, False) + ref.jonswap(f, 0.27, 1.3, 1.0, False) + 0.02
    if kind == "rough":
        return f, 0.6 + 0.5 * ref.lcg(n, 8)
    if kind == "from zero":
        f = np.arange(n) * (0.5 / n)
        return f, ref.jonswap(f, 0.2, 1.5, 2.0, False) + 0.01
    if kind == "two equal":
        s = 0.1 + np.exp(-((f - 0.2) / 0.05) ** 2)
        i = int(np.argmax(s))
        s[i + 1] = s[i]
        return f, s
    raise KeyError(kind)


def check_spectrum(case, m):
    f, s = spec(case["kind"], case["n"])
    base = {}
    observe_spectrum(base, f, s, 1.0)
    name = f"{case['kind']} nf={case['n']}"
    for c in FREE:
        got = {}
        observe_spectrum(got, f, s * c**2, 1.0)
        judge(base, got, c, 1.0, 0.0, f"{name}: density x {c}^2", m, c in FLOORED, 1e-7)
    for tau in TAUS:
        for c in (1.0, 3.7):
            got = {}
            observe_spectrum(got, f / tau, s * tau * c**2, tau)
            judge(base, got, c, tau, 0.0, f"{name}: density x {c}^2, time x {tau}", m, True, 1e-7)
    m.state(case["kind"], case["n"])


def spectrum_cases(tier):
    for n in (20, 33, 64, 101, 200) if tier == "quick" else (15, 20, 33, 64, 101, 200, 333, 500):
        for kind in ("jonswap", "double", "rough", "from zero", "two equal"):
            yield {"kind": kind, "n": n}


# ---------------------------------------------------------------- other functions
def check_other(case, m):
    i = case["i"]
    n = case["n"]
    f = np.arange(1, n + 1) * (0.6 / n)
    if i == "jonswap":
        for gamma, tail in itertools.product((1.0, 3.3, 7.0), (0, 1)):
            for make in (cwav.create_spectrum_jonswap, cwav.create_spectrum_piersonmoskowitz):
                a = make(f, 0.12, 2.0, gamma, tail)
                for c in FREE:
                    close(make(f, 0.12, 2.0 * c, gamma, tail), a * c**2, f"density of Hm0 x {c}", rtol=1e-9)
                    m.step()
                for tau in TAUS:
                    close(make(f / tau, 0.12 / tau, 2.0, gamma, tail), a * tau, f"density with time x {tau}", rtol=1e-8)
                    m.step()
    elif i == "dispersion":
        w = np.arange(-5, n) * 0.13
        for h in (0.5, 4.0, 60.0, np.inf, -3.0):
            k = cdis.disper(w, h)
            for c in (2.0, 0.5, 3.7, 1e3, 1e-3):
                close(cdis.disper(w, h * c, 9.81 * c), k / c, f"wave number, length x {c}, h={h}", rtol=1e-9)
                close(cdis.disper(w / c, h, 9.81 / c**2), k, f"wave number, time x {c}, h={h}", rtol=1e-9)
                m.step(2)
            close(cdis.disper(-w, h), -k if np.isfinite(h) else k, f"wave number of -w, h={h}", rtol=1e-12)
            m.step()
    elif i == "distribution":
        for hm0, d, cot, nw in itertools.product((0.6, 1.0), (0.8, 1.5, 2.5), (30.0, 250.0), (n, 1000)):
            a = cwav.compute_BattjesGroenendijk_wave_height_distribution(hm0, nw, d, cot)
            for c in (2.0, 0.5, 3.7, 1e3, 1e-3):
                b = cwav.compute_BattjesGroenendijk_wave_height_distribution(hm0 * c, nw, d * c, cot)
                close(ref.flat(b[0]), ref.flat(a[0]) * c, f"distribution hm0={hm0} d={d} x {c}: heights", rtol=1e-6)
                close(ref.flat(b[1]), ref.flat(a[1]), f"distribution hm0={hm0} d={d} x {c}: probabilities", rtol=1e-6)
                m.step()
    elif i == "coherence":
        X, Y = (ref.lcg(n, 3) + 1j * ref.lcg(n, 4)), (ref.lcg(n, 5) + 1j * ref.lcg(n, 6))
        for d in (0.0, 2.0, 5.0):
            fa, a = cspe.coherence(f, X, Y, d * f[0])
            for c1, c2, tau in itertools.product((1.0, 3.7, 1e4, 1e-2), (1.0, 1e-2, 50.0), (1.0, 60.0, 0.01)):
                fb, b = cspe.coherence(f / tau, c1 * X, c2 * Y, d * f[0] / tau)
                if np.min(np.abs(X)) * c1 < 1e-4 or np.min(np.abs(Y)) * c2 < 1e-4:
                    continue
                close(b, a, f"coherence of signals x {c1}, x {c2}, time x {tau}", rtol=1e-8)
                close(fb, fa / tau, "coherence frequencies", rtol=1e-8)
                m.step()
    elif i == "decomposition":
        t = ref.axis(n, 0.0, 0.5)
        x = np.stack([ref.waves_like(n, seed=j) for j in range(3)], axis=1)
        xl, w = np.array([0.0, 1.1, 3.0]), np.array([1.0, 0.5, 1.0])
        a = cdec.decompose_linear_ZS(t, x, 5.0, xl, w)
        sc = max(float(np.max(np.abs(v))) for v in a)
        for c in FREE:
            b = cdec.decompose_linear_ZS(t, c * x, 5.0, xl, w)
            for u, v in zip(a, b):
                close(v, u * c, f"decomposition of the record x {c}", rtol=1e-7, scale=sc * c)
            m.step()
        for c in (2.0, 0.013, 0.37, 250.0):  # lengths x c, times x sqrt(c): the same waves under the same gravity
            b = cdec.decompose_linear_ZS(t * c**0.5, x, 5.0 * c, xl * c, w)
            for u, v in zip(a, b):
                close(v, u, f"decomposition with lengths x {c}", rtol=1e-6, scale=sc)
            m.step()
        for s in SHIFTS:
            b = cdec.decompose_linear_ZS(t + s, x, 5.0, xl + 0.0, w)
            for u, v in zip(a, b):
                close(v, u, f"decomposition with time + {s}", rtol=1e-6, scale=sc)
            b = cdec.decompose_linear_ZS(t, x, 5.0, xl + s, w)
            for u, v in zip(a, b):
                close(v, u, f"decomposition with gauges moved by {s}", rtol=1e-6, scale=sc)
            m.step(2)
    elif i == "waves":
        h, T = np.abs(ref.lcg(n, 3)) + 0.1, 3.0 + np.abs(ref.lcg(n, 4))
        o = WaveHeights(h, T)
        base = (o.get_Hs(), o.get_Hrms(), o.get_Hmax(), o.get_H2p_Rayleigh(), [o.get_exceedance_waveheight(p) for p in (0.0, 1.0, 13.0, 50.0, 100.0)])
        for c, tau in itertools.product(FREE, TAUS):
            o = WaveHeights(h * c, T * tau)
            got = (o.get_Hs(), o.get_Hrms(), o.get_Hmax(), o.get_H2p_Rayleigh(), [o.get_exceedance_waveheight(p) for p in (0.0, 1.0, 13.0, 50.0, 100.0)])
            close(got[0], np.array(base[0]) * [c, tau], f"Hs, Ts with heights x {c}, periods x {tau}", rtol=1e-9) if False else None
            ref.rel(got[0][0], float(base[0][0] * c), f"Hs with heights x {c}", rtol=1e-9)
            ref.rel(got[0][1], float(base[0][1] * tau), f"Ts with periods x {tau}", rtol=1e-9)
            for j in (1, 2, 3):
                ref.rel(got[j], float(base[j] * c), f"Hrms, Hmax, H2p with heights x {c}", rtol=1e-9)
            close(got[4], np.array(base[4]) * c, f"exceeded heights x {c}", rtol=1e-9)
            m.step()
    else:
        fail(i)
    m.state(i, n)


def other_cases(tier):
    for n in (8, 21, 64, 150) if tier == "quick" else (5, 8, 13, 21, 40, 64, 150, 400):
        for i in ("jonswap", "dispersion", "distribution", "coherence", "decomposition", "waves"):
            yield {"i": i, "n": n}


SPACES = [
    Space("records", "48 records (6 kinds x 4 lengths x 2 axes) x 10 amplitude scales 1e-9..1e9, 6 time scales, 6 shifts, 8 combined: about 110 results each", record_cases, check_record, chunk=1),
    Space("spectra", "25 spectra (5 kinds x 5 sizes) x 10 amplitude scales, 6 x 2 time and amplitude scales: about 40 results each", spectrum_cases, check_spectrum, chunk=1),
    Space("other", "JONSWAP, dispersion, Battjes-Groenendijk, coherence, decomposition, wave lists x scales of length, time and amplitude, 4 sizes", other_cases, check_other, chunk=1),
]
