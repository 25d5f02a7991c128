"""Inconsistent input is rejected, consistent input accepted: a defect of every kind and size at every position."""
import numpy as np
from mc import api, ref
from mc.core import Space
from mc.ref import fail, need

from deltares_wave_toolbox.cores import core_engine as ceng
from deltares_wave_toolbox.cores import core_spectral as cspe
from deltares_wave_toolbox.cores import core_time as ctim
from deltares_wave_toolbox.cores import core_wave_decomposition as cdec
from deltares_wave_toolbox.cores import core_wavefunctions as cwav
from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = [
    "'rejected' is any Exception, 'accepted' is an answer",
    "defects are at least 1e-8 and at least 1e-4 of the step (functions and Spectrum), or half a step (Series, which tolerates sampling jitter)",
    "compute_tps accepts non-uniform axes (the existing tests require it); the crossing functions and the averaging do not check the axis",
    "weights with a sum between 1 and 2 are unspecified (documentation says at least 2, code more than 1)",
]


def x_of(n):
    return 0.3 + ref.lcg(n, 4)


def s_of(n):
    return 1.0 + 0.5 * ref.lcg(n, 5)


TAX = {  # functions that need a uniform time axis
    "time2freq": lambda t: cspe.time2freq(t, x_of(len(t))),
    "time2freq_nyquist": lambda t: cspe.time2freq_nyquist(t, x_of(len(t))),
    "compute_spectrum_time_series": lambda t: cspe.compute_spectrum_time_series(t, x_of(len(t))),
    "bandpassfilter": lambda t: cspe.bandpassfilter(t, x_of(len(t)), 0.01, 0.3),
    "decompose_linear_ZS": lambda t: cdec.decompose_linear_ZS(t, np.stack([x_of(len(t)), x_of(len(t)) + 1], axis=1), 5.0, [0.0, 1.3], [1.0, 1.0]),
}
FAX = {  # functions that need a uniform frequency axis
    "compute_spectrum_freq_series": lambda f: cspe.compute_spectrum_freq_series(f, s_of(len(f)) * (1 + 1j), 2 * len(f)),
    "compute_spectrum_params": lambda f: cwav.compute_spectrum_params(f, s_of(len(f))),
    "compute_moment": lambda f: cwav.compute_moment(f, s_of(len(f)), 0),
    "compute_moment[limits]": lambda f: cwav.compute_moment(f, s_of(len(f)), 1, float(f[0]), np.inf),
    "compute_moment[-1]": lambda f: cwav.compute_moment(f, s_of(len(f)), -1),
    "jonswap": lambda f: cwav.create_spectrum_jonswap(f, 0.2 * abs(f[0]) + 0.5 * abs(f[-1]) + 1e-9, 2.0),
    "pm object": lambda f: cwav.create_spectrum_object_piersonmoskowitz(f, 0.2 * abs(f[0]) + 0.5 * abs(f[-1]) + 1e-9, 2.0),
    "tpd": lambda f: cwav.tpd(f, s_of(len(f))),
    "Spectrum": lambda f: Spectrum(f, s_of(len(f))),
}
LOOSE = {"Series": lambda t: Series(t, x_of(len(t)))}
ENG = {"monotonic_increasing_constant_step": lambda t: ceng.monotonic_increasing_constant_step(t) or fail_quietly()}
ALL = {**TAX, **FAX, **LOOSE, **ENG}


class Refused(Exception):
    pass


def fail_quietly():
    raise Refused()


def rejects(f, what, *a):
    try:
        r = f(*a)
    except Exception:
        return
    fail(f"{what}: accepted (answer {r!r:.120})")


def accepts(f, what, *a):
    try:
        return f(*a)
    except Exception as e:
        fail(f"{what}: rejected with {type(e).__name__}: {e}")


# ---------------------------------------------------------------- axes
def uniform(n, t0, dt):
    return t0 + np.arange(n) * dt


def defect(t, k, d, kind):
    """kind 'step': step k is (1+d) times the others; 'point': point k+1 is displaced by d steps."""
    t = t.copy()
    dt = t[1] - t[0]
    if kind == "step":
        t[k + 1:] += d * dt
    else:
        t[k + 1] += d * dt
    return t


SIZES = [1.0, -0.5, 0.01, -0.01, 1e-4, -1e-4, "ulp", "-ulp", -1.0, -2.0, -1.5, 3.0]
BIG = [1.0, -0.9, -1.0, -2.0, 3.0, 0.7]


def check_defect(case, m):
    n, dt, t0 = case["n"], case["dt"], case["t0"]
    t = uniform(n, t0, dt)
    pos = range(n - 1) if n <= case["full"] else sorted({0, 1, 2, n // 3, n // 2, n - 4, n - 3, n - 2})
    for k in pos:
        for kind in ("step", "point"):
            for d in SIZES:
                if isinstance(d, str):  # just above the stated threshold, whatever the resolution of the axis
                    d = (-1.5 if d[0] == "-" else 1.5) * max(1e-8 + 16 * np.spacing(abs(t0) + n * dt), 1e-4 * dt) / dt
                if n == 2 and d > -1.0:
                    continue  # two points with a positive step are uniform
                if abs(d) * dt < 1e-8 + 16 * np.spacing(abs(t0) + n * dt):
                    continue
                bad = defect(t, k, d, kind)
                for name, f in ALL.items():
                    if name in LOOSE and d not in BIG:
                        continue
                    if name in FAX and t0 < 0:
                        continue
                    rejects(f, f"{name}: n={n} dt={dt} t0={t0} {kind} {k} off by {d} steps", bad)
                    m.step()
                m.state(n, k, kind, d)
        if n > 2:  # the Series tolerance too
            for d in BIG:
                if abs(d) * dt >= 1e-8 + 16 * np.spacing(abs(t0) + n * dt):
                    rejects(LOOSE["Series"], f"Series: n={n} dt={dt} t0={t0} step {k} off by {d} steps", defect(t, k, d, "step"))
                    m.step()
    # all steps wrong
    i = np.arange(n)
    for bad in (t[::-1], np.full(n, t[0]), t[0] + dt * i**2 * 1.0 if n > 2 else -t, t[0] + dt * (i + 0.2 * (i % 2)) if n > 2 else -t,
                t[0] + dt * np.sqrt(i) if n > 2 else -t):
        for name, f in ALL.items():
            if bad[1] > bad[0] and n == 2:
                continue
            if name in FAX and t0 < 0:
                continue
            rejects(f, f"{name}: n={n} dt={dt} axis {bad[:4]}...", bad)
            m.step()


def defect_cases(tier):
    for n in (2, 3, 4, 5, 8, 17, 40, 101, 300) + (() if tier == "quick" else (33, 64, 257, 1001)):
        for dt, t0 in ((1.0, 0.0), (0.1, -7.0), (1e-3, 0.5), (1e-6, 0.0), (50.0, 3000.0), (0.5, 1.6e9), (1.0, -2e10), (0.05, 1e7)):
            if n > 20 and dt in (0.1, 1e-6) and tier == "quick":
                continue
            yield {"n": n, "dt": dt, "t0": t0, "full": 20 if tier == "quick" else 101}


def check_late(case, m):
    """Long axes: only the constructor and the axis check, a missing or doubled sample at every position."""
    n = case["n"]
    t = uniform(n, case["t0"], case["dt"])
    for k in range(case["from"], min(n - 1, case["from"] + 40)):
        for d in (1.0, -1.0, -0.9):
            bad = defect(t, k, d, "step")
            need(not ceng.monotonic_increasing_constant_step(bad), lambda: f"axis check: n={n} step {k} off by {d} accepted")
            x = np.ones(n)  # no crossings: the constructor is quick
            rejects(lambda: Series(bad, x), f"Series: n={n} dt={case['dt']} step {k} off by {d} steps")
            rejects(lambda: Spectrum(bad, x), f"Spectrum: n={n} dt={case['dt']} step {k} off by {d} steps")
            m.step(3)
    m.state(n, case["from"])


def late_cases(tier):
    for n in (200, 513) + (() if tier == "quick" else (1200, 2049)):
        for s in range(0, n, 40):
            yield {"n": n, "from": s, "dt": 0.1, "t0": 0.0}


def check_long(case, m):
    """Long axes, a defect near every place a shortcut would look at or stop at; the functions reject before they compute."""
    n, dt, t0 = case["n"], case["dt"], case["t0"]
    t = uniform(n, t0, dt)
    pos = {0, 1, n // 4, n // 2, 3 * n // 4, n - 3, n - 2}
    for b in (100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 50000, 65536, 100000, 131072):
        pos |= {b - 2, b - 1, b, b + 1}
    pos = sorted(k for k in pos if 0 <= k < n - 1)
    for k in pos[case["part"]::4]:
        for d in (1.0, -1.0, 0.01, -2.0):
            bad = defect(t, k, d, "step")
            for name, f in {**TAX, **FAX, **LOOSE, **ENG}.items():
                if name in LOOSE and d == 0.01 or name == "jonswap" or name == "pm object" or name == "decompose_linear_ZS" and n > 2100:
                    continue
                rejects(f, f"{name}: n={n} dt={dt} step {k} off by {d} steps", bad)
                m.step()
        m.state(n, k)
    i = np.arange(n)  # a step that grows or shrinks slowly, or wanders: no two neighbouring steps differ much
    for total in (1e-3, -1e-3, 0.1, -0.5, 1.0):
        for shape in (i**2 / (2.0 * n), n / 6.3 * np.sin(6.3 * i / n), np.where(i < n / 2, 0, i - n / 2) ** 2 / n):
            bad = t + dt * total * shape
            for name, f in {**TAX, **FAX, **ENG}.items():
                if name in ("jonswap", "pm object") or name == "decompose_linear_ZS" and n > 2100:
                    continue
                rejects(f, f"{name}: n={n} dt={dt} step drifting by {total}", bad)
                m.step()


def long_cases(tier):
    for n in (1025, 2049, 4500, 9001) + ((20001,) if tier == "quick" else (20001, 70001, 140001)):
        for part in range(4):
            yield {"n": n, "dt": 0.1, "t0": 0.0, "part": part}


def check_uniform(case, m):
    n, dt, t0 = case["n"], case["dt"], case["t0"]
    i = np.arange(n)
    forms = {"multiples": t0 + i * dt, "linspace": np.linspace(t0, t0 + (n - 1) * dt, n), "running sum": t0 + np.concatenate([[0.0], np.cumsum(np.full(n - 1, dt))])}
    if dt == 0.1:
        forms["division"] = t0 + i / 10
    for form, t in forms.items():
        what = f"uniform axis n={n} dt={dt} t0={t0} ({form})"
        need(ceng.monotonic_increasing_constant_step(t), what + ": axis check says no")
        for name, f in {**TAX, **FAX, **LOOSE}.items():
            if name in FAX and t0 < 0 or name == "decompose_linear_ZS" and n > 200:
                continue
            if name in ("jonswap", "pm object", "tpd", "compute_moment[-1]") and not (1e-4 <= dt <= 10 and t0 < 1e3):
                continue
            accepts(f, f"{name}: {what}", t)
            m.step()
        accepts(lambda: cspe.compute_spectrum_time_series(list(t), list(x_of(n)), 2 / (n * dt)), "list: " + what)
        o = Series(t, x_of(n))
        accepts(lambda: (o.get_spectrum_raw((2 if n > 6 else 1) / (n * dt)), o.get_fourier_comp(), o.get_bandpassfilter(0.0, 0.2 / dt)), "Series methods: " + what)
        m.step(2)
    m.state(n, dt, t0)


def uniform_cases(tier):
    for n in list(range(2, 13)) + [31, 64, 100, 601, 1000, 3001] + ([] if tier == "quick" else [10007, 65536]):
        for dt in (1.0, 0.1, 0.04, 1 / 3, 1e-3, 1e-6, 60.0, 1e4):
            for t0 in (0.0, -7.3, 0.05, 1e4, 86400 * 365.25, 1.7e9, -1.7e9):
                if abs(t0) > 1e6 and dt < 1e-2:
                    continue
                yield {"n": n, "dt": dt, "t0": t0}


# ---------------------------------------------------------------- lengths and dimensions
PAIRS = {  # two arrays that must have the same length
    "sort_wave_params": lambda n: ("sort_wave_params", 0, 1),
    **{k: (lambda n, k=k: (k, 0, 1)) for k in
       ("determine_zero_crossing[down]", "determine_zero_crossing[up]", "highest_waves_params", "time2freq", "time2freq_nyquist", "compute_spectrum_time_series",
        "compute_spectrum_freq_series", "spectrum2timeseries[seed]", "spectrum2timeseries_object", "bandpassfilter", "compute_spectrum_params",
        "compute_moment[0]", "compute_moment[-1]", "compute_moment[2,limits]", "tpd", "compute_tps", "Series.", "Spectrum.")},
    "determine_params_individual_waves": lambda n: ("determine_params_individual_waves", 1, 2),
}
TWOD = {  # array arguments documented to be one-dimensional
    "sort_wave_params": (0, 1), "determine_zero_crossing[down]": (0, 1), "determine_zero_crossing[up]": (0, 1), "highest_waves_params": (0, 1),
    "exceedance_wave_height": (0,), "determine_params_individual_waves": (0, 1, 2), "frequency_averaging": (0, 1), "unfold_spectrum": (0, 1), "freq2time": (0,),
    "time2freq": (0, 1), "time2freq_nyquist": (0, 1), "compute_spectrum_time_series": (0, 1), "compute_spectrum_freq_series": (0, 1),
    "spectrum2timeseries[seed]": (0, 1), "bandpassfilter": (0, 1), "compute_spectrum_params": (0, 1), "compute_moment[0]": (0, 1), "compute_tps": (0, 1),
}


def call(k, args):
    if k == "Series.":
        return Series(*args)
    if k == "Spectrum.":
        return Spectrum(*args)
    return api.OPS[k].call(*args)


def build(k, n):
    return api.OPS["Series.max" if k == "Series." else k].args(n, 0)


def check_length(case, m):
    n = case["n"]
    for k, sp in PAIRS.items():
        _, i, j = sp(n)
        base = build(k, n)
        na = len(base[i])
        if na < 2:
            continue
        for which in (i, j):
            for new in sorted({na - 1, na + 1, na + 2, 2 * na, na // 2, 1} - {na, 0}):
                if k == "highest_waves_params":
                    full = np.linspace(9.0, 1.0, new)
                elif which == i and k not in ("sort_wave_params",):  # keep the axis uniform
                    full = base[which][0] + np.arange(new) * (base[which][1] - base[which][0])
                else:
                    full = np.resize(base[which], new)
                args = list(base)
                args[which] = full
                rejects(lambda: call(k, args), f"{k}: lengths {len(args[i])} and {len(args[j])}")
                rejects(lambda: call(k, [a.tolist() if isinstance(a, np.ndarray) else a for a in args]), f"{k}: lists of lengths {len(args[i])} and {len(args[j])}")
                m.step(2)
                m.state(k, n, which, new)
    for k, idx in TWOD.items():
        base = build(k, n)
        for i in idx:
            if np.asarray(base[i]).size < 2:
                continue
            for c in (2, 3):
                args = list(base)
                args[i] = np.stack([np.asarray(base[i])] * c, axis=1)
                rejects(lambda: call(k, args), f"{k}: argument {i} with {c} columns (n={n})")
                m.step()
            m.state(k, n, i, "2d")


def length_cases(tier):
    for n in list(range(4, 14)) + [31, 64, 200] + ([] if tier == "quick" else [601, 1024]):
        yield {"n": n}


# ---------------------------------------------------------------- options
def check_option(case, m):
    n = case["n"]
    h = np.sort(0.5 + np.abs(ref.lcg(n, 3)))[::-1] if n else np.empty(0)
    p = 4.0 + np.arange(n)
    t, x = ref.axis(max(n, 2), 0, 0.5), ref.lcg(max(n, 2), 6) + case["off"]
    for bad in (-1e-9, -0.1, -1.0, 1.0 + 1e-9, 1.5, 2.0, 33.0, float("inf"), -float("inf")):
        rejects(ctim.highest_waves_params, f"fraction {bad} of {n} waves", h, p, bad)
        rejects(WaveHeights(h, p).highest_waves, f"WaveHeights: fraction {bad} of {n} waves", bad)
        m.step(2)
    for good in (0.0, 1.0, 1, 0, 0.5, 1e-12, 1 - 1e-12):
        accepts(ctim.highest_waves_params, f"fraction {good} of {n} waves", h, p, good)
        accepts(WaveHeights(h, p).highest_waves, f"WaveHeights: fraction {good} of {n} waves", good)
        m.step(2)
    for bad in (-1e-9, -1.0, -50.0, 100.0 + 1e-9, 101.0, 1000.0, float("inf"), -float("inf")):
        rejects(ctim.exceedance_wave_height, f"percentage {bad} of {n} waves", h, bad)
        rejects(WaveHeights(h, p).get_exceedance_waveheight, f"WaveHeights: percentage {bad} of {n} waves", bad)
        m.step(2)
    for good in (0.0, 100.0, 100, 0, 2, 50.0, 1e-12):
        accepts(ctim.exceedance_wave_height, f"percentage {good} of {n} waves", h, good)
        accepts(WaveHeights(h, p).get_exceedance_waveheight, f"WaveHeights: percentage {good} of {n} waves", good)
        m.step(2)
    for bad in ("", "sideways", "upp", "up ", "downcrossing", "d", "u", "both", "updown", "down,up", "zero"):
        rejects(ctim.determine_zero_crossing, f"crossing {bad!r}, n={n}", t, x, bad)
        rejects(lambda: Series(t, x).get_crossing(bad), f"Series: crossing {bad!r}, n={n}")
        m.step(2)
    for good in ("up", "down", "UP", "Down", "dOWN", "Up"):
        a = accepts(ctim.determine_zero_crossing, f"crossing {good!r}", t, x, good)
        api.same(api.norm(a), api.norm(ctim.determine_zero_crossing(t, x, good.lower())), f"crossing {good!r} against {good.lower()!r}")
        m.step()
    # heights that are not sorted, at every position
    for k in range(n - 1):
        bad = h.copy()
        bad[[k, k + 1]] = bad[[k + 1, k]]
        if bad[k] != bad[k + 1]:
            rejects(ctim.highest_waves_params, f"heights {k}, {k + 1} of {n} swapped", bad, p, 0.5)
            rejects(ctim.exceedance_wave_height, f"heights {k}, {k + 1} of {n} swapped", bad, 40.0)
            m.step(2)
    if n > 3:
        f = api.faxis(n, 0)
        for bad in (0.5, 2.0, -1.0, 1e-9):
            for fn in (cwav.create_spectrum_jonswap, cwav.create_spectrum_object_jonswap, cwav.create_spectrum_piersonmoskowitz, cwav.create_spectrum_object_piersonmoskowitz):
                rejects(lambda: fn(f, 0.1, 1.0, 2.0, bad), f"{fn.__name__}: l_fmax={bad}")
                m.step()
        for good in (0, 1, 0.0, 1.0, True, False):
            accepts(lambda: cwav.create_spectrum_jonswap(f, 0.1, 1.0, 2.0, good), f"l_fmax={good}")
            m.step()
    m.state(n, case["off"])


def option_cases(tier):
    for n in list(range(0, 12)) + [30, 77]:
        for off in (0.0, 3.0):
            yield {"n": n, "off": off}


# ---------------------------------------------------------------- order at any scale
def check_order(case, m):
    """However small the step: an axis with an equal or a decreasing pair anywhere is rejected."""
    n, dt = case["n"], case["dt"]
    t = np.arange(n) * dt
    for name, f in {**TAX, **LOOSE, **ENG}.items():
        if n > 2:
            accepts(f, f"{name}: uniform axis of {n} steps of {dt}", t)
            m.step()
    for k in range(1, n):
        eq, low, sw = t.copy(), t.copy(), t.copy()
        eq[k] = eq[k - 1]
        low[k] = low[k - 1] - 0.5 * dt
        sw[[k - 1, k]] = sw[[k, k - 1]]
        for bad, what in ((eq, "equal"), (low, "decreasing"), (sw, "exchanged")):
            for name, f in ALL.items():
                if name not in ("jonswap", "pm object"):
                    rejects(f, f"{name}: {what} values {k - 1} and {k} of {n}, step {dt}", bad)
                    m.step()
    m.state(n, dt)


# ---------------------------------------------------------------- integer axes
def check_intaxis(case, m):
    """Integer axes of every width: increasing ones accepted, decreasing, constant and broken ones rejected."""
    n, dtype = case["n"], case["dtype"]
    info = np.iinfo(dtype)
    top = min(int(info.max), 10**6)
    step = max(1, (top - 3) // max(n, 2))
    for st in sorted({1, step}):
        t = 2 + st * np.arange(n)
        for name, f in ALL.items():
            if n >= (4 if name in FAX or name in LOOSE else 3) and name not in ("jonswap", "pm object"):
                accepts(f, f"{name}: {dtype} axis of {n} steps of {st}", t.astype(dtype))
            rejects(f, f"{name}: decreasing {dtype} axis of {n} steps of {st}", t[::-1].astype(dtype))
            rejects(f, f"{name}: constant {dtype} axis", np.full(n, 7).astype(dtype))
            m.step(3)
            for k in range(1, n - 1):
                bad = t.copy()
                bad[k] = bad[k - 1]
                rejects(f, f"{name}: {dtype} axis with value {k} doubled", bad.astype(dtype))
                bad = t.copy()
                bad[k:] = bad[k:][::-1]
                if k < n - 1:
                    rejects(f, f"{name}: {dtype} axis turning at {k}", bad.astype(dtype))
                m.step(2)
    t, x, xl, w = gauge_set(12, 3)
    for pos, ok in (((0, 3, 7), True), ((7, 3, 0), False), ((3, 0, 7), False), ((0, 7, 3), False), ((3, 3, 7), False), ((100, 50, 1), False), ((1, 50, 120), True)):
        both(t, x, np.array(pos, dtype=dtype), w, f"positions {pos} as {dtype}", ok, m, "array-as-is")
    m.state(n, dtype)


# ---------------------------------------------------------------- gauges
def gauge_set(n, g):
    t = ref.axis(n, 0.0, 0.5)
    xl = np.cumsum([0.0, 1.3, 0.9, 2.1, 1.1, 0.7][:g])
    x = np.stack([ref.lcg(n, 3 + j) for j in range(g)], axis=1)
    return t, x, xl, np.ones(g)


def both(t, x, xl, w, what, ok, m, form):
    xl, w = (list(map(float, xl)), list(map(float, w))) if form == "list" else (np.asarray(xl), np.asarray(w))
    do = accepts if ok else rejects
    do(lambda: cdec.decompose_linear_ZS(t, x, 5.0, xl, w), f"decomposition ({form}): {what}")
    if len(t) == len(x):
        do(lambda: cdec.decompose_linear_ZS_series([Series(t, x[:, j]) for j in range(x.shape[1])], 5.0, xl, w), f"decomposition of Series ({form}): {what}")
    m.step(2)


def check_gauges(case, m):
    n, g = case["n"], case["g"]
    t, x, xl, w = gauge_set(n, g)
    for form in ("array", "list"):
        both(t, x, xl, w, f"{g} gauges, {n} samples", g >= 2, m, form)
        if g < 2:
            continue
        # number
        for other in range(1, 7):
            if other != g:
                o = gauge_set(n, other)
                both(t, x, o[2], w, f"{g} signals, {other} positions", False, m, form)
                both(t, x, xl, o[3], f"{g} signals, {other} weights", False, m, form)
                both(t, x, o[2], o[3], f"{g} signals, {other} positions and weights", False, m, form)
                both(t, o[1], xl, w, f"{other} signals, {g} positions and weights", False, m, form)
        # order
        for a in range(g):
            for b in range(a + 1, g):
                bad = xl.copy()
                bad[[a, b]] = bad[[b, a]]
                both(t, x, bad, w, f"positions {a} and {b} of {g} exchanged", False, m, form)
                bad = xl.copy()
                bad[b] = bad[a]
                both(t, x, bad, w, f"positions {a} and {b} of {g} equal", False, m, form)
        # weights
        for a in range(g):
            for v, ok in ((-0.1, False), (-1e-9, False), (1.0 + 1e-9, False), (1.5, False), (3.0, False), (-2.0, False), (0.0, g >= 3), (1.0, True)):
                bad = w.copy()
                bad[a] = v
                if ok or v < 0 or v > 1:
                    both(t, x, xl, bad, f"weight {a} of {g} is {v}", ok, m, form)
        both(t, x, xl, w * 0, "all weights zero", False, m, form)
        both(t, x, xl, w / g, "weights with sum one", False, m, form) if g in (2, 4) else None
        both(t, x, xl, w * 0.4 / g, "weights with sum 0.4", False, m, form)
        both(t, x, xl, np.eye(g)[g - 1], "only one weight", False, m, form)
        # samples
        for nt in (n - 1, n + 1, 2 * n, 1):
            if nt >= 2:
                both(ref.axis(nt, 0, 0.5), x, xl, w, f"{n} samples, {nt} times", False, m, form)
        for a in range(1, g):
            for nt in (n - 1, n + 1, 2 * n, n // 2):
                objs = [Series(t, x[:, j]) if j != a else Series(ref.axis(nt, 0, 0.5), ref.lcg(nt, 9)) for j in range(g)]
                rejects(lambda: cdec.decompose_linear_ZS_series(objs, 5.0, xl, w), f"Series {a} of {g} has {nt} samples, the others {n}")
                m.step()
        for k in range(1, g):
            objs = [Series(t, x[:, j]) for j in range(g) if j != k]
            rejects(lambda: cdec.decompose_linear_ZS_series(objs, 5.0, xl, w), f"Series {k} of {g} missing")
            m.step()
        rejects(lambda: cdec.decompose_linear_ZS_series([], 5.0, xl, w), "no Series")
        m.step()
    m.state(n, g)


def gauge_cases(tier):
    for g in (1, 2, 3, 4, 5, 6):
        for n in (4, 5, 9, 16, 40) + (() if tier == "quick" else (7, 64, 101)):
            yield {"n": n, "g": g}


SPACES = [
    Space("order at any scale", "axes of 2..12 and 50 values with steps 1e-12..1e5: equal, decreasing or exchanged values at every position rejected by 16 functions and constructors, the axis itself accepted",
          lambda tier: ({"n": n, "dt": dt} for n in list(range(2, 13)) + [50] for dt in (1e-12, 1e-10, 1e-9, 3e-8, 1e-4, 1.0, 1e5)), check_order, chunk=2),
    Space("integer axes", "17 functions and constructors x 8 integer types x axes of 3..9 points: increasing, decreasing, constant, doubled value and turning point at every position; gauge positions",
          lambda tier: ({"n": n, "dtype": d} for n in range(3, 10 if tier == "quick" else 20) for d in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64")), check_intaxis, chunk=1),
    Space("axis defects", "16 functions and constructors x axes of 2..300 points (thorough 1001), 6 step/start combinations x every position (to 20, thorough 101 points; "
          "8 positions beyond) x 10 sizes of a wrong step or displaced point, 5 globally non-uniform axes", defect_cases, check_defect, chunk=1),
    Space("late defects", "missing, doubled or shortened step at every position of axes of 200 and 513 (thorough 2049) points", late_cases, check_late, chunk=1),
    Space("long axes", "missing, doubled, reversed or 1 % longer step around every round number and power of two, and slowly drifting steps, of axes of 1025..20001 (thorough 140001) points", long_cases, check_long, chunk=1),
    Space("uniform axes", "17 lengths to 3001 (thorough 65536) x 8 steps 1e-6..1e4 x 7 start times incl. +-1.7e9, 4 ways to compute the axis", uniform_cases, check_uniform, chunk=4),
    Space("lengths and dimensions", "20 functions x 13 lengths x 6 wrong lengths of either array (arrays and lists); 18 functions x arrays of 2 and 3 columns",
          length_cases, check_length, chunk=1),
    Space("options", "fractions, percentages, crossing directions, tail switch, order of sorted heights at every position, for 0..11, 30 and 77 waves", option_cases, check_option, chunk=1),
    Space("gauges", "1..6 gauges x 5 record lengths: every wrong number, exchanged or equal pair of positions, weight, sample count and missing gauge", gauge_cases, check_gauges, chunk=1),
]
