"""Zelt-Skjelbreia separation: every bin, direction and phase on many gauge arrays; general records against weighted
least squares per frequency."""
import itertools
import math

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, need

from deltares_wave_toolbox.cores.core_wave_decomposition import decompose_linear_ZS, decompose_linear_ZS_series
from deltares_wave_toolbox.series import Series

ASSUMPTIONS = [
    "bins whose scaled determinant is within 1e-6 of the limit are not used; the Nyquist bin is only compared for general records",
    "gauge weights add up to at least two (the documented precondition)",
    "the separation is linear: agreement on every bin x direction x phase fixes it for that array",
]
ARRAYS = [
    ([0.0, 1.0], [1.0, 1.0]),
    ([0.0, 0.7, 1.9], [1.0, 1.0, 1.0]),
    ([0.0, 0.7, 1.9], [1.0, 0.4, 0.8]),
    ([5.0, 5.3, 6.1, 7.4], [1.0, 1.0, 1.0, 1.0]),
    ([-3.0, -2.1, -0.2, 0.4], [0.2, 0.9, 0.5, 1.0]),
    ([100.0, 101.0, 103.0, 104.5, 109.0], [1.0, 0.5, 1.0, 0.25, 1.0]),
    ([0.0, 0.5, 1.5], [1.0, 0.0, 1.0]),
    ([0.0, 0.6, 1.7, 2.0], [0.0, 1.0, 1.0, 1.0]),
    ([0.0, 20.0, 55.0], [1.0, 1.0, 1.0]),
    ([2.0, 2.25], [1.0, 1.0]),
    ([0.0, 0.100437, 0.250819], [1.0, 1.0, 1.0]),
    ([12.340519, 12.5618037, 12.9112661, 13.0019402], [1.0, 0.731, 0.8517, 1.0]),
    ([0.0, 0.8, 2.1], [1.0, 0.995, 0.999]),
    ([0.0, 0.008, 0.021], [0.999, 1.0, 0.997]),
    ([0.0, 0.4, 1.1, 1.5, 2.3, 2.9], [1.0, 0.03, 0.01, 1.0, 0.002, 0.04]),
    ([0.0, 0.5, 1.2, 2.0, 2.6, 3.1], [1.0] * 6),
    ([0.0, 0.31, 0.52, 0.9, 1.33, 1.41, 1.77, 2.3, 2.72, 3.9, 4.4], [1.0, 0.9, 0.8, 1.0, 0.0, 0.3, 1.0, 0.55, 1.0, 0.7, 1.0]),
]


def geometry(case):
    xl, wl = ARRAYS[case["array"]]
    n, dt, t0 = case["n"], case["dt"], case.get("t0", 0.0)
    t = ref.axis(n, t0, dt)
    kk = np.array([ref.wavenumber(2 * math.pi * i / (n * dt), case["h"]) for i in range(ref.nfold(n))])
    W = np.array(wl)
    d = np.array(xl) - xl[0]
    det = np.array([abs(0.25 * (W.sum() ** 2 - abs(np.sum(W * np.exp(2j * k * d))) ** 2)) for k in kk])
    return np.array(xl), W, t, d, kk, det


def wave(n, i, k, d, phase, sign):
    """Linear wave of bin i running in +x (sign 1) or -x (sign -1), sampled at the gauges."""
    tt = np.arange(n)
    return np.cos(2 * np.pi * i * tt[:, None] / n - sign * k * d[None, :] + phase)


def check_bins(case, m):
    xl, W, t, d, kk, det = geometry(case)
    n = len(t)
    for lim in case["lims"]:
        kw = {} if lim is None else {"detLim": lim}
        lv = 0.125 if lim is None else lim
        for i in range(1, (n + 1) // 2):
            if abs(det[i] - lv) < 1e-6:
                continue
            for ph in (0.0, 1.1, -2.0):
                for sign in (1, -1):
                    x = wave(n, i, kk[i], d, ph, sign)
                    a, b = decompose_linear_ZS(t, x, case["h"], xl, W, **kw)
                    own = x[:, 0] if det[i] > lv else np.zeros(n)
                    tol = 1e-9 / max(lv, 1e-3)
                    what = f"bin {i} {'incident' if sign > 0 else 'reflected'} phase {ph} limit {lim}"
                    close(a, own if sign > 0 else np.zeros(n), what + ": incident part", rtol=tol, scale=1.0)
                    close(b, own if sign < 0 else np.zeros(n), what + ": reflected part", rtol=tol, scale=1.0)
                    m.step()
            m.state(case["array"], i, bool(det[i] > lv))


def bin_cases(tier):
    for arr in range(len(ARRAYS)):
        for n, dt in ((16, 0.5), (17, 0.5), (24, 0.25), (31, 0.3), (40, 0.2), (41, 1.0)) if tier == "quick" else \
                ((15, 1.0), (16, 0.5), (17, 0.5), (24, 0.25), (31, 0.3), (40, 0.2), (41, 1.0), (64, 0.5), (99, 0.1)):
            for h in (0.6, 5.0, 60.0):
                yield {"array": arr, "n": n, "dt": dt, "h": h, "lims": [None, 0.01, 0.6], "t0": (0.0, -50.0, 1000.0)[arr % 3]}


def sea(case):
    xl, W, t, d, kk, det = geometry(case)
    n = len(t)
    inc = np.zeros((n, len(d)))
    rec = np.zeros((n, len(d)))
    keep_i, keep_r = np.zeros(n), np.zeros(n)
    lim = case.get("lim", 0.125)
    rng = ref.lcg(4 * n, 3)
    for i in range(1, (n + 1) // 2):
        if abs(det[i] - lim) < 1e-6:
            continue
        a, b = wave(n, i, kk[i], d, 7 * rng[i], 1) * abs(rng[n + i]), wave(n, i, kk[i], d, 9 * rng[2 * n + i], -1) * abs(rng[3 * n + i])
        inc += a
        rec += b
        if det[i] > lim:
            keep_i += a[:, 0]
            keep_r += b[:, 0]
    return xl, W, t, inc, rec, keep_i, keep_r


def check_sea(case, m):
    """Whole sea states: recovery, exchange of directions, origins, mean, zero-weight gauges, Series variant."""
    xl, W, t, inc, rec, ki, kr = sea(case)
    lim = case.get("lim", 0.125)
    h = case["h"]
    sc = float(np.max(np.abs(inc + rec)))
    tol = 1e-8 / lim ** 0.5
    amp = case.get("amp", 1.0)
    x = amp * (inc + rec)
    a, b = decompose_linear_ZS(t, x, h, xl, W, lim)
    close(a, amp * ki, "incident sea", rtol=tol, scale=sc * amp)
    close(b, amp * kr, "reflected sea", rtol=tol, scale=sc * amp)
    a2, b2 = decompose_linear_ZS(t, x + 3.7 * amp, h, xl, W, lim)
    close(a2, amp * ki, "incident sea with a mean level", rtol=tol, scale=sc * amp)
    close(b2, amp * kr, "reflected sea with a mean level", rtol=tol, scale=sc * amp)
    for dx in (1000.0, -333.25):
        a3, b3 = decompose_linear_ZS(t, x, h, xl + dx, W, lim)
        close(a3, amp * ki, "incident sea, shifted positions", rtol=tol * 10, scale=sc * amp)
        close(b3, amp * kr, "reflected sea, shifted positions", rtol=tol * 10, scale=sc * amp)
    a4, b4 = decompose_linear_ZS(t + 512.0, x, h, xl, W, lim)
    close(a4, amp * ki, "incident sea, shifted time", rtol=tol * 100, scale=sc * amp)
    close(b4, amp * kr, "reflected sea, shifted time", rtol=tol * 100, scale=sc * amp)
    # running time backwards exchanges the directions
    a5, b5 = decompose_linear_ZS(t, x[::-1].copy(), h, xl, W, lim)
    close(a5, b[::-1], "time reversed: incident", rtol=tol, scale=sc * amp)
    close(b5, a[::-1], "time reversed: reflected", rtol=tol, scale=sc * amp)
    # gauges of weight zero do not matter, whatever they measure
    g = x.copy()
    z = W == 0
    if z.any() and not z[0]:
        g[:, z] = 1e3 * ref.lcg(len(t), 5)[:, None]
        a6, b6 = decompose_linear_ZS(t, g, h, xl, W, lim)
        close(a6, amp * ki, "incident sea with a bad gauge of weight zero", rtol=tol, scale=sc * amp)
        close(b6, amp * kr, "reflected sea with a bad gauge of weight zero", rtol=tol, scale=sc * amp)
    s = decompose_linear_ZS_series([Series(t, x[:, j]) for j in range(x.shape[1])], h, xl, W, lim)
    need(len(s) == 2, "Series variant")
    for o, v, what in ((s[0], a, "incident"), (s[1], b, "reflected")):
        close(o.xTime, v, f"Series variant: {what}", rtol=1e-12, scale=sc * amp)
        close(o.time, t, "Series variant: time axis", rtol=0)
    m.step(9)
    m.state(case["array"], len(t), h)


def sea_cases(tier):
    for arr in range(len(ARRAYS)):
        for h in (0.004, 0.0005, 800.0, math.inf, -3.0):  # very shallow and very deep water, the deep and the shallow limit
            yield {"array": arr, "n": 64, "dt": 0.4, "h": h, "lim": 0.125, "t0": 0.0}
            yield {"array": arr, "n": 41, "dt": 0.02, "h": h, "lim": 0.02, "t0": 0.0}
        for n, dt in ((20, 0.5), (21, 0.5), (64, 0.4), (101, 0.25), (200, 0.1)) + (() if tier == "quick" else ((600, 0.1), (1001, 0.2))):
            for h in (0.5, 4.0, 40.0):
                for lim in (0.125, 0.02):
                    yield {"array": arr, "n": n, "dt": dt, "h": h, "lim": lim, "t0": (0.0, 30.0)[n % 2]}
    for n in (600, 1001):
        yield {"array": 1, "n": n, "dt": 0.2, "h": 2.0}
    for amp in (1e-6, 1e4):
        yield {"array": 2, "n": 64, "dt": 0.4, "h": 3.0, "amp": amp}


def check_general(case, m):
    """Arbitrary gauge records (not a sea state): weighted least squares."""
    xl, W, t, d, kk, det = geometry(case)
    n = len(t)
    if "unit" in case:
        x = np.zeros((n, len(d)))
        x[case["unit"][0], case["unit"][1]] = 1.0
    else:
        x = ref.lcg(n * len(d), case["seed"]).reshape(n, len(d)) + 0.5
    lim = case["lim"]
    if (np.abs(det - lim) < min(1e-6, 1e-2 * lim)).any():
        m.notes["skipped: determinant at the limit"] += 1
        return
    a, b = decompose_linear_ZS(t, x, case["h"], xl, W, lim)
    wa, wb, _ = ref.zs(t, x, case["h"], xl, W, lim, k=kk)
    low = min([float(v) for v in det if v > lim], default=1.0)
    tol = 1e-8 / lim if lim >= 0.01 else 1e-9 + 1e-11 / low
    close(a, wa, "incident part (least squares)", rtol=tol, scale=1.0)
    close(b, wb, "reflected part (least squares)", rtol=tol, scale=1.0)
    m.step()
    m.state(case["array"], n, str(case.get("unit", case.get("seed"))))


def general_cases(tier):
    for arr in range(len(ARRAYS)):
        nl = len(ARRAYS[arr][0])
        for n in (8, 9) if tier == "quick" else (8, 9, 16, 17):
            for i in range(n):
                for j in range(nl):
                    for h in (0.7, 10.0):
                        yield {"array": arr, "n": n, "dt": 0.4, "h": h, "lim": 0.125, "unit": [i, j]}
        for n in (10, 11, 32, 33, 100, 101):
            for dt in (0.1, 0.5, 2.0):
                for h in (0.3, 2.0, 200.0):
                    for lim in (0.125, 0.03, 1.2):
                        yield {"array": arr, "n": n, "dt": dt, "h": h, "lim": lim, "seed": n}
        for n in (12, 33, 50):
            for h in (0.3, 2.0, 200.0):
                for lim in (2e-3, 1e-4, 1e-6):
                    yield {"array": arr, "n": n, "dt": 0.5, "h": h, "lim": lim, "seed": n}
        for n in (600, 999, 1024, 2000) + ((5000, 20001) if arr in (1, 10) else ()):
            yield {"array": arr, "n": n, "dt": 0.25, "h": 3.0, "lim": 0.125, "seed": n}
        for n in (24, 55):
            for h in (math.inf, -0.8, -30.0):
                yield {"array": arr, "n": n, "dt": 0.4, "h": h, "lim": 0.125, "seed": n}


SPACES = [
    Space("bins", "every bin x direction x 3 phases x 3 determinant limits on 17 gauge arrays x 6 time axes x 3 depths", bin_cases, check_bins, chunk=1),
    Space("seas", "sea states on 17 arrays x 5 lengths x 3 depths x 2 limits, depths 0.0005, 0.004, 800, infinite and negative (shallow limit): recovery, mean level, origins, time reversal, zero weights, Series",
          sea_cases, check_sea, chunk=2),
    Space("general", "every unit gauge record and irregular records against weighted least squares on 17 arrays", general_cases, check_general, chunk=4),
]
