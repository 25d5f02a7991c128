"""Synthesis: energy per Fourier bin for every draw of phases (stubbed) and for seeds, time axis, reproducibility."""
import bisect
import itertools
import math

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, need, rel

from deltares_wave_toolbox.cores import core_spectral as cs
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = [
    "an end time between two steps is not within 0.05 steps of the middle between them",
    "the Nyquist bin and bins within 1e-9 of the ends of the spectrum's axis are not compared",
    "phases are enumerated by replacing numpy.random.rand during the call, where the code draws them there (counted in notes)",
]


def spectrum(kind):
    if kind == "jonswap":
        f = 0.011 + np.arange(60) * 0.0101
        return f, ref.jonswap(f, 0.15, 2.0, 3.3, False)
    if kind == "zero":
        f = np.arange(0, 41) * 0.0237
        return f, ref.jonswap(f, 0.2, 1.0, 1.0, False)
    if kind == "flat":
        f = 0.0503 + np.arange(9) * 0.0701
        return f, np.full(9, 0.7)
    if kind == "narrow":
        f = 0.1003 + np.arange(5) * 0.0011
        return f, np.array([0.0, 3.0, 5.0, 2.0, 0.0])
    if kind == "wide":  # beyond Nyquist of every axis used
        f = np.arange(0, 200) * 0.517
        return f, 1.0 / (1 + f)
    if kind.startswith("long"):  # many frequencies, among them none of the record
        n = int(kind[4:])
        f = 1e-4 + np.arange(n) * (0.731 / n)
        return f, 0.3 + (np.arange(n) * 37 % 101) / 101 * (f < 0.5)
    if kind == "uneven":
        f = 0.0101 + np.cumsum([0.013, 0.031, 0.0073, 0.02, 0.057, 0.011] * 7)
        return f, np.array([(i * 17 % 29) / 7 for i in range(len(f))])
    if kind == "log":
        f = 0.011 * 1.06 ** np.arange(60)
        return f, ref.jonswap(f / 1.0, 0.11, 1.5, 3.3, False)
    if kind == "int":
        return np.arange(0, 6), np.array([0, 4, 3, 2, 1, 0])
    raise KeyError(kind)


def judge(t, x, f, s, t0, nt, dt, what, scale=1.0):
    want_t = t0 + np.arange(nt) * dt
    close(t, want_t, what + ": time axis", rtol=0, atol=1e-9 * dt + (1e-14 + 3e-16 * nt) * max(abs(t0), abs(want_t[-1])))
    x = np.asarray(x, dtype=float)
    need(x.shape == (nt,), f"{what}: {x.shape} samples for {nt} times")
    if nt % 2:
        x = np.append(x, -np.sum(x))
    n = len(x)
    X = ref.dft(x)
    df = 1 / (n * dt)
    top = 2 * max(1e-300, max(abs(float(v)) for v in s))
    need(abs(X[0]) / n <= 1e-9 * math.sqrt(np.mean(x * x) + 1e-300) + 1e-15, f"{what}: mean {X[0].real / n}")
    for k in range(1, n // 2):
        fk = k * df
        if min(abs(fk - f[0]), abs(fk - f[-1])) < 1e-9 * f[-1]:
            continue
        w = interp(fk, f, s)
        g = 2 * abs(X[k]) ** 2 / (df * n * n)
        need(abs(g - w) <= 1e-8 * top, lambda: f"{what}: density {g} at {fk}, spectrum has {w}")
    return X


def interp(x, f, s):
    if x < f[0] or x > f[-1]:
        return 0.0
    if x >= f[-1]:
        return float(s[-1])
    i = max(0, bisect.bisect_right(f, x) - 1)
    return float(s[i] + (s[i + 1] - s[i]) * (x - f[i]) / (f[i + 1] - f[i]))


def check_seed(case, m):
    f, s = spectrum(case["spec"])
    s = s * case.get("amp", 1)
    nt, dt, t0 = case["nt"], case["dt"], case["t0"]
    te = t0 + (nt - 1 + case.get("frac", 0.0)) * dt
    recs = []
    for seed in case["seeds"]:
        t, x = cs.spectrum2timeseries(f, s, t0, te, dt, seed)
        judge(t, x, f, s, t0, nt, dt, f"seed {seed}")
        np.random.rand(3)
        t2, x2 = cs.spectrum2timeseries(f, s, t0, te, dt, seed=seed)
        if seed >= 0:
            close(x2, x, f"seed {seed} again", rtol=1e-12)
        elif np.max(np.abs(x)) > 0:
            need(np.max(np.abs(x - x2)) > 1e-9 * np.max(np.abs(x)), "two unseeded records are equal")
        recs.append(x)
        m.step(2)
        if seed >= 0 and nt >= 3 and not case.get("fun"):
            o = cs.spectrum2timeseries_object(f, s, t0, te, dt, seed)
            close(o.time, t, "object time axis", rtol=0)
            close(o.xTime, x, f"object, seed {seed}", rtol=1e-12)
            m.step()
    for a, b in itertools.combinations(recs, 2):
        need(nt < 4 or np.max(np.abs(a)) == 0 or np.max(np.abs(a - b)) > 1e-9 * np.max(np.abs(a)), "different seeds give the same record")
    if nt >= 3 and not case.get("fun"):
        o = Spectrum(f, s).create_series(t0, te, dt)
        judge(o.time, o.xTime, f, s, t0, nt, dt, "create_series")
        o = cs.spectrum2timeseries_object(f, s, t0, te, dt)
        judge(o.time, o.xTime, f, s, t0, nt, dt, "object without seed")
        m.step(2)
    m.state(case["spec"], nt, dt)


def axes_cases(tier):
    ns = list(range(4, 34)) + [50, 51, 100, 101, 256, 257] if tier == "quick" else list(range(4, 131)) + [256, 257, 500, 501]
    for nt in ns:
        for i, (dt, t0) in enumerate(((0.5, 0.0), (0.1, 0.0), (1.0, -20.0), (0.3, 7.7), (1, 0), (0.7, 1e5), (0.05, 0.15))):
            for spec in ("jonswap", "zero", "flat", "narrow", "wide", "int"):
                if (nt + i) % 2 == 0 or nt < 12:
                    yield {"spec": spec, "nt": nt, "dt": dt, "t0": t0, "seeds": [0, 1, -1] if nt < 60 else [0, 7]}


def long_cases(tier):
    for nt in (600, 601, 1000, 1001, 2048, 3601, 5000) if tier == "quick" else (600, 601, 1000, 1001, 2048, 3601, 5000, 10001, 36001):
        for dt, t0 in ((0.1, 0.0), (0.5, 100.0), (0.2, -3.0), (0.7, 0.0)):
            for spec in ("jonswap", "flat", "zero"):
                for amp in (1, 1e-6, 1e4):
                    yield {"spec": spec, "nt": nt, "dt": dt, "t0": t0, "seeds": [0, 12345, 2**31 - 1], "amp": amp}


def axis_cases(tier):
    for spec in ("uneven", "log", "long1025", "long4097", "long20001", "long70000"):
        for nt in (4, 5, 31, 64, 201, 1000, 5001):
            for dt, t0 in ((0.5, 0.0), (1.0, -20.0), (0.31, 7.7)):
                yield {"spec": spec, "nt": nt, "dt": dt, "t0": t0, "seeds": [0, 7], "fun": spec in ("uneven", "log")}


def end_cases(tier):
    for nt in (2, 3, 4, 5, 8, 9, 20, 33, 100, 101, 1000, 1001):
        for dt, t0 in ((0.5, 0.0), (0.1, 0.0), (1.0, -20.0), (0.3, 7.7), (0.7, 1e5)):
            for fr in (-0.45, -0.3, -0.1, -1e-6, 1e-6, 0.1, 0.3, 0.45):
                yield {"spec": "jonswap", "nt": nt, "dt": dt, "t0": t0, "seeds": [0, 7], "frac": fr}
    for nt in (1, 2, 3):
        for spec in ("jonswap", "flat", "wide"):
            for dt, t0 in ((0.5, 0.0), (2.0, -3.0), (0.3, 7.7)):
                yield {"spec": spec, "nt": nt, "dt": dt, "t0": t0, "seeds": [0, 7], "fun": nt < 3}


def check_phases(case, m):
    """Every assignment of phases from a grid to the bins: replace the generator for the duration of the call."""
    f, s = spectrum("flat")
    nt, dt = case["nt"], 1.0
    real = np.random.rand
    used = []

    def fake(*shape):
        n = int(np.prod(shape)) if shape else 1
        used.append(n)
        v = np.array([case["ph"][i % len(case["ph"])] for i in range(n)])
        return v.reshape(shape)

    np.random.rand = fake
    try:
        t, x = cs.spectrum2timeseries(f, s, 0.0, float(nt - 1), dt)
    finally:
        np.random.rand = real
    m.notes["phases enumerated" if used else "generator not at numpy.random.rand"] += 1
    X = judge(t, x, f, s, 0.0, nt, dt, f"phases {case['ph']}")
    m.step()
    if used:
        m.state(nt, tuple(np.round(np.angle(X[1:len(X) // 2]), 6).tolist()))


def phase_cases(tier):
    grid = (0.0, 0.25, 0.5, 0.75) if tier == "quick" else (0.0, 1 / 6, 1 / 3, 0.5, 2 / 3, 5 / 6)
    for nt in (8, 9, 10, 11):
        for ph in itertools.product(grid, repeat=(nt + 1) // 2):
            yield {"nt": nt, "ph": list(ph)}


def check_spread(case, m):
    """Phases of one record: all different, filling the circle, without relation between neighbouring bins or seeds."""
    f = np.arange(0, 101) * 0.0101
    s = np.ones(101)
    nt = case["nt"]
    ph = []
    for seed in case["seeds"]:
        t, x = cs.spectrum2timeseries(f, s, 0.0, (nt - 1) * 0.5, 0.5, seed)
        if nt % 2:
            x = np.append(x, -np.sum(x))
        X = ref.dft(x)[1:len(x) // 2]
        ph.append(np.angle(X))
        m.step()
    for i, p in enumerate(ph):
        n = len(p)
        need(len(np.unique(np.round(p, 9))) > 0.99 * n, "bins share phases")
        for what, q in (("phases", p), ("neighbouring phases", np.diff(p)), ("neighbouring phase steps", np.diff(p, 2)), ("two bins apart", p[2:] - p[:-2]), ("sums", p[1:] + p[:-1])):
            need(abs(np.mean(np.exp(1j * q))) < 6 / math.sqrt(n), f"{what} are not spread over the circle: {abs(np.mean(np.exp(1j * q)))}")
        quad = np.histogram(np.mod(p, 2 * np.pi), bins=8, range=(0, 2 * np.pi))[0] / n
        need(quad.min() > 0.125 - 3 / math.sqrt(n), f"part of the circle is not reached: {quad}")
        for r in ph[:i]:
            need(abs(np.mean(np.exp(1j * (p - r)))) < 6 / math.sqrt(n), "phases of different seeds are related")
    m.state(nt)


def check_huge(case, m):
    """Very long records: phases distinct and spread, energy per bin, reproducible by seed, different without."""
    nt = case["nt"]
    f, s = np.arange(0, 101) * 0.0101, np.ones(101)
    rec = []
    for seed in (5, 5, 6, -1, -1, None):
        a = (f, s, 0.0, (nt - 1) * 0.5, 0.5)
        t, x = cs.spectrum2timeseries(*a, seed) if seed is not None else cs.spectrum2timeseries(*a)
        need(len(t) == nt and len(x) == nt, f"{len(x)} samples")
        y = np.append(x, -np.sum(x)) if nt % 2 else np.asarray(x)
        n = len(y)
        X = ref.dft(y)[1:n // 2]
        w = np.where(np.arange(1, n // 2) / (n * 0.5) <= f[-1], 1.0, 0.0)
        g = 2 * np.abs(X) ** 2 * 0.5 / n
        need(np.max(np.abs(g - w)) < 1e-7, f"energy per bin off by {np.max(np.abs(g - w))}")
        p = np.angle(X)
        need(len(np.unique(np.round(p, 11))) > 0.999 * len(p), "bins share phases")
        for lag in (1, 2, 100, 1024, 4096, 5000, 8192, 10000, len(p) // 2):
            if lag < len(p) - 100:
                q = p[lag:] - p[:-lag]
                need(abs(np.mean(np.exp(1j * q))) < 6 / math.sqrt(len(q)), f"phases {lag} bins apart are related")
        rec.append(x)
        m.step()
    close(rec[1], rec[0], "same seed", rtol=1e-12)
    for i, j in ((0, 2), (0, 3), (3, 4), (3, 5), (4, 5)):
        need(abs(np.corrcoef(rec[i], rec[j])[0, 1]) < 0.2, "two records with different seeds, or without, are related")
    m.state(nt)


SPACES = [
    Space("axes", "6 spectra x all record lengths 4..33 (thorough 130) and to 257 x 7 (step, start) x seeds; object variants", axes_cases, check_seed, chunk=4),
    Space("ends", "end times between steps (8 offsets) x 12 lengths from 2 to 1001 x 5 time axes; records of 1..3 samples", end_cases, check_seed, chunk=4),
    Space("long", "records of 600..5000 samples (thorough 36001) x 4 time axes x 3 spectra x 3 amplitudes x 3 seeds", long_cases, check_seed, chunk=1),
    Space("spectrum axes", "unequal and logarithmic steps (function) and 1025..70000 frequencies x 7 record lengths x 3 time axes x seeds", axis_cases, check_seed, chunk=1),
    Space("very long", "records of 8193..100001 (thorough 524288) samples: energy of every bin, distinct and unrelated phases, seeds and no seed",
          lambda tier: ({"nt": nt} for nt in (8193, 16384, 20001, 20002, 30000, 65536, 100001) + (() if tier == "quick" else (131073, 262144, 524288))), check_huge, chunk=1),
    Space("phases", "every assignment of 4 (thorough 6) phases to the bins of records of 8..11 samples", phase_cases, check_phases, chunk=32),
    Space("spread", "phases of long records: distinct, spread, unrelated between bins and seeds",
          lambda tier: ({"nt": nt, "seeds": [0, 1, 2, 3, 100]} for nt in (1000, 1001, 2500, 4001)), check_spread, chunk=1),
]
