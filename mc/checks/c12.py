"""JONSWAP / Pierson-Moskowitz: every combination of axis, peak, height, enhancement and normalisation."""
import itertools
import math

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, fail, need, rel

from deltares_wave_toolbox.cores import core_wavefunctions as cw

ASSUMPTIONS = ["the peak frequency lies where the density does not vanish on the whole axis"]
AXES = {
    "from zero": lambda n: np.arange(n) * (1.0 / n),
    "from df": lambda n: (1 + np.arange(n)) * (1.0 / n),
    "offset": lambda n: 0.03 + np.arange(n) * (0.7 / n),
    "negative": lambda n: (np.arange(n) - n // 4) * (1.0 / n),
    "wide": lambda n: np.arange(n) * (20.0 / n),
    "narrow": lambda n: 0.08 + np.arange(n) * (0.1 / n),
    "micro": lambda n: (1 + np.arange(n)) * (1e-7 / n),
    "kilo": lambda n: (1 + np.arange(n)) * (4e4 / n),
    "int": lambda n: np.arange(n),
    "int1": lambda n: 1 + np.arange(n),
}


def check(case, m):
    f = AXES[case["ax"]](case["n"])
    n = len(f)
    fp, hm0 = case["fp"], case["hm0"]
    if case["fp"] == "grid":
        fp = float(f[np.flatnonzero(f > 0)[max(1, n // 5)]])
    for gamma in case["gammas"]:
        for tail in (0, 1):
            want = ref.jonswap(f, fp, hm0, gamma, tail)
            if not np.isfinite(want).all() or want.max() <= 0:
                continue
            what = f"fp={fp:g} hm0={hm0:g} gamma={gamma:g} tail={tail}"
            S = cw.create_spectrum_jonswap(f, fp, hm0, gamma, tail)
            close(S, want, what, rtol=1e-9)
            need(all(v == 0 for v in np.asarray(S)[f <= 0]), what + ": not zero at f <= 0")
            mom = ref.moment(f, S, 0, float(f[0]), math.inf if tail else None)
            rel(4 * math.sqrt(mom), hm0, what + ": 4 sqrt(m0)", rtol=1e-9)
            o = cw.create_spectrum_object_jonswap(f, fp, hm0, gamma, tail)
            close(o.sVarDens, want, what + " (object)", rtol=1e-9)
            close(o.f, f, what + " (object frequencies)", rtol=0)
            m.step(2)
            p = cw.create_spectrum_piersonmoskowitz(f, fp, hm0, l_fmax=tail)
            wp = ref.jonswap(f, fp, hm0, 1.0, tail)
            close(p, wp, what + " (Pierson-Moskowitz)", rtol=1e-9)
            q = cw.create_spectrum_object_piersonmoskowitz(f, fp, hm0, l_fmax=tail)
            close(q.sVarDens, wp, what + " (Pierson-Moskowitz object)", rtol=1e-9)
            close(q.f, f, what + " (Pierson-Moskowitz object frequencies)", rtol=0)
            m.step(2)
            m.state(case["ax"], n, round(fp, 6), hm0, gamma, tail)
    # defaults: gamma 3.3, normalised over the axis
    d = ref.jonswap(f, fp, hm0, 3.3, False)
    if np.isfinite(d).all():
        close(cw.create_spectrum_jonswap(f, fp, hm0), d, "default arguments", rtol=1e-9)
        close(cw.create_spectrum_object_jonswap(f, fp, hm0).sVarDens, d, "default arguments (object)", rtol=1e-9)
        m.step(2)


def cases(tier):
    ns = (3, 4, 5, 10, 21, 50, 101, 200) if tier == "quick" else (3, 4, 5, 6, 7, 10, 21, 50, 51, 101, 200, 333, 1000, 4001)
    for n in ns + (1000,):
        for ax in AXES:
            if ax in ("micro", "kilo"):
                for fp in ("grid", 0.31 * AXES[ax](n)[-1], 1.2 * AXES[ax](n)[-1]):
                    yield {"n": n, "ax": ax, "fp": fp if fp == "grid" else float(fp), "hm0": 1.7, "gammas": [1.0, 3.3]}
                continue
            for fp in (0.05, 0.093, 0.125, 0.2, 0.5, 1.3, 2.0, "grid"):
                if ax.startswith("int") and fp != "grid" and fp < 0.5:
                    continue
                for hm0 in (0.01, 1.0, 2.7, 15.0):
                    yield {"n": n, "ax": ax, "fp": fp, "hm0": hm0, "gammas": [0.4, 1.0, 2.0, 3.3, 7.0] if n < 300 else [1.0, 3.3]}


def long_cases(tier):
    for n in (4096, 5000, 20001, 65537) if tier == "quick" else (4096, 5000, 20001, 65537, 100000, 250000):
        for ax in ("from zero", "from df", "offset", "negative", "wide", "narrow"):
            yield {"n": n, "ax": ax, "fp": 0.125, "hm0": 2.3, "gammas": [3.3] if n > 5000 else [1.0, 3.3]}


def check_bad(case, m):
    f = np.arange(1, 20) * 0.02
    for fn in (cw.create_spectrum_jonswap, cw.create_spectrum_object_jonswap):
        try:
            fn(f, 0.1, 1.0, 3.3, case["v"])
        except (ValueError, AssertionError):
            m.step()
            continue
        fail(f"l_fmax={case['v']} accepted")
    m.state(case["v"])


SPACES = [
    Space("grid", "10 kinds of axes (frequencies from 1e-10 to 4e4) x lengths 3..1000 (thorough 4001) x 8 peak frequencies x 4 heights x gamma x both normalisations, functions and objects",
          cases, check, chunk=4),
    Space("long", "axes of 4096..65537 (thorough 250000) frequencies x 6 kinds of axes", long_cases, check, chunk=1),
    Space("normalisation option", "values other than 0 and 1 are rejected", lambda tier: ({"v": v} for v in (-1, 2, 0.5, 3, 1.5)), check_bad),
]
