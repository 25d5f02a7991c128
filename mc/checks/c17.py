"""Battjes-Groenendijk: normalisation residual, points on the composite Weibull curve, cap, branches, warnings."""
import math
import warnings

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, fail, need
from scipy.special import gamma, gammainc

from deltares_wave_toolbox.cores.core_wavefunctions import compute_BattjesGroenendijk_wave_height_distribution as bg

ASSUMPTIONS = [
    "wave height at most twice the depth (the iteration becomes very slow beyond)",
    "the normalisation is compared to 20 times the tolerance of the iteration",
    "cases within 1e-6 of the 2.75 limit are not used",
]


def second_moment(h1, htr):
    """E[H^2]/Hrms^2 of the composite Weibull distribution with scale h1 and transition htr (both over Hrms)."""
    x = (htr / h1) ** 2
    h2 = htr * x ** (-1 / 3.6)
    a2 = 2 / 3.6 + 1
    return h1**2 * gammainc(2, x) * gamma(2) + h2**2 * gamma(a2) * (1 - gammainc(a2, x)), h2


def check(case, m):
    hm0, d, slope, n, tol = case["hm0"], case["hm0"] / case["ratio"], case["slope"], case["n"], case["tol"]
    htr = (0.35 + 5.8 / slope) * d
    sm = hm0 / 4
    hrms = sm * (2.69 + 3.24 * sm / d)
    if abs(htr / hrms - 2.75) < 1e-6:
        return
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        if case.get("default"):
            H, P = bg(hm0, n, d, cota_slope=slope) if slope != 250 else bg(hm0, n, d)
        else:
            H, P = bg(hm0, n, d, cota_slope=slope, tolerance=tol)
    m.step()
    user = [w for w in log if issubclass(w.category, UserWarning)]
    expect = int(slope < 20 or slope > 250) + int(htr / hrms > 2.75)
    need((len(user) > 0) == (expect > 0), f"{len(user)} warnings, {expect} expected")
    need(len(user) >= expect, f"{len(user)} warnings, {expect} expected")
    if htr / hrms > 2.75:
        need(np.asarray(H).size == 0 and np.asarray(P).size == 0, "Rayleigh regime: result not empty")
        m.state("rayleigh", slope > 250 or slope < 20)
        return
    H, P = np.asarray(H, dtype=float), np.asarray(P, dtype=float)
    need(H.shape == (3,) and P.shape == (3,), f"three points expected: {H} {P}")
    need(H[0] == 0 and abs(P[0] - 1) < 1e-12, "first point")
    ref.rel(H[1], htr, "transition height", rtol=1e-9)
    ref.rel(P[2], 1 / n, "probability of the largest wave", rtol=1e-12)
    need(0 < P[1] < 1, f"probability {P[1]} of the transition height")
    h1 = (htr / hrms) / math.sqrt(-math.log(P[1]))
    mom, h2 = second_moment(h1, htr / hrms)
    need(abs(mom - 1) <= 20 * tol, f"normalised second moment {mom}")
    x1, x2 = h1 * math.sqrt(math.log(n)), h2 * math.log(n) ** (1 / 3.6)
    want = min((x1 if x1 < htr / hrms else x2) * hrms, hm0 * math.sqrt(math.log(n) / 2))
    need(abs(H[2] - want) <= 30 * tol * want, f"largest wave {H[2]}, expected {want}")
    need(H[2] <= hm0 * math.sqrt(math.log(n) / 2) * (1 + 1e-9), "largest wave above the Rayleigh value")
    m.state(round(htr / hrms, 6), n, "x1" if x1 < htr / hrms else "x2", want < (x1 if x1 < htr / hrms else x2) * hrms * (1 - 1e-9))


def cases(tier):
    hs = (0.2, 2.0, 7.0) if tier == "quick" else (0.05, 0.2, 1.0, 2.0, 3.5, 7.0)
    ratios = (0.1, 0.15, 0.2, 0.25, 0.3, 0.4, 0.5, 0.65, 0.8, 1.0, 1.4, 2.0)
    if tier != "quick":
        ratios = tuple(0.08 * 1.06**i for i in range(55))
    for hm0 in hs:
        for r in ratios:
            for slope in (10, 20, 50, 100, 250, 400) if tier == "quick" else (10, 19, 20, 21, 35, 50, 100, 150, 250, 251, 400):
                for n in (1, 2, 20, 1000, 10**6) if tier == "quick" else (1, 2, 3, 10, 100, 700, 1000, 5000, 20000, 10**6, 10**8):
                    yield {"hm0": hm0, "ratio": r, "slope": slope, "n": n, "tol": 1e-5, "default": True}
    for hm0 in (0.03, 1.0, 4.0):
        for r in (0.21, 0.37, 0.52, 0.77):
            for slope in (30, 250):
                for n in (5, 100, 700, 10000):
                    for tol in (1e-5, 1e-4, 1e-3):
                        yield {"hm0": hm0, "ratio": r, "slope": slope, "n": n, "tol": tol}


def edge_cases(tier):
    for r in (0.25, 0.6, 1.4):
        for slope in (1.0, 5, 15, 19, 19.9, 19.999, 20, 20.001, 20.5, 21, 22, 249, 249.999, 250.0, 250.001, 250.5, 251, 252, 260, 1000, 1e5):
            yield {"hm0": 1.0, "ratio": r, "slope": slope, "n": 300, "tol": 1e-5, "default": slope != 250.0}


def scale(ratio, slope):
    """Scale of the lower part (over Hrms) that makes the second moment one, and the transition height over Hrms."""
    sm = 0.25
    d = 1 / ratio
    tr = (0.35 + 5.8 / slope) * d / (sm * (2.69 + 3.24 * sm / d))
    lo, hi = 0.3, 200.0
    if not second_moment(lo, tr)[0] < 1 < second_moment(hi, tr)[0]:
        return None, tr
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        lo, hi = (mid, hi) if second_moment(mid, tr)[0] < 1 else (lo, mid)
    return 0.5 * (lo + hi), tr


def transition_cases(tier):
    """Numbers of waves for which the largest wave is about the transition height."""
    for i in range(12 if tier == "quick" else 40):
        ratio = 0.24 * 1.05**i
        for slope in (20, 60, 100, 250):
            h1, tr = scale(ratio, slope)
            if h1 is None or tr > 2.7 or (tr / h1)**2 > 11:
                continue
            n0 = math.exp((tr / h1)**2)
            for e in (-3e-2, -1e-2, -3e-3, -1e-3, -5e-4, 0.0, 5e-4, 1e-3, 3e-3, 1e-2, 3e-2):
                n = round(n0 * (1 + 2 * e * math.log(n0))) if n0 > 1 else 2
                if n >= 2:
                    yield {"hm0": 1.0, "ratio": ratio, "slope": slope, "n": n, "tol": 1e-7}


SPACES = [Space("at the transition", "up to 12 depth ratios x 4 slopes x 11 numbers of waves for which the largest wave lies within 0.05 to 3 % of the transition height, tolerance 1e-7",
          transition_cases, check, chunk=4),
    Space("slopes", "21 slopes around the ends of the validity range: a warning outside [20, 250] and only there", edge_cases, check, chunk=4),
    Space("grid", "3 heights x 12 depth ratios x 6 slopes x 5 numbers of waves (thorough 6 x 55 x 11 x 11), and tolerances", cases, check, chunk=4)]
