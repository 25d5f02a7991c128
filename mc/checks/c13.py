"""Smoothed peak period on every small density, every axis, and on sampled parabolas with a known vertex."""
import itertools
from fractions import Fraction

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import need, rel, scalar

from deltares_wave_toolbox.cores.core_wavefunctions import compute_tps
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = ["the vertex is compared to 1e-6 of a grid step plus 1e-9 relative",
               "densities between 1e-11 and 1e-9 at their largest are not used (floor of 1e-10)"]
AXES = [(0.1, 0.1), (0.05, 0.01), (1.0, 1.0), (0.3, 0.001), (2.0, 0.5), (1.0 / 512, 1.0 / 512)]


def judge(got, f, s, what):
    w = ref.tps(list(f), list(s))
    g = float(scalar(got, what))
    h = f[1] - f[0] if len(f) > 1 else 1.0
    if w == -999.0:
        need(g == -999, f"{what}: {g}, expected -999")
    elif isinstance(w, tuple):
        need(np.isfinite(g) and w[0] * (1 - 1e-9) <= g <= w[1] * (1 + 1e-9), f"{what}: {g}, periods of the range are {w}")
    else:
        need(g > 0 and abs(1 / g - 1 / w) <= 1e-6 * h + 1e-9 / w, f"{what}: {g}, expected {w}")
    return w


def check(case, m):
    s = np.array(case["s"]) * case.get("amp", 1.0)
    n = len(s)
    for ax in case.get("axes", AXES):
        f = ref.axis(n, *ax)
        w = judge(compute_tps(f, s), f, s, f"axis {ax}")
        judge(compute_tps(list(f), list(s)), f, s, f"axis {ax} (lists)")
        m.step(2)
        if n >= 2:
            judge(Spectrum(f, s).get_Tps(), f, s, f"Spectrum.get_Tps axis {ax}")
            m.step()
            if n >= 4:  # sub-ranges of the object: limits cut the density
                for i, j in ((1, n - 1), (0, n - 2), (1, n - 2)):
                    judge(Spectrum(f, s).get_Tps(fmin=float(f[i]), fmax=float(f[j])), f[i:j + 1], s[i:j + 1], f"get_Tps range {i}..{j} axis {ax}")
                    m.step()
        m.state(n, ax, w if not isinstance(w, tuple) else "set")


def check_parabola(case, m):
    n, i, frac, ax = case["n"], case["i"], case["frac"], case["ax"]
    f = ref.axis(n, *ax)
    h = ax[1]
    v = f[i] + frac * h
    for curv, top in ((1.0, 5.0), (1e3, 1.0), (1e-3, 1e4)):
        s = np.maximum(top - curv * ((f - v) / h) ** 2, 0.0) if case["clip"] else top + curv * n * n - curv * ((f - v) / h) ** 2
        if s.max() < 1e-9:
            continue
        g = float(scalar(compute_tps(f, s), "tps"))
        if abs(abs(frac) - 0.5) > 1e-9 and (not case["clip"] or (s[i - 1] > 0 and s[i + 1] > 0)):
            need(abs(1 / g - v) <= 1e-5 * h + 1e-9 * v, f"vertex {v}, got {1 / g}")
        need(abs(1 / g - f[i]) <= h * (1 + 1e-9), f"more than one step from the peak {f[i]}: {1 / g}")
        m.step()
    m.state(n, i, frac)


def words(tier):
    for n in range(1, 7 if tier == "quick" else 8):
        for w in itertools.product((0.0, 1.0, 2.0, 3.0) if n < 6 or tier != "quick" else (0.0, 1.0, 2.0), repeat=n):
            yield {"s": list(w)}
    for w in itertools.product((0.0, 1.0, 1.0000001, 0.9999999), repeat=4):
        yield {"s": list(w)}
    for n in range(1, 4):
        for w in itertools.product((0.0, 1.0, 2.0), repeat=n):
            for amp in (1e-12, 2e-9, 1e-8, 1e8):
                yield {"s": list(w), "amp": amp, "axes": AXES + [(1000.0, 1000.0), (1e-5, 1e-5)]}


def peaks(tier):
    for n in (5, 6, 20, 21, 100, 500) if tier == "quick" else (5, 6, 7, 20, 21, 100, 101, 500, 2000):
        for i in range(1, n - 1) if n < 30 else sorted({1, 2, n // 3, n // 2, n - 3, n - 2}):
            for k in range(-10, 11):
                for ax in AXES:
                    for clip in (False, True):
                        yield {"n": n, "i": i, "frac": k / 20 * 0.999, "ax": ax, "clip": clip}


def long_shapes(tier):
    for n in (33, 100, 257, 1000, 1025, 4097, 20001) if tier == "quick" else (33, 100, 257, 1000, 1025, 4097, 8192, 20001, 65537):
        for k in (0, 1, n // 2, n - 2, n - 1):
            for k2 in (None, k + 1, k + 2, 0, n - 1, (k + n // 2) % n):
                s = 0.2 + 0.1 * np.abs(ref.lcg(n, 3))
                s[k] = 2.0
                if k2 is not None and k2 < n:
                    s[k2] = 2.0
                yield {"s": s.tolist(), "axes": [(0.05, 0.01), (0.3, 0.001)]}
                s[(k + 3) % n] = 2.0
                yield {"s": s.tolist(), "axes": [(0.05, 0.01)]}
        yield {"s": np.linspace(0.1, 1, n).tolist()}
        yield {"s": np.linspace(1, 0.1, n).tolist()}
        yield {"s": [1.0] * n}


def vertex(f, s):
    """Vertex of the parabola through three points, exactly."""
    (x0, x1, x2), (y0, y1, y2) = [Fraction(float(v)) for v in f], [Fraction(float(v)) for v in s]
    d01, d12 = (y1 - y0) / (x1 - x0), (y2 - y1) / (x2 - x1)
    c = (d12 - d01) / (x2 - x0)
    return float((x0 + x1) / 2 - d01 / (2 * c))


def check_uneven(case, m):
    """compute_tps takes axes with unequal steps (the existing tests do): the vertex of the parabola through the peak and its neighbours."""
    steps, s = case["steps"], np.array(case["s"])
    f = case["f0"] + np.concatenate(([0.0], np.cumsum(steps))) * case["df"]
    i = int(np.argmax(s))
    if not 0 < i < len(s) - 1 or int(np.sum(s == s[i])) != 1:
        return
    v = vertex(f[i - 1:i + 2], s[i - 1:i + 2])
    for got in (compute_tps(f, s), compute_tps(list(f), list(s)), compute_tps(f, s * 1e4)):
        g = float(scalar(got, "tps"))
        need(abs(1 / g - v) <= 1e-6 * min(steps) * case["df"] + 1e-9 * v, f"vertex {v}, got {1 / g} on the axis {f.tolist()}")
        m.step()
    m.state(tuple(steps), i)


def uneven_cases(tier):
    for n in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6):
        for steps in itertools.product((0.5, 1.0, 1.75), repeat=n - 1):
            for s in itertools.product((0.5, 1.0, 3.0), repeat=n) if n < 5 else itertools.permutations((0.5, 1.0, 3.0, 2.0, 2.5, 1.5)[:n]):
                for f0, df in ((0.1, 0.1), (2.0, 0.01)) if n < 5 else ((0.1, 0.1),):
                    yield {"steps": list(steps), "s": list(s), "f0": f0, "df": df}


SPACES = [
    Space("uneven axes", "all axes of 3..5 (thorough 6) frequencies with steps from {.5,1,1.75} x all densities over 3 values or all orders of distinct values with one inner peak",
          uneven_cases, check_uneven, chunk=64),
    Space("words", "all densities over {0,1,2,3} of length 1..5 (6: {0,1,2}; thorough: {0,1,2,3} to 7), near-ties, scales, on 6 axes, function and object, sub-ranges",
          words, check, chunk=8),
    Space("parabolas", "sampled parabolas: every peak position x 21 vertex offsets x 3 curvatures x 6 axes x lengths", peaks, check_parabola, chunk=32),
    Space("long", "long densities with one, two or three equal peaks at every kind of position", long_shapes, check, chunk=2),
]
