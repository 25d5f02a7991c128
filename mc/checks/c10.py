"""Spectral moments: Simpson weights on every basis density, exactness on quadratics, tail, and limit handling."""
import itertools
import math

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import need, rel

from deltares_wave_toolbox.cores import core_engine
from deltares_wave_toolbox.cores.core_wavefunctions import compute_moment

ASSUMPTIONS = [
    "limits are not half-way between two frequencies (which neighbour is nearest is then a matter of rounding)",
    "orders -2..3 (order 4 has a divergent tail)",
    "the moment is linear in S: agreement on every unit density fixes the quadrature weights for that axis, order and limits",
]
FAX = [(0.0, 0.1), (0.1, 0.1), (0.05, 0.01), (0.0, 1.0), (2.0, 0.25), (0.3, 1e-3), (0.0, 0.0078125), (1e-7, 1e-7), (0.0, 2e-8), (1 / 30, 1 / 30)]
ORDERS = (-2, -1, 0, 1, 2, 3)


def call(f, s, m, a, b):
    kw = {}
    if a is not None:
        kw["fmin"] = a
    if b is not None:
        kw["fmax"] = b
    return compute_moment(f, s, m, **kw)


def judge(f, s, m, a, b, what):
    want = ref.moment(f, s, m, a, b)
    # rounding scale: the same sum with absolute values
    lo = max(abs(v) for v in s) * max(max(abs(float(v)) ** m for v in f if v != 0), 1e-300) * (f[-1] - f[0])
    rel(call(f, s, m, a, b), want, what, rtol=1e-9, atol=1e-13 * float(lo))


def limits(f, full):
    n = len(f)
    df = float(f[1] - f[0])
    pts = [float(v) for v in f]
    lo, hi = [None], [None]
    for i in range(n) if full else sorted({0, 1, n // 3, n // 2, n - 2}):
        lo += [pts[i], pts[i] + 0.3 * df] + ([pts[i] - 0.3 * df] if i else [])
    for i in range(n) if full else sorted({1, n // 2, n - 3, n - 2, n - 1}):
        hi += [pts[i], pts[i] - 0.3 * df] + ([pts[i] + 0.3 * df] if i < n - 1 else [])
    hi += [pts[-1] + 0.2 * df, pts[-1] * 1.5 + df, pts[-1] * 10 + df, math.inf]
    for a in lo:
        for b in hi:
            if a is not None and b is not None and a > b:
                continue
            if a == -1.0 or b == -1.0:
                continue
            yield a, b


def check_basis(case, m):
    f = ref.axis(case["n"], *case["ax"])
    o = case["m"]
    s = np.zeros(case["n"])
    s[case["j"]] = 1.0
    for a, b in limits(f, case["n"] <= 7):
        judge(f, s, o, a, b, f"moment {o} of unit density {case['j']} over [{a}, {b}]")
        m.step()
    m.state(case["n"], case["ax"], o, case["j"])


def check_poly(case, m):
    """f^m S = c0 + c1 f + c2 f^2 on the range: the exact integral."""
    n, o = case["n"], case["m"]
    f = ref.axis(n, *case["ax"])
    for c in ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.7, -0.4, 2.5)):
        with np.errstate(all="ignore"):
            s = (c[0] + c[1] * f + c[2] * f * f) / f**float(o)
        s[~np.isfinite(s)] = 0.0
        z = 1 if f[0] == 0 and (o < 0 or o > 0) else 0  # S is not of that form at f = 0
        prim = lambda v: c[0] * v + c[1] * v**2 / 2 + c[2] * v**3 / 3  # noqa: E731
        for i in range(z, n - 2):
            for j in range(i + 2, n):
                rel(call(f, s, o, float(f[i]), float(f[j])), prim(f[j]) - prim(f[i]), f"integral of a quadratic over [{f[i]}, {f[j]}]",
                    rtol=1e-8, atol=1e-10 * abs(prim(f[-1])))
                m.step()
        if (z == 0 or o < 0) and n - z >= 3:
            rel(call(f, s, o, None, None), prim(f[-1]) - prim(f[z]), "integral of a quadratic", rtol=1e-8, atol=1e-10 * abs(prim(f[-1])))
            m.step()
    m.state(n, o, case["ax"])


def check_dens(case, m):
    n = case["n"]
    f = ref.axis(n, *case["ax"])
    df = case["ax"][1]
    if "s" in case:
        s = np.array(case["s"])
    else:
        s = {"lcg": lambda: np.abs(ref.lcg(n, 2)), "jonswap": lambda: ref.jonswap(f, float(f[n // 3]), 2.0, 3.3, False),
             "tail": lambda: np.where(f > 0, np.maximum(f, df) ** -5.0, 0.0), "signed": lambda: ref.lcg(n, 7), "small": lambda: 1e-9 * np.abs(ref.lcg(n, 5))}[case["kind"]]()
    for o in ORDERS:
        for a, b in limits(f, n <= 5):
            judge(f, s, o, a, b, f"moment {o} over [{a}, {b}]")
            m.step()
        # the tail alone, against the exact integral of C f^-5
        if s[-1] > 0:
            p = o - 4
            for fac in (1.5, 4.0, math.inf):
                up = float(f[-1]) * fac
                t = call(f, s, o, None, up) - call(f, s, o, None, float(f[-1]))
                rel(t, float(s[-1]) * float(f[-1]) ** (o + 1) * ((0.0 if math.isinf(fac) else fac**p) - 1) / p, f"tail of moment {o} to {up}",
                    rtol=1e-6, atol=1e-9 * abs(call(f, s, o, None, None)))
                m.step()
    if n <= 5:
        for dt in (int, np.int32):
            if np.all(f == np.round(f)) and np.all(s == np.round(s)):
                for o in ORDERS:
                    for a, b in ((None, None), (f[0], math.inf), (f[1], f[-1])):
                        rel(call(f.astype(dt), s.astype(dt), o, a, b), ref.moment(f, s, o, a, b), f"integer input, order {o}", atol=1e-12)
                        m.step()
    m.state(str(case.get("s", case.get("kind"))), n)


def dens_cases(tier):
    for n in (3, 4) if tier == "quick" else (3, 4, 5):
        for w in itertools.product((0.0, 1.0, 3.0), repeat=n):
            for ax in (FAX[0], FAX[1], FAX[3], (1.0, 1.0)):
                yield {"n": n, "s": list(w), "ax": ax}
    for n in (10, 11, 50, 51, 100, 101, 200, 400, 1000, 1001, 2048, 5001):
        for k in ("lcg", "jonswap", "tail", "small", "signed"):
            for ax in FAX if k != "signed" else FAX[:3]:
                yield {"n": n, "kind": k, "ax": ax}


def check_index(case, m):
    v = np.array(case["v"])
    for x in [float(u) + e for u in v for e in (-0.4, -0.1, 0.0, 0.2, 0.3)] + [-99.0, 99.0]:
        d = np.abs(v - x)
        i = core_engine.approx_array_index(v, x)
        need(0 <= i < len(v) and abs(d[i] - d.min()) <= 1e-12, f"nearest index of {x} in {case['v']}: {i}")
        m.step()
    m.state(tuple(case["v"]))


SPACES = [
    Space("basis", "every unit density on 10 axes x lengths 3..9 (thorough 3..14) x orders -2..3 x every pair of limits on/off grid, absent, beyond the axis",
          lambda tier: ({"n": n, "ax": ax, "m": o, "j": j} for n in range(3, 10 if tier == "quick" else 15) for ax in FAX for o in ORDERS for j in range(n)),
          check_basis, chunk=4),
    Space("quadratics", "f^m S = 1, f, f^2 and a mix: 10 axes x lengths 3..12 x orders x every sub-range",
          lambda tier: ({"n": n, "ax": ax, "m": o} for n in range(3, 13 if tier == "quick" else 26) for ax in FAX for o in ORDERS), check_poly, chunk=4),
    Space("densities", "all densities over {0,1,3} of length 3..4 (5), 5 kinds (also with negative values) x 12 lengths up to 5001 x 10 axes; tails; integer input", dens_cases, check_dens, chunk=2),
    Space("nearest", "nearest index for all increasing lists from {0..6}",
          lambda tier: ({"v": [float(x) for x in c]} for k in range(1, 7) for c in itertools.combinations(range(7), k)), check_index),
]
