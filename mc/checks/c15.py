"""Dispersion relation on a dense grid of w^2 h/g over 40 orders of magnitude, depths, gravities and input forms."""
import math

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, fail, need

from deltares_wave_toolbox.cores.core_dispersion import disper

ASSUMPTIONS = ["between neighbouring grid values of w^2 h/g (ratio 1.01 in quick, 1.001 in thorough) the result is not evaluated"]


def residual(k, w, h, g, what):
    k = np.asarray(k, dtype=float)
    w = np.asarray(w, dtype=float)
    need(k.shape == w.shape, f"{what}: shape {k.shape}")
    need(np.isfinite(k).all(), f"{what}: not finite")
    lhs = g * k * np.tanh(k * h)
    bad = np.abs(lhs - w * w) > 2e-14 * w * w + 1e-300
    if bad.any():
        i = int(np.argmax(bad))
        fail(f"{what}: w={w[i]!r} h={h!r} g={g!r} k={k[i]!r}: relative residual {(lhs[i] - w[i] ** 2) / w[i] ** 2:.3g}")
    need((np.sign(k) == np.sign(w)).all(), f"{what}: sign of the wave number")


def check(case, m):
    h, g = case["h"], case["g"]
    ratio = case["ratio"]
    lo, hi = case["range"]
    nu = np.exp(np.arange(math.log(lo), math.log(hi), math.log(ratio)))
    w = np.sqrt(nu * g / h)
    k = disper(w, h, g)
    residual(k, w, h, g, "grid")
    need((np.diff(k) > 0).all(), "wave number does not increase with frequency")
    kn = disper(-w, h, g)
    close(kn, -k, "negative frequencies", rtol=1e-13, scale=None)
    residual(kn, -w, h, g, "negative grid")
    ww = np.concatenate([[0.0], w[::7], [0.0], -w[::11], [0.0]])
    kk = disper(ww, h, g)
    residual(kk, ww, h, g, "mixed signs and zeros")
    need((np.asarray(kk)[ww == 0] == 0).all(), "wave number at zero frequency")
    m.step(len(w) * 2 + len(ww))
    # element by element: alone, in a list, in any company
    for i in range(0, len(w), max(1, len(w) // 25)):
        want = ref.wavenumber(float(w[i]), h, g)
        for what, r in (("scalar", disper(float(w[i]), h, g)), ("list", disper([float(w[i])], h, g)), ("with zero", disper(np.array([0.0, w[i]]), h, g)[-1:]),
                        ("numpy scalar", disper(w[i], h, g))):
            got = float(ref.scalar(r, what))
            need(abs(got - want) <= 1e-13 * abs(want), f"{what}: w={w[i]!r} h={h!r}: {got!r}, expected {want!r}")
            m.step()
    m.state(h, g, lo)
    if case.get("default"):
        close(disper(w, h), k, "default gravity", rtol=1e-15)


def cases(tier):
    ratio = 1.01 if tier == "quick" else 1.001
    for h in (1e-9, 1e-5, 3.7e-4, 1e-3, 0.01, 0.1, 0.35, 0.5, 1.0, 2.0, 5.0, 10.0, 25.0, 50.0, 100.0, 500.0, 4000.0, 1e5, 2.3e7):
        for g in (9.81, 9.80665, 1.62, 1.0):
            for lo, hi in ((1e-24, 1e-16), (1e-16, 1e-8), (1e-8, 1e-4), (1e-4, 1e-2), (1e-2, 1.0), (1.0, 20.0), (20.0, 1e3), (1e3, 1e8), (1e8, 1e14)):
                yield {"h": h, "g": g, "range": (lo, hi), "ratio": ratio, "default": g == 9.81}
    yield {"h": 7, "g": 9.81, "range": (1e-4, 1e3), "ratio": ratio}


def check_depth(case, m):
    """Decreasing with depth, between the deep- and shallow-water values."""
    w, g = case["w"], case["g"]
    hs = np.exp(np.arange(math.log(1e-7), math.log(1e6), math.log(1.3)))
    ks = [float(ref.scalar(disper(w, float(h), g), "k")) for h in hs]
    for i in range(len(hs)):
        want = ref.wavenumber(w, float(hs[i]), g)
        need(abs(ks[i] - want) <= 1e-13 * abs(want), f"w={w} h={hs[i]}: {ks[i]}, expected {want}")
        if i:
            need(abs(ks[i]) <= abs(ks[i - 1]) * (1 + 1e-14), "wave number increases with depth")
    m.step(len(hs))
    for arr in (np.array([w, 0.0, -w, 2 * w]), w, [w, 3 * w]):
        ww = np.atleast_1d(np.asarray(arr, dtype=float))
        for inf in (np.inf, math.inf, np.float64("inf")):
            close(disper(arr, inf, g), ww * ww / g, "deep water", rtol=1e-14)
        for h in (1e-4, 0.5, 3.0, 100.0, 2e4):
            close(disper(arr, -h, g), ww / math.sqrt(g * h), "shallow water", rtol=1e-14)
        m.step(8)
    m.state(w, g)


def check_size(case, m):
    """The size of the array does not matter: against the same frequencies in small pieces."""
    n, h = case["n"], case["h"]
    for lo, hi in ((0.01, 6.0), (1e-4, 0.3), (2.0, 60.0)):
        w = lo + np.arange(n) * ((hi - lo) / n)
        if case["flip"]:
            w = w[::-1] * np.where(np.arange(n) % 3 == 0, -1.0, 1.0)
        k = np.asarray(disper(w, h))
        residual(k, w, h, 9.81, f"array of {n}")
        for i in sorted({0, n // 3, n // 2, n - 1} | set(range(0, n, max(1, n // 40)))):
            want = float(ref.scalar(disper(float(w[i]), h), "k"))
            need(abs(k[i] - want) <= 1e-13 * abs(want), f"element {i} of {n}: {k[i]!r}, alone {want!r}")
        m.step(n)
    m.state(n, h)


SPACES = [
    Space("sizes", "arrays of 1..300000 frequencies, increasing, and decreasing with mixed signs, x 3 depths x 3 ranges",
          lambda tier: ({"n": n, "h": h, "flip": fl} for n in (1, 2, 3, 7, 100, 999, 1000, 1025, 4096, 5000, 10001, 20000, 65537, 100000, 300000) for h in (0.7, 8.0, 150.0) for fl in (False, True)),
          check_size, chunk=1),
    Space("grid", "w^2 h/g from 1e-24 to 1e14 in steps of 1% (thorough 0.1%) x 20 depths (1e-9 to 2.3e7) x 4 gravities; signs, zeros, scalar, list", cases, check, chunk=2),
    Space("depths", "8 frequencies x 2 gravities x 115 depths (1e-7 to 1e6); infinite and negative depth",
          lambda tier: ({"w": w, "g": g} for w in (1e-4, 0.01, 0.1, 0.5, 1.0, 2.0, 6.3, 30.0) for g in (9.81, 1.62)), check_depth, chunk=1),
]
