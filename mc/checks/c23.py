"""Record statistics on every small record and on long ones; symmetries of skewness and asymmetry."""
import itertools

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, need, rel

from deltares_wave_toolbox.series import Series

ASSUMPTIONS = ["third moments are compared to 1e-9 of (largest deviation)^3 over the variance to the power 3/2"]


def stats(x):
    x = np.asarray(x, dtype=float)
    mu = ref.de_mean(x)
    v = ref.de_mean((x - mu) ** 2)
    h = ref.hilbert_imag(x)
    return mu, v, ref.de_mean((x - mu) ** 3) / v**1.5, ref.de_mean(h**3) / v**1.5, float(np.max(np.abs(x - mu))) ** 3 / v**1.5


def judge(x, t, m, what=""):
    s = Series(t, x)
    mu, v, sk, asy, sc = stats(x)
    big = float(np.max(np.abs(x)))
    cond = (big * big / v) ** 1.5 * 1e-14  # cancellation when the mean is large
    rel(s.max(), float(np.max(x)), what + "max", rtol=0)
    rel(s.min(), float(np.min(x)), what + "min", rtol=0)
    rel(s.mean(), mu, what + "mean", rtol=1e-9, atol=1e-12 * big)
    rel(s.var(), v, what + "var", rtol=1e-9 + cond)
    rel(s.get_skewness(), sk, what + "skewness", rtol=1e-9, atol=(1e-10 + cond) * sc)
    rel(s.get_asymmetry(), asy, what + "asymmetry", rtol=1e-9, atol=(1e-10 + cond) * 8 * sc)
    m.step(6)
    return s


def check(case, m):
    x = np.array(case["x"], dtype=float) if "x" in case else build(case["kind"], case["n"])
    if np.max(x) == np.min(x):
        return
    n = len(x)
    t = ref.axis(n, *case["ax"])
    mu, v, sk, asy, sc = stats(x)
    s = judge(x, t, m)
    tol = 1e-9 * 8 * sc
    rel(Series(t, -x).get_skewness(), -sk, "skewness upside down", rtol=1e-9, atol=tol)
    rel(Series(t, -x).get_asymmetry(), -asy, "asymmetry upside down", rtol=1e-9, atol=tol)
    rel(Series(t, x[::-1].copy()).get_asymmetry(), -asy, "asymmetry of the reversed record", rtol=1e-9, atol=tol)
    rel(Series(t, x[::-1].copy()).get_skewness(), sk, "skewness of the reversed record", rtol=1e-9, atol=tol)
    for what, y in (("upside down", -x), ("reversed", x[::-1].copy()), ("below zero", x - 3 * np.max(np.abs(x)))):
        o = Series(t, y)
        rel(o.max(), float(max(y)), "max " + what, rtol=0)
        rel(o.min(), float(min(y)), "min " + what, rtol=0)
        m.step(2)
    # symmetric records
    r = np.concatenate([x, x[::-1]])
    rel(Series(ref.axis(2 * n), r).get_asymmetry(), 0.0, "asymmetry of a record symmetric in time", atol=tol * 3)
    q = np.concatenate([x - mu, mu - x]) + 0.3
    rel(Series(ref.axis(2 * n), q).get_skewness(), 0.0, "skewness of a record symmetric about its mean", atol=tol * 3)
    for a, b in ((1e-4, 0.0), (3.0, 7.0), (1e3, -2.0), (1e-7, 0.0), (1.0, 30.0)):
        z = a * x + b
        w = Series(t, z)
        cond = 1e-13 * (1 + (abs(b) / (a * v**0.5)) ** 3)
        rel(w.get_skewness(), sk, f"skewness of {a} x + {b}", rtol=1e-9, atol=tol + cond * sc)
        rel(w.get_asymmetry(), asy, f"asymmetry of {a} x + {b}", rtol=1e-9, atol=tol + cond * sc)
        rel(w.var(), a * a * v, f"variance of {a} x + {b}", rtol=1e-9 + cond)
        m.step(3)
    m.step(6)
    m.state(round(sk, 9), round(asy, 9), n)


def build(kind, n):
    t = np.arange(n)
    if kind == "waves":
        return ref.waves_like(n)
    if kind == "lcg":
        return ref.lcg(n, 21)
    if kind == "stokes":
        return np.cos(2 * np.pi * t / 20) + 0.3 * np.cos(4 * np.pi * t / 20)
    if kind == "saw":
        return (t % 11) / 10.0
    if kind == "offset":
        return ref.waves_like(n) + 12.0
    raise KeyError(kind)


def check_exact(case, m):
    """Integer records on top of a very large mean level: the central moments are those of the integers."""
    x = np.array(case["x"], dtype=float)
    if np.max(x) == np.min(x):
        return
    mu, v, sk, asy, sc = stats(x)
    for level in (2.0**20, -(2.0**27), 2.0**30, 2.0**40):
        s = Series(ref.axis(len(x)), x + level)
        rel(s.var(), v, f"variance on a level of {level}", rtol=1e-9 + 8 * (abs(level) * 2.0**-52) / v**0.5)
        rel(s.get_skewness(), sk, f"skewness on a level of {level}", rtol=1e-8, atol=1e-8 * sc + 16 * sc * abs(level) * 2.0**-52)
        rel(s.get_asymmetry(), asy, f"asymmetry on a level of {level}", rtol=1e-8, atol=1e-8 * sc + 1e3 * sc * abs(level) * 2.0**-52)
        rel(s.mean(), level + mu, f"mean on a level of {level}", rtol=1e-15, atol=abs(level) * 2.0**-50)
        m.step(4)
    m.state(len(x), round(sk, 9))


def exact_cases(tier):
    for n in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6, 7):
        for w in itertools.product((-1, 0, 3), repeat=n):
            yield {"x": list(w)}
    for n in (20, 101, 1000):
        yield {"x": np.round(10 * ref.waves_like(n)).tolist()}


AX = [(0.0, 1.0), (5.0, 0.1), (-100.0, 0.5)]
SPACES = [
    Space("words", "all records over {-2,-1,0,1,2} of length 3..5 and {-1,0,2} of length 6..7 (thorough 3..6, 7..8)",
          lambda tier: ({"x": list(w), "ax": AX[len(w) % 3]} for n, L in
                        ([(k, (-2, -1, 0, 1, 2)) for k in range(3, 6 if tier == "quick" else 7)] + [(k, (-1, 0, 2)) for k in ((6, 7) if tier == "quick" else (7, 8))])
                        for w in itertools.product(L, repeat=n)), check, chunk=16),
    Space("long", "5 record kinds x all lengths 8..60 and to 131072 x 3 axes",
          lambda tier: ({"kind": k, "n": n, "ax": AX[n % 3]} for k in ("waves", "lcg", "stokes", "saw", "offset")
                        for n in list(range(8, 61)) + [100, 101, 255, 256, 500, 700, 701, 1000, 1001, 2048, 5000] + ([10001, 20001, 50000, 131072] if k == "offset" else [])), check, chunk=2),
    Space("levels", "all integer records over {-1, 0, 3} of length 3..5 (thorough 3..7) on mean levels of 2^20..2^40", exact_cases, check_exact, chunk=8),
]
