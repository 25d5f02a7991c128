"""Zero crossings: the detector against a two-state sign automaton, on every word over small alphabets."""
import itertools

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, fail, need

from deltares_wave_toolbox.cores.core_time import determine_zero_crossing
from deltares_wave_toolbox.series import Series

ASSUMPTIONS = [
    "crossing times are compared to 1e-9 of a time step plus the rounding of the absolute time",
    "time axes are uniform (the documented precondition of the function) or jitter by less than Series accepts",
]
AXES = [(0.0, 1.0), (0.0, 0.1), (-12.5, 0.25), (1000.0, 1 / 3), (1.6e9, 0.5), (0.0, 1e-3), (-5e4, 60.0)]
FIVE = (-2.0, -1.0, 0.0, 1.0, 2.0)
DOWNS = ["".join(c) for c in itertools.product("dD", "oO", "wW", "nN")]
UPS = ["".join(c) for c in itertools.product("uU", "pP")]
EXTREME = (-1.0, -1e-200, 0.0, 1e-200, 1e150)
TINY = (-1.0, -1e-12, -0.0, 0.0, 1e-12, 1.0)


def judge(res, t, x, down, what):
    n, tc = res
    want = ref.crossings(t, x, down)
    tc = ref.flat(tc)
    close(tc, np.array(want), what + " times", rtol=0.0,
          atol=1e-9 * (t[1] - t[0]) + 8e-16 * max(abs(t[0]), abs(t[-1])))
    need(ref.scalar(n, what) == max(0, len(want) - 1), lambda: f"{what}: {n} waves for {len(want)} crossings")
    return len(want)


def check_word(case, m):
    x = np.array(case["x"])
    t = ref.axis(len(x), *case.get("ax", (0.0, 1.0)))
    for up, down in (("up", "down"),):
        nd = judge(determine_zero_crossing(t, x, down), t, x, True, "down")
        nu = judge(determine_zero_crossing(t, x, up), t, x, False, "up")
        m.step(2)
    m.state(nd, nu, len(x))
    # upside down: exchanged
    a = determine_zero_crossing(t, -x, "up")
    judge(a, t, x, True, "up-crossings of the record upside down")
    judge(determine_zero_crossing(t, x), t, x, True, "default direction")
    m.step(2)


def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(alpha, repeat=n):
            yield {"x": list(w)}


def check_axes(case, m):
    check_word(case, m)
    x = np.array(case["x"])
    t = ref.axis(len(x), *case["ax"])
    for name in DOWNS:
        judge(determine_zero_crossing(t, x, name), t, x, True, name)
    for name in UPS:
        judge(determine_zero_crossing(t=list(t), xTime=list(x), typeCross=name), t, x, False, name)
    m.step(len(DOWNS) + len(UPS))


def check_series(case, m):
    x = np.array(case["x"])
    t = ref.axis(len(x), *case["ax"])
    s = Series(t, x)
    judge(s.get_crossing(), t, x, True, "Series default")
    judge(s.get_crossing("down"), t, x, True, "Series down")
    k = judge(s.get_crossing("up"), t, x, False, "Series up")
    judge(s.get_crossing(typeCross="Up"), t, x, False, "Series Up")
    judge(Series(t, -x).get_crossing("up"), t, x, True, "Series up of the record upside down")
    m.state(k, len(x))
    m.step(5)


def record(kind, n):
    if kind == "debruijn":
        return ref.debruijn(FIVE, n)
    if kind == "debruijn3":
        return ref.debruijn((-1.0, 0.0, 1.0), n)
    if kind == "lcg":
        return ref.lcg(n, 5)
    if kind == "waves":
        return ref.waves_like(n)
    if kind == "alternating":
        return np.array([1.0, -1.0] * (n // 2) + [1.0] * (n % 2))
    if kind == "rare":
        return np.where(np.arange(n) % 97 < 50, 1.0, -0.5)
    if kind == "square0":
        return np.array([(1.0, 0.0, 0.0, -1.0, 0.0)[i % 5] for i in range(n)])
    if kind == "offset":
        return ref.waves_like(n) + 0.8
    fail(kind)


def check_long(case, m):
    x = record(case["kind"], case["n"]) * case["amp"]
    t = ref.axis(len(x), *case["ax"])
    k = judge(determine_zero_crossing(t, x, "down"), t, x, True, "down")
    judge(determine_zero_crossing(t, x, "up"), t, x, False, "up")
    judge(determine_zero_crossing(t, -x, "UP"), t, x, True, "up, upside down")
    judge(Series(t, x).get_crossing("up"), t, x, False, "Series up")
    m.state(case["kind"], k)
    m.step(4)


def check_very_long(case, m):
    """Crossings at every position of a very long record (function only: the object would take minutes)."""
    n = case["n"]
    if case["kind"] == "alternating":  # down-crossings at all even or at all odd positions
        x = np.where((np.arange(n) + case["off"]) % 2 == 0, 1.0, -1.0)
    else:
        x = np.where((np.arange(n) + case["off"]) % 1009 < 500, 1.0, -0.5)
    t = ref.axis(n, 0.0, 0.5)
    k = judge(determine_zero_crossing(t, x, "down"), t, x, True, "down")
    judge(determine_zero_crossing(t, -x, "up"), t, x, True, "up, upside down")
    m.state(case["kind"], k)
    m.step(2)


def very_long_cases(tier):
    for off in (0, 1):
        for n in (33000, 70001) if tier == "quick" else (33000, 70001, 140000):
            yield {"kind": "alternating", "n": n, "off": off}
    for n in (131075, 262150) if tier == "quick" else (131075, 262150, 1100000):
        yield {"kind": "rare", "n": n, "off": n % 1009}


def long_cases(tier):
    for ax in AXES:
        for amp in (1.0, 1e-9, 1e6):
            yield {"kind": "debruijn3", "n": 5, "amp": amp, "ax": ax}
            for kind in ("lcg", "waves", "alternating", "rare", "square0", "offset"):
                for n in (2, 3, 17, 64, 257, 1000, 1001):
                    yield {"kind": kind, "n": n, "amp": amp, "ax": ax}
    big = (2048, 4099, 10007) if tier == "quick" else (2048, 4099, 10007, 40001)
    for kind in ("lcg", "waves", "alternating", "rare"):
        for n in big:
            yield {"kind": kind, "n": n, "amp": 1.0, "ax": (0.0, 0.1)}
    for o in (4, 5) if tier == "quick" else (4, 5, 6):
        yield {"kind": "debruijn", "n": o, "amp": 1.0, "ax": (0.0, 1.0)}
        yield {"kind": "debruijn", "n": o, "amp": 1.0, "ax": (-77.0, 0.05)}


def uneven(case):
    """A time axis with sampling jitter that a Series accepts (steps given, or an axis stored with few digits)."""
    if "steps" in case:
        return case["t0"] + case["dt"] * np.concatenate(([0.0], np.cumsum(case["steps"])))
    t = ref.axis(case["n"], case["t0"], case["dt"])
    return t.astype(np.float32).astype(float) if case["digits"] == "single" else np.round(t, case["digits"])


def check_uneven(case, m):
    t = uneven(case)
    x = np.array(case["x"]) if "x" in case else record(case["kind"], case["n"])
    k = judge(determine_zero_crossing(t, x, "down"), t, x, True, "down, uneven axis")
    judge(determine_zero_crossing(t, x, "up"), t, x, False, "up, uneven axis")
    judge(Series(t, x).get_crossing("up"), t, x, False, "Series up, uneven axis")
    judge(Series(t, -x).get_crossing("up"), t, x, True, "Series up, upside down, uneven axis")
    m.state(k, tuple(case.get("steps", ())), case.get("digits"))
    m.step(4)


STEPS = (0.92, 1.0, 1.08)


def uneven_cases(tier):
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for steps in itertools.product(STEPS, repeat=n - 1):
            for x in itertools.product((-2.0, -0.1, 0.0, 0.1, 2.0), repeat=n):
                yield {"steps": list(steps), "x": list(x), "t0": 0.0, "dt": 0.5}
    for digits, t0, dt in ((2, 0.0, 1 / 3), (3, 0.0, 1 / 128), (2, 50.0, 1 / 12), (2, 0.0, 0.075), ("single", 1000.0, 1e-3),
                           ("single", 86400.0, 0.1)):
        for kind in ("lcg", "waves", "alternating", "rare", "square0", "offset"):
            for n in (17, 64, 257, 2048) if tier == "quick" else (17, 64, 257, 2048, 4099):
                yield {"digits": digits, "t0": t0, "dt": dt, "kind": kind, "n": n}


SPACES = [
    Space("words", "all records over {-2,-1,0,1,2} of length 2..6 (thorough: 2..8), both directions, upside down",
          lambda tier: words(FIVE, 2, 6 if tier == "quick" else 8), check_word, chunk=64),
    Space("signs", "all records over {-1,0,1} of length 2..9 (thorough: 2..11)",
          lambda tier: words((-1.0, 0.0, 1.0), 2, 9 if tier == "quick" else 11), check_word, chunk=64),
    Space("tiny", "all records over {-1,-1e-12,-0.0,0.0,1e-12,1} of length 2..5 (no tolerance around zero)",
          lambda tier: words(TINY, 2, 5 if tier == "quick" else 6), check_word, chunk=64),
    Space("extreme", "all records over {-1,-1e-200,0,1e-200,1e150} of length 2..5 (products of two samples under- or overflow); "
          "records over {-1,0,2} of length 2..6 times 1e-200, 1e-30, 1e150",
          lambda tier: itertools.chain(words(EXTREME, 2, 5 if tier == "quick" else 6),
                                       ({"x": [v * a for v in w], "ax": (0.0, 0.5)} for n in range(2, 7)
                                        for w in itertools.product((-1.0, 0.0, 2.0), repeat=n)
                                        for a in (1e-200, 1e-30, 1e150))), check_word, chunk=64),
    Space("very long", "a crossing at every position of records of 33000 and 70001 samples; rare crossings in records of up to "
          "262150 samples (thorough 1100000)", very_long_cases, check_very_long, chunk=1),
    Space("axes", "all records over {-1,0,2} of length 2..5 on 7 time axes, every upper/lower case variant of the keyword, lists",
          lambda tier: ({"x": list(w), "ax": ax} for n in range(2, 6) for w in itertools.product((-1.0, 0.0, 2.0), repeat=n)
                        for ax in AXES), check_axes, chunk=32),
    Space("series", "all records over {-1,0,2} of length 3..6 through the Series object, 3 time axes",
          lambda tier: ({"x": list(w), "ax": ax} for n in range(3, 7) for w in itertools.product((-1.0, 0.0, 2.0), repeat=n)
                        for ax in AXES[1:4]), check_series, chunk=16),
    Space("long", "de Bruijn records (every 5-letter word of FIVE in one record) and 6 record kinds x lengths up to 10007 "
          "(thorough 40001) x amplitudes x axes", long_cases, check_long, chunk=1),
    Space("uneven axes", "all records over {-2,-.1,0,.1,2} of length 2..4 (thorough 5) on every axis with steps from {.92,1,1.08}; "
          "6 record kinds up to 2048 samples on 6 axes rounded to 2 or 3 decimals or to single precision (jitter that Series accepts)",
          uneven_cases, check_uneven, chunk=16),
]
