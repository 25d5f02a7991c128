"""Individual waves: segmentation of every small record, and of long ones, against the definition."""
import itertools

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, need

from deltares_wave_toolbox.cores.core_time import determine_params_individual_waves, determine_zero_crossing
from deltares_wave_toolbox.series import Series

ASSUMPTIONS = [
    "crossing lists lie inside the record and consecutive crossings have a sample in their closed interval",
    "a low-frequency cutoff takes the components of C09's band out of the record the crossings are looked for in: its mean stays",
]
NAMES = ("height", "period", "crest", "trough", "crest time", "trough time")
AXES = [(0.0, 1.0), (0.0, 0.1), (-12.5, 0.25), (1000.0, 1 / 3), (1.6e9, 0.5)]


def judge(got, tc, t, x, what):
    rows = ref.individual(tc, t, x)
    need(len(got) >= 6, f"{what}: {len(got)} results")
    ta = 1e-9 * (t[1] - t[0]) + 1e-15 * max(abs(t[0]), abs(t[-1]))
    for j, name in enumerate(NAMES):
        g = ref.flat(got[j])
        w = np.array([r[j] for r in rows])
        if name in ("period", "crest time", "trough time"):
            close(g, w, f"{what}: {name}", rtol=1e-12, atol=ta)
        else:
            close(g, w, f"{what}: {name}", rtol=1e-12)
    if rows:
        need(abs(sum(ref.flat(got[1])) - (tc[-1] - tc[0])) <= 1e-9 * (t[1] - t[0]) * len(t) + 1e-12 * abs(t[-1]),
             f"{what}: periods do not add up")
    return len(rows)


def check_word(case, m):
    x = np.array(case["x"])
    t = ref.axis(len(x), *case.get("ax", (0.0, 1.0)))
    for down in (True, False):
        tc = ref.crossings(t, x, down)
        k = judge(determine_params_individual_waves(np.array(tc), t, x), tc, t, x, "down" if down else "up")
        m.state(tuple(case["x"]) if k else 0, k)
        m.step()


def check_free(case, m):
    """Any crossing list inside the record, not only its own."""
    x = np.array(case["x"])
    t = ref.axis(len(x), *case["ax"])
    dt = t[1] - t[0]
    tc = [t[0] + h * dt / 2 if h % 2 else t[h // 2] for h in case["tc"]]
    judge(determine_params_individual_waves(np.array(tc), t, x), tc, t, x, "given crossings")
    m.state(tuple(case["tc"]))
    m.step()


def free_cases(tier):
    n = 5
    lists = [c for k in (1, 2, 3, 4) for c in itertools.combinations(range(2 * n - 1), k)]
    xs = list(itertools.product((-1.0, 0.0, 1.0), repeat=n)) if tier != "quick" else \
        [w for w in itertools.product((-1.0, 0.0, 1.0), repeat=n) if w[0] == -1.0 or w[-1] == 0.0]
    for x in xs:
        for tc in lists:
            yield {"x": list(x), "tc": list(tc), "ax": AXES[(len(tc) + int(x[1])) % 3]}


def check_near(case, m):
    """Crossings a little before, at and after samples: the sample belongs to the wave or not, nothing in between."""
    x = np.array(case["x"])
    t = ref.axis(len(x), *case["ax"])
    tc = [t[i] + s * case["eps"] * case["ax"][1] for i, s in case["tc"]]
    for a, b in zip(tc[:-1], tc[1:]):
        if not np.any((t >= a) & (t <= b)):
            return
    judge(determine_params_individual_waves(np.array(tc), t, x), tc, t, x, "crossings near samples")
    m.state(tuple(map(tuple, case["tc"])))
    m.step()


NEAR_WORDS = ((3.0, -1.0, 1.0, -2.0, 5.0), (-4.0, 1.0, 2.0, 3.0, -1.0), (1.0, 2.0, 4.0, -2.0, -5.0), (0.0, 7.0, -1.0, 1.0, 0.0),
              (-1.0, -3.0, 5.0, 1.0, 2.0), (2.0, 1.0, 0.0, -1.0, -2.0))


def near_cases(tier):
    pos = [(i, s) for i in range(5) for s in (-1, 0, 1) if not (i == 0 and s < 0) and not (i == 4 and s > 0)]
    for k in (2, 3):
        for tc in itertools.combinations(pos, k):
            for eps in (1e-12, 1e-10, 1e-8, 1e-6, 1e-3):
                for j, x in enumerate(NEAR_WORDS if tier != "quick" else NEAR_WORDS[:4]):
                    for ax in ((0.0, 1.0), (0.0, 1e-6), (0.0, 3600.0)) if j == 0 or tier != "quick" else ((0.0, 0.1),):
                        yield {"x": list(x), "tc": [list(p) for p in tc], "eps": eps, "ax": ax}


def check_long_wave(case, m):
    """One wave of very many samples, with its extremes anywhere in it, between short waves."""
    n, up, lo = case["n"], case["crest"], case["trough"]
    half = n // 2
    x = np.concatenate(([1.0, -1.0, 1.0, -1.0, 1.0], -0.5 * np.ones(half), 0.5 * np.ones(n - half), [-1.0, 2.0, -1.0]))
    x[5 + int(lo * (half - 1))] = -7.0
    x[5 + half + int(up * (n - half - 1))] = 9.0
    t = ref.axis(len(x), *case["ax"])
    for down in (True, False):
        tc = ref.crossings(t, x, down)
        k = judge(determine_params_individual_waves(np.array(tc), t, x), tc, t, x, "long wave, " + ("down" if down else "up"))
        m.state(k, n, up, lo)
        m.step()


def check_series(case, m):
    x = np.array(case["x"]) if "x" in case else build(case["kind"], case["n"]) * case["amp"]
    t = ref.axis(len(x), *case["ax"])
    if "steps" in case:  # sampling jitter that Series accepts
        t = t[0] + case["ax"][1] * np.concatenate(([0.0], np.cumsum([case["steps"][i % len(case["steps"])] for i in range(len(x) - 1)])))
    s = Series(t, x)
    tc = ref.crossings(t, x, True)
    rows = ref.individual(tc, t, x)
    ta = 1e-9 * (t[1] - t[0]) + 1e-15 * max(abs(t[0]), abs(t[-1]))
    close(ref.flat(s.hwave), np.array([r[0] for r in rows]), "Series heights", rtol=1e-12)
    close(ref.flat(s.twave), np.array([r[1] for r in rows]), "Series periods", rtol=1e-12, atol=ta)
    need(s.nwave == len(rows), f"Series: nwave {s.nwave}, {len(rows)} waves")
    close(ref.flat(s.tCross), np.array(tc), "Series crossings", rtol=1e-12, atol=ta)
    close(s.xTime, x, "Series record", rtol=0.0)
    close(s.time, t, "Series time axis", rtol=0.0)
    m.state(len(rows), len(x))
    m.step()
    # re-determination: direction and minimum height
    for down in (True, False):
        tc = ref.crossings(t, x, down)
        rows = ref.individual(tc, t, x)
        hs = sorted({r[0] for r in rows})
        mins = [0] + ([(a + b) / 2 for a, b in zip(hs[:-1], hs[1:])][:: max(1, len(hs) // 4)] + [hs[-1] * 2] if hs else [])
        if hs:
            mins.append(hs[len(hs) // 2])  # exactly the height of a wave: that wave stays
        for mn in mins:
            q = Series(t, x)
            got = q._determine_individual_waves(typeCross="down" if down else "up", minimum_wave=mn)
            keep = [r for r in rows if not r[0] < mn]
            for j, name in enumerate(NAMES):
                close(ref.flat(got[j]), np.array([r[j] for r in keep]), f"waves >= {mn}: {name}", rtol=1e-9, atol=ta)
            close(ref.flat(q.hwave), np.array([r[0] for r in keep]), f"held heights >= {mn}", rtol=1e-9)
            close(ref.flat(q.twave), np.array([r[1] for r in keep]), f"held periods >= {mn}", rtol=1e-9, atol=ta)
            need(q.nwave == len(keep), f"nwave {q.nwave} after selecting {len(keep)} waves")
            starts = [a for a, r in zip(tc[:-1], rows) if not r[0] < mn] + tc[-1:]
            close(ref.flat(q.tCross), np.array(starts), f"held crossings >= {mn}", rtol=1e-12, atol=ta)
            m.step()


def build(kind, n):
    if kind == "waves":
        return ref.waves_like(n)
    if kind == "lcg":
        return ref.lcg(n, 9)
    if kind == "regular":
        return np.cos(2 * np.pi * np.arange(n) / 8 + 0.3)
    if kind == "regular4":  # equal crests, crossings on samples
        return np.array([(0.0, 1.0, 0.0, -1.0)[i % 4] for i in range(n)])
    if kind == "plateau":
        return np.array([(1.0, 2.0, 2.0, -1.0, -3.0, -3.0, 0.0)[i % 7] for i in range(n)])
    if kind == "alternating":
        return np.array([(1.0, -1.5)[i % 2] * (1 + (i % 5)) for i in range(n)])
    raise KeyError(kind)


def long_cases(tier):
    ns = (30, 101, 256, 1000, 2003) if tier == "quick" else (30, 101, 256, 1000, 2003, 5000)
    for n in ns:
        for kind in ("waves", "lcg", "regular", "regular4", "plateau", "alternating"):
            for ax in AXES if n < 1000 else AXES[1:3]:
                for amp in (1.0, 1e-7, 1e5) if n == 101 else (1.0,):
                    yield {"kind": kind, "n": n, "amp": amp, "ax": ax}
    for n in (10001, 40000):  # thousands of waves
        for kind in ("waves", "regular4", "alternating"):
            yield {"kind": kind, "n": n, "amp": 1.0, "ax": AXES[1]}


def check_cutoff(case, m):
    n, dt = case["n"], case["dt"]
    t = ref.axis(n, case["t0"], dt)
    T = n * dt
    # low-frequency part on exact Fourier frequencies + short waves: the low part is known in closed form
    kl, kh, cut = case.get("split", ((2, 5), (23, 31, 40), 10.5))
    low = 0 * t + sum(a * np.cos(2 * np.pi * k * (t - t[0]) / T + p) for k, a, p in zip(kl, (1.3, 0.7, 0.5), (0.4, 1.9, 0.2)))
    high = sum(a * np.cos(2 * np.pi * k * (t - t[0]) / T + p) for k, a, p in zip(kh, (1.0, 0.8, 0.3), (0.9, 2.2, 0.1)))
    high = high + case.get("mean", 0.0)  # the mean is not part of the low-frequency components (C09)
    x = low + high
    for down in (True, False):
        for mn in (0, 1.0):
            s = Series(t, x)
            got = s._determine_individual_waves(typeCross="down" if down else "up", fcutoff=cut / T, minimum_wave=mn)
            tc = ref.crossings(t, high, down)
            keep = [r for r in ref.individual(tc, t, x) if not r[0] < mn]
            ta = 1e-6 * dt + 1e-15 * abs(t[-1])
            for j, name in enumerate(NAMES):
                close(ref.flat(got[j]), np.array([r[j] for r in keep]), f"with cutoff: {name}", rtol=1e-9, atol=ta)
            close(ref.flat(s.hwave), np.array([r[0] for r in keep]), "held heights with cutoff", rtol=1e-9)
            starts = [a for a, r in zip(tc[:-1], ref.individual(tc, t, x)) if not r[0] < mn] + tc[-1:]
            close(ref.flat(s.tCross), np.array(starts), "held crossings with cutoff", rtol=1e-12, atol=ta)
            close(s.xTime, x, "record after a cutoff", rtol=0.0)
            m.state(len(keep), down)
            m.step()


def cutoff_cases(tier):
    for n in (96, 97, 200, 333, 1000):
        for dt, t0 in ((1.0, 0.0), (0.1, 0.0), (0.25, -40.0), (0.5, 1000.0)):
            for mean in (0.0, 0.15, -0.6, 3.0):
                yield {"n": n, "dt": dt, "t0": t0, "mean": mean}
    for n in (40, 41, 96, 97, 128):
        top = (n - 1) // 2
        for cut in (0.4, 1.3, 1.7):
            yield {"n": n, "dt": 0.5, "t0": 0.0, "split": [[1] if cut > 1 else [], [2, top // 2, top] if cut > 1 else [1, top // 2, top], cut]}
        for cut in range(2, top, 1 if tier != "quick" else 3):
            yield {"n": n, "dt": 0.5, "t0": 0.0, "split": [sorted({1, cut // 2, cut}), [cut + 1, (cut + 1 + top) // 2, top], cut + 0.5]}


def tie_cases(tier):
    """Extremes that are nearly but not exactly equal: the first sample attaining the extreme is the exact one."""
    for e in (2.0**-52, 1e-12, 1e-9) if tier == "quick" else (2.0**-52, 1e-15, 1e-12, 1e-10, 1e-9, 1e-6):
        for w in itertools.product((-1.0, -1.0 - e, 1.0, 1.0 + e), repeat=6):
            yield {"x": list(w)}
    for s in (1e-13, 1e-300):
        for w in itertools.product((-2.0 * s, -s, 0.0, s, 2.0 * s), repeat=5):
            yield {"x": list(w)}


def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(alpha, repeat=n):
            yield {"x": list(w)}


JITTER = ((0.91, 1.0, 1.09), (1.09, 0.91), (1.08, 1.0, 1.0, 0.92), (0.99, 1.0, 1.01, 1.0, 1.0), (1.0, 1.0, 1.0, 0.92, 1.08, 1.0))


def uneven_cases(tier):
    for n in (4, 5) if tier == "quick" else (4, 5, 6):
        for x in itertools.product((-2.0, -0.1, 0.1, 2.0), repeat=n):
            for steps in JITTER[:3]:
                yield {"x": list(x), "steps": list(steps), "ax": (0.0, 0.5)}
    for n in (30, 101, 257):
        for kind in ("waves", "lcg", "regular", "regular4", "plateau", "alternating"):
            for steps in JITTER:
                for ax in AXES[1:4]:
                    yield {"kind": kind, "n": n, "amp": 1.0, "steps": list(steps), "ax": ax}


SPACES = [
    Space("words", "all records over {-2,-1,0,1,2} of length 2..6 (thorough 7), waves between their own crossings, both directions",
          lambda tier: words((-2.0, -1.0, 0.0, 1.0, 2.0), 2, 6 if tier == "quick" else 7), check_word, chunk=64),
    Space("signs", "all records over {-1,0,1,2} of length 7 (thorough 8)",
          lambda tier: words((-1.0, 0.0, 1.0, 2.0), 7, 7 if tier == "quick" else 8), check_word, chunk=64),
    Space("any crossings", "records over {-1,0,1} of length 5 x every ordered list of 1..4 crossing times on the half-step grid",
          free_cases, check_free, chunk=64),
    Space("series", "all records over {-1,0,2} of length 3..6 in a Series object; both directions; minimum heights between, "
          "at and above the wave heights",
          lambda tier: ({"x": list(w), "ax": AXES[n % 3]} for n in range(3, 7 if tier == "quick" else 8)
                        for w in itertools.product((-1.0, 0.0, 2.0), repeat=n)), check_series, chunk=16),
    Space("long", "6 record kinds x lengths 30..2003, 3 kinds to 40000, x time axes x amplitudes", long_cases, check_series, chunk=1),
    Space("near samples", "every list of 2..3 crossing times at, just before and just after the samples of a record of 5 (offsets "
          "1e-12..1e-3 steps), 4 records (thorough 6), 4 time steps 1e-6..3600", near_cases, check_near, chunk=64),
    Space("long waves", "a wave of 2^k-1, 2^k, 2^k+1 and round numbers of samples up to 100000 between short ones, its crest and "
          "trough at the start, inside and at the end",
          lambda tier: ({"n": n, "crest": a, "trough": b, "ax": ax} for n in (100, 255, 513, 1024, 4097, 10000, 32769, 65537, 100000)
                        for a in (0.0, 0.3, 1.0) for b in (0.0, 0.6, 1.0) for ax in ((0.0, 0.1), (1.6e9, 0.5))),
          check_long_wave, chunk=2),
    Space("cutoff", "records with a known low-frequency part x lengths x axes x 4 means; every third (thorough: every) position of the cutoff up to Nyquist",
          cutoff_cases, check_cutoff, chunk=1),
    Space("near ties", "all records of length 6 over {-1,-1-e,1,1+e}, e from one rounding unit to 1e-9, and of length 5 over tiny values "
          "(1e-13, 1e-300)", tie_cases, check_word, chunk=64),
    Space("uneven axes", "all records over {-2,-.1,.1,2} of length 4..5 (thorough 6) and 6 record kinds up to 257 samples in a Series "
          "whose time steps repeat one of 5 patterns of up to 9 % jitter", uneven_cases, check_series, chunk=8),
]
