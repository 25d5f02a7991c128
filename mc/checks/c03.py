"""Wave-height statistics against order statistics computed from the multiset of (height, period) pairs."""
import itertools
import math
from fractions import Fraction

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, fail, need, rel

from deltares_wave_toolbox.cores import core_time as ct
from deltares_wave_toolbox.series import Series, WaveHeights

ASSUMPTIONS = [
    "fractional percentages where rounding of n*p decides the count are skipped unless all usual evaluation orders agree; fractions where "
    "n*p in floating point and the simple fraction meant (k/3, k/100 ...) disagree are skipped",
    "with equal heights at the edge of the selected fraction, the mean period of any choice among the equal waves is accepted",
]
FRACS = [0.0, 1e-9, 0.01, 0.02, 0.1, 0.25, 1 / 3, 0.4, 0.5, 2 / 3, 0.75, 0.9, 0.999, 1.0]
PERCS = [0.0, 0.1, 0.5, 1.0, 2.0, 5.0, 10.0, 13.5, 20.0, 33.0, 50.0, 66.0, 75.0, 99.0, 99.99, 100.0]


def count_frac(n, p):
    c = {math.floor(n * p)}  # in particular n // 3 for one third: n * (1 / 3) is exact in floating point where it matters
    for q in (3, 2, 4, 10, 50, 100):
        if abs(p * q - round(p * q)) < 1e-12:
            c.add(n * round(p * q) // q)
    return c.pop() if len(c) == 1 else None


def count_perc(n, p):
    if float(p).is_integer():
        return n * int(p) // 100
    c = {math.floor(n * p / 100), math.floor(n * (p / 100)), math.floor(p / 100 * n), math.floor(p * n / 100.0),
         math.floor(Fraction(str(p)) * n / 100)}
    return c.pop() if len(c) == 1 else None


def mean_choices(pairs, c):
    """All mean periods obtainable when the c highest waves are selected (ties at the edge)."""
    s = sorted(pairs, key=lambda q: -q[0])
    edge = s[c - 1][0]
    sure = [q[1] for q in s if q[0] > edge]
    tie = [q[1] for q in s if q[0] == edge]
    k = c - len(sure)
    if len(tie) == k:
        return [(sum(sure) + sum(tie)) / c]
    if len(tie) > 12:
        lo = (sum(sure) + sum(sorted(tie)[:k])) / c
        hi = (sum(sure) + sum(sorted(tie)[-k:])) / c
        return (lo, hi)
    return [(sum(sure) + sum(x)) / c for x in itertools.combinations(tie, k)]


def judge_fraction(got, pairs, p, what):
    need(len(got) == 2, f"{what}: {got!r}")
    n = len(pairs)
    c = count_frac(n, p)
    if c is None:
        return
    if c == 0:
        rel(got[0], 0.0, what + " height", atol=0)
        rel(got[1], 0.0, what + " period", atol=0)
        return
    hs = sorted((q[0] for q in pairs), reverse=True)
    rel(got[0], sum(hs[:c]) / c, what + " height")
    ch = mean_choices(pairs, c)
    g = ref.scalar(got[1], what)
    if isinstance(ch, tuple):
        need(ch[0] * (1 - 1e-9) <= g <= ch[1] * (1 + 1e-9), f"{what}: period {g}, possible {ch}")
    elif not any(abs(g - v) <= 1e-9 * abs(v) for v in ch):
        fail(f"{what}: period {g}, expected {ch[:3]}")


def judge_perc(got, pairs, p, what):
    c = count_perc(len(pairs), p)
    if c is None:
        return
    hs = sorted((q[0] for q in pairs), reverse=True)
    rel(got, hs[c - 1] if c > 0 else 0.0, what, rtol=1e-12)


def same_pairs(h, t, pairs, what, ordered):
    h, t = ref.flat(h), ref.flat(t)
    need(h.shape == t.shape == (len(pairs),), f"{what}: sizes {h.shape} {t.shape}, {len(pairs)} waves")
    if ordered:
        need(all(h[i] >= h[i + 1] for i in range(len(h) - 1)), f"{what}: not in descending order")
    need(sorted(zip(h.tolist(), t.tolist())) == sorted(pairs), f"{what}: not the same (height, period) pairs")


def check_list(case, m):
    if "h" in case:
        h = [float(v) for v in case["h"]]
    else:
        h = heights(case["kind"], case["n"])
    h = [v * case.get("amp", 1.0) for v in h]
    t = case.get("t") or [5.0 + ((i * 37) % 101) / 8 for i in range(len(h))]
    pairs = list(zip(h, t))
    H, T = np.array(h), np.array(t)
    # --- functions
    a = ct.sort_wave_params(H, T)
    same_pairs(a[0], a[1], pairs, "sort_wave_params", True)
    b = ct.sort_wave_params(a[0], a[1]) if h else a
    close(ref.flat(b[0]), ref.flat(a[0]), "sorting twice", rtol=0.0)
    m.step(2)
    small = len(h) <= 6
    fr = FRACS + ([k / len(h) * (1 + e) for k in range(1, len(h) + 1) for e in (-1e-6, 1e-6, -1e-8, 1e-8) if k / len(h) * (1 + e) <= 1] if small and h else [])
    pc = PERCS + ([100 * k / len(h) * (1 + e) for k in range(1, len(h) + 1) for e in (-1e-6, 1e-6, -1e-8, 1e-8) if k / len(h) * (1 + e) <= 1] if small and h else [])
    w = WaveHeights(H, T)
    same_pairs(w.hwave, w.twave, pairs, "WaveHeights", False)
    need(w.nwave == len(h), "nwave")
    for p in fr:
        judge_fraction(ct.highest_waves_params(a[0], a[1], p), pairs, p, f"highest_waves_params({p})")
        judge_fraction(WaveHeights(H, T).highest_waves(p), pairs, p, f"highest_waves({p})")
        judge_fraction(w.highest_waves(p), pairs, p, f"highest_waves({p}) again")
        m.step(3)
    for p in pc:
        judge_perc(ct.exceedance_wave_height(a[0], p), pairs, p, f"exceedance_wave_height({p})")
        judge_perc(WaveHeights(H, T).get_exceedance_waveheight(p), pairs, p, f"get_exceedance_waveheight({p})")
        m.step(2)
    hs = WaveHeights(H, T).get_Hs()
    judge_fraction(hs, pairs, 1 / 3, "get_Hs")
    rel(WaveHeights(H, T).get_H2p_Rayleigh(), float(hs[0]) * math.sqrt(math.log(50) / 2), "get_H2p_Rayleigh")
    m.step(2)
    if h:
        rel(WaveHeights(H, T).get_Hrms(), math.sqrt(sum(v * v for v in h) / len(h)), "get_Hrms")
        rel(WaveHeights(H, T).get_Hmax(), max(h), "get_Hmax", rtol=0)
        q = WaveHeights(H, T)
        q.sort()
        same_pairs(q.hwave, q.twave, pairs, "sort()", True)
        m.step(3)
    same_pairs(w.hwave, w.twave, pairs, "WaveHeights after queries", False)
    m.state(tuple(sorted(h))[:8], len(h))


def heights(kind, n):
    if kind == "up":
        return [0.5 + i for i in range(n)]
    if kind == "down":
        return [0.5 + n - i for i in range(n)]
    if kind == "mixed":
        return [abs(v) + 0.01 for v in ref.lcg(n, 11).tolist()]
    if kind == "close":
        return [1.0 + 1e-9 * ((i * 7919) % (n + 1)) for i in range(n)]
    if kind == "ties":
        return [float(1 + (i * 31) % 7) for i in range(n)]
    if kind == "equal":
        return [2.5] * n
    if kind.startswith("bump"):  # descending, but the largest somewhere else
        h = [0.5 + n - i for i in range(n)]
        h[int(kind[4:])] = 2.0 * n
        return h
    if kind == "zeros":
        return [float((i * 3) % 4) for i in range(n)]
    raise KeyError(kind)


def sizes(tier):
    ns = list(range(0, 41)) + [49, 50, 51, 99, 100, 101, 150, 199, 200, 201, 333, 500, 1000, 1001, 4097, 20001]
    if tier != "quick":
        ns = list(range(0, 260)) + [333, 500, 999, 1000, 1001, 3000, 4097, 10000, 20001, 65537]
    for n in ns:
        for kind in ("up", "down", "mixed", "close", "ties", "equal", "zeros"):
            yield {"kind": kind, "n": n}
    for n in (9, 60, 100):
        for i in range(n):
            yield {"kind": f"bump{i}", "n": n}
    for kind in ("mixed", "ties"):
        for n in (7, 60):
            for amp in (1e-100, 1e-14, 1e-9, 1e7, 1e100):
                yield {"kind": kind, "n": n, "amp": amp}


def check_whole(case, m):
    n = case["n"]
    h = [float(n - i) for i in range(n)]
    w = WaveHeights(np.array(h[::-1]), np.array(h))
    for p in range(101):
        c = n * p // 100
        want = h[c - 1] if c else 0.0
        rel(ct.exceedance_wave_height(np.array(h), p), want, f"exceedance_wave_height({p}) of {n} waves", rtol=1e-12)
        rel(w.get_exceedance_waveheight(float(p)), want, f"get_exceedance_waveheight({p}) of {n} waves", rtol=1e-12)
        m.state(n, c)
        m.step(2)
    for q in (1, 2, 3, 4, 5, 8, 10):  # fractions k/q of a list of whole multiples, one third of any
        if n % q == 0 and (q & (q - 1)) == 0 or q == 3:
            for k in range(q + 1):
                if q == 3 and k == 2:
                    continue
                judge_fraction(w.highest_waves(k / q), list(zip(h, h[::-1])), k / q, f"highest_waves({k}/{q}) of {n} waves")
                m.step()


def check_perm(case, m):
    """Order of the waves is irrelevant: every permutation of distinct heights."""
    n = case["n"]
    base = [(1.0 + 1.7 * i, 4.0 + ((i * 5) % 7)) for i in range(n)]
    prm = [base[i] for i in case["perm"]]
    check_list({"h": [p[0] for p in prm], "t": [p[1] for p in prm]}, m)


def check_reject(case, m):
    h, t = np.array([3.0, 2.0, 1.0]), np.array([4.0, 5.0, 6.0])
    kind, v = case["kind"], case["v"]
    calls = []
    if kind == "frac":
        calls = [lambda: ct.highest_waves_params(h, t, v), lambda: WaveHeights(h, t).highest_waves(v)]
    elif kind == "perc":
        calls = [lambda: ct.exceedance_wave_height(h, v), lambda: WaveHeights(h, t).get_exceedance_waveheight(v)]
    elif kind == "unsorted":
        hh = np.array(v)
        tt = np.arange(1.0, len(hh) + 1)
        calls = [lambda: ct.highest_waves_params(hh, tt, 0.5), lambda: ct.exceedance_wave_height(hh, 50.0)]
    for c in calls:
        try:
            r = c()
        except (ValueError, AssertionError, TypeError):
            m.step()
            continue
        fail(f"{kind} {v!r} accepted: {r!r}")
    m.state(kind, v)


def rejects(tier):
    for v in (-1.0, -0.1, -1e-9, 1.000001, 1.1, 2.0, 33.0, 100.0, -math.inf, math.inf):
        yield {"kind": "frac", "v": v}
    for v in (-1.0, -0.5, -1e-9, 100.000001, 101.0, 1e6, -math.inf, math.inf):
        yield {"kind": "perc", "v": v}
    for n in (2, 3, 4, 5):
        for w in itertools.product((1.0, 2.0, 3.0), repeat=n):
            if any(w[i] < w[i + 1] for i in range(n - 1)):
                yield {"kind": "unsorted", "v": list(w)}
                if n == 3:
                    for amp in (1e-30, 1e-12, 1e12):
                        yield {"kind": "unsorted", "v": [q * amp for q in w]}
    for n in (50, 500):
        for pos in (0, n // 2, n - 2):  # one inversion anywhere in a long list
            v = [float(n - i) for i in range(n)]
            v[pos], v[pos + 1] = v[pos + 1], v[pos]
            yield {"kind": "unsorted", "v": v}


def check_nowaves(case, m):
    """Records without two crossings: statistics of the Series object are zero."""
    s = Series(ref.axis(len(case["x"]), 0, 0.5), np.array(case["x"]))
    if len(ref.crossings(ref.axis(len(case["x"])), case["x"], True)) > 1:
        return
    for p in FRACS:
        judge_fraction(s.highest_waves(p), [], p, "highest_waves without waves")
    judge_fraction(s.get_Hs(), [], 1 / 3, "get_Hs without waves")
    for p in PERCS:
        judge_perc(s.get_exceedance_waveheight(p), [], p, "exceedance without waves")
    rel(s.get_H2p_Rayleigh(), 0.0, "get_H2p_Rayleigh without waves")
    need(s.nwave == 0, "nwave without waves")
    m.state(len(case["x"]))
    m.step(4)


SPACES = [
    Space("ties", "all height lists over {1,2,3} of length 0..5 (thorough 0..7) with distinguishable periods x 14+n fractions x 16+n percentages",
          lambda tier: ({"h": list(w)} for n in range(0, 6 if tier == "quick" else 8) for w in itertools.product((1.0, 2.0, 3.0), repeat=n)),
          check_list, chunk=4),
    Space("period order", "all period assignments over {3,5,9} to the heights 2,1,2 and 1,2,3,4",
          lambda tier: ({"h": h, "t": list(w)} for h in ([2.0, 1.0, 2.0], [1.0, 2.0, 3.0, 4.0], [2.0, 2.0, 2.0, 1.0])
                        for w in itertools.product((3.0, 5.0, 9.0), repeat=len(h))), check_list, chunk=4),
    Space("permutations", "all permutations of 1..6 (thorough 7) distinct waves",
          lambda tier: ({"n": n, "perm": list(p)} for n in range(1, 7 if tier == "quick" else 8) for p in itertools.permutations(range(n))),
          check_perm, chunk=8),
    Space("sizes", "7 kinds of lists (and the largest wave at every place) x all lengths 0..40 and selected up to 20001 (thorough: all to 259, up to 65537); heights times 1e-100..1e100", sizes, check_list, chunk=2),
    Space("whole percentages", "every whole percentage 0..100 and fractions k/2, k/4, k/8, 1/3 for lists of 1..100 (thorough 400) and up "
          "to 10000 distinct waves", lambda tier: ({"n": n} for n in list(range(1, 101 if tier == "quick" else 401)) + [125, 150, 200, 250, 300, 500, 700, 1000, 3000, 10000]), check_whole, chunk=4),
    Space("rejects", "fractions/percentages outside their range; every unsorted list over {1,2,3} of length 2..5, one inversion in long lists",
          rejects, check_reject),
    Space("no waves", "all records over {-1,0,1} of length 3..7 without a complete wave",
          lambda tier: ({"x": list(w)} for n in range(3, 8) for w in itertools.product((-1.0, 0.0, 1.0), repeat=n)), check_nowaves),
]
