"""Band-pass filter against direct synthesis of the components inside the half-open band."""
import itertools
import math

import numpy as np
from mc import ref
from mc.checks.c06 import AXES, rec
from mc.core import Space
from mc.ref import close, need

from deltares_wave_toolbox.cores import core_spectral as cs
from deltares_wave_toolbox.series import Series

ASSUMPTIONS = [
    "limits are mid-way between frequencies, or exactly the frequencies the code itself reports for that record",
]


def inband(f, lo, hi):
    last = f[-1]
    lo = math.inf if lo >= last else lo
    hi = math.inf if hi >= last else hi
    k = np.array([lo <= v < hi for v in f])
    k[0] = False
    return k


def check(case, m):
    x = rec(case)
    n = len(x)
    t = ref.axis(n, *case["ax"])
    dt = case["ax"][1]
    f, F, odd = cs.time2freq_nyquist(t, x)
    X = ref.dft(x)
    sc = np.max(np.abs(x)) + 1e-300
    edges = limits(f, case)
    for lo, hi in edges:
        keep = inband(f, lo, hi)
        full = np.zeros(n)
        for k in range(1, len(f)):
            if keep[k]:
                full[k] = full[(n - k) % n] = 1.0
        want = np.real(np.conj(ref.dft(np.conj(X * full)))) / n
        Y = cs.applybandfilter(f, F, lo, hi)
        close(Y, np.where(keep, F, 0), f"components in [{lo}, {hi})", rtol=1e-12)
        y = cs.bandpassfilter(t, x, lo, hi)
        close(y, want, f"record filtered to [{lo}, {hi})", rtol=1e-9, scale=sc)
        m.step(2)
        m.state(n, tuple(np.flatnonzero(keep)[[0, -1]].tolist()) if keep.any() else ())
        if case.get("series") and n >= 3:
            s = Series(t, x).get_bandpassfilter(lo, hi)
            close(s.xTime, want, f"Series filtered to [{lo}, {hi})", rtol=1e-9, scale=sc)
            close(s.time, t, "time axis of the filtered Series", rtol=0.0)
            close(cs.bandpassfilter(t, y, lo, hi), y, "filtering twice", rtol=1e-9, scale=sc)
            m.step(2)


def limits(f, case):
    mids = [(f[i] + f[i + 1]) / 2 for i in range(len(f) - 1)]
    on = [float(v) for v in f[1:]]
    every = mids + on + [f[-1] * 1.01, f[-1] * 7]
    if case["lim"] == "all":
        return [(a, b) for a in every for b in every + [math.inf, 0.0, -1.0]]
    if case["lim"] == "mid":
        e = mids + [f[-1] * 1.3]
        return [(a, b) for i, a in enumerate(e) for b in e[i:]]
    k = len(f)
    pick = sorted({0, 1, 2, k // 7, k // 3, k // 2, k - 3, k - 2} & set(range(k - 1)))
    out = []
    for i in pick:
        for j in pick:
            if i <= j:
                out += [(mids[i], mids[j]), (on[i], mids[j]), (mids[i], on[j]), (on[i], on[j])]
        out += [(mids[i], f[-1]), (mids[i], math.inf), (on[i], f[-1] * 1.5), (f[-1], f[-1] * 2), (mids[i], mids[i] / 2)]
    return out


def cases(tier):
    top = 13 if tier == "quick" else 22
    for n in range(2, top):
        for k in ["lcg", "alternating", "offset"] + list(range(n)):
            yield {"n": n, "kind": k, "ax": AXES[n % 7], "lim": "all", "series": n < 10}
    for n in range(top, 41 if tier == "quick" else 81):
        for k in ("lcg", "offset", "waves"):
            yield {"n": n, "kind": k, "ax": AXES[n % 7], "lim": "mid"}


def big(tier):
    for n in (41, 64, 97, 100, 101, 128, 255, 256, 500, 501, 600, 1000, 1001, 1024, 2000, 4096, 4099, 10007, 70000, 131072):
        for k in ("lcg", "waves", "offset"):
            for ax in AXES[:5] if n < 300 else AXES[1:3]:
                yield {"n": n, "kind": k, "ax": ax, "lim": "pick", "series": n < 300}
    for amp in (1e-9, 1e7):
        for n in (20, 33):
            yield {"n": n, "kind": "lcg", "amp": amp, "ax": AXES[2], "lim": "pick", "series": True}


def check_partition(case, m):
    """Adjacent bands cover everything but the mean exactly once: every split of the axis into 2 or 3 bands."""
    n = case["n"]
    x = ref.lcg(n, 8) + 3.0
    t = ref.axis(n, *case["ax"])
    f = cs.time2freq_nyquist(t, x)[0]
    mids = [(f[i] + f[i + 1]) / 2 for i in range(len(f) - 1)]
    lo = mids[0] / 2
    cuts = mids + [float(v) for v in f[1:]]
    total = x - np.mean(x)
    for a, b in itertools.combinations(sorted(cuts), 2):
        y = cs.bandpassfilter(t, x, lo, a) + cs.bandpassfilter(t, x, a, b) + cs.bandpassfilter(t, x, b, f[-1] * 2)
        close(y, total, f"three bands split at {a}, {b}", rtol=1e-9, scale=4.0)
        y = cs.bandpassfilter(t, x, lo, a) + cs.bandpassfilter(t, x, a, b)
        close(y, cs.bandpassfilter(t, x, lo, b), f"two bands split at {a} against their union", rtol=1e-9, scale=4.0)
        m.step(2)
        m.state(n, a, b)
    z = cs.bandpassfilter(t, 2.0 * x + 0.5 * ref.waves_like(n), mids[0], mids[-1])
    close(z, 2.0 * cs.bandpassfilter(t, x, mids[0], mids[-1]) + 0.5 * cs.bandpassfilter(t, ref.waves_like(n), mids[0], mids[-1]),
          "superposition", rtol=1e-9, scale=8.0)


def check_near(case, m):
    """Limits a hair below or above a frequency: the component belongs to the band by the exact comparison."""
    n = case["n"]
    x = rec(case)
    t = ref.axis(n, *case["ax"])
    f = cs.time2freq_nyquist(t, x)[0]
    X = ref.dft(x)
    sc = np.max(np.abs(x))
    ks = range(1, len(f)) if n < 30 else sorted({1, 2, len(f) // 3, len(f) // 2, len(f) - 3, len(f) - 2, len(f) - 1})
    df = f[1]
    near = [(k, float(f[k] + s * e * df)) for k in ks for e in (1e-3, 1e-6, 1e-9) for s in (-1, 1) if k < len(f) - 1 or s < 0 and e > 1e-8]
    far = [float(f[0] + df / 2), float(f[-1] * 2)]
    for k, v in near:
        for lo, hi in ((far[0], v), (v, far[1]), (v, float(f[k] + 0.4 * df)), (float(f[k] - 0.4 * df), v)):
            if lo >= hi:
                continue
            keep = inband(f, lo, hi)
            full = np.zeros(n)
            for i in np.flatnonzero(keep):
                full[i] = full[(n - i) % n] = 1.0
            want = np.real(np.conj(ref.dft(np.conj(X * full)))) / n
            close(cs.bandpassfilter(t, x, lo, hi), want, f"n={n}: limits [{lo}, {hi}) around bin {k}", rtol=1e-9, scale=sc)
            m.step()
    m.state(n, case["kind"])


def check_open(case, m):
    """Lower limits of zero or less: everything above the mean, up to the upper limit."""
    n = case["n"]
    x = rec(case)
    t = ref.axis(n, *case["ax"])
    f, F, odd = cs.time2freq_nyquist(t, x)
    X = ref.dft(x)
    sc = np.max(np.abs(x))
    ups = [(f[i] + f[i + 1]) / 2 for i in range(len(f) - 1)] + [float(v) for v in f[1:]] + [f[-1] * 2, math.inf, 0.0, -1.0]
    if n > 40:
        ups = ups[:3] + ups[len(f) // 2:len(f) // 2 + 2] + ups[-6:]
    for hi in ups:
        keep = inband(f, f[1] / 2, hi)
        full = np.zeros(n)
        for i in np.flatnonzero(keep):
            full[i] = full[(n - i) % n] = 1.0
        want = np.real(np.conj(ref.dft(np.conj(X * full)))) / n
        for lo in (0.0, 0, -0.0, -1e-9, -f[1], -1.0, -1e6, -math.inf):
            close(cs.applybandfilter(f, F, lo, hi), np.where(keep, F, 0), f"components in [{lo}, {hi})", rtol=1e-12)
            close(cs.bandpassfilter(t, x, lo, hi), want, f"record filtered to [{lo}, {hi})", rtol=1e-9, scale=sc)
            m.step(2)
        if n >= 3:
            close(Series(t, x).get_bandpassfilter(0.0, hi).xTime, want, f"Series filtered to [0, {hi})", rtol=1e-9, scale=sc)
            m.step()
        m.state(n, int(keep.sum()))


SPACES = [
    Space("from zero", "lower limits of zero (also -0.0 and integer 0), just below it and far below, to every upper limit, lengths 2..40 and to 1001 x records with a mean",
          lambda tier: ({"n": n, "kind": k, "ax": AXES[n % 7]} for n in list(range(2, 41)) + [64, 101, 500, 1001] for k in ("lcg", "offset")), check_open, chunk=2),
    Space("near limits", "limits 1e-3, 1e-6 and 1e-9 of a bin below and above every frequency, lengths 3..29 and to 1001 x 7 axes",
          lambda tier: ({"n": n, "kind": "lcg", "ax": AXES[n % 7]} for n in list(range(3, 30)) + [64, 101, 500, 1001]), check_near, chunk=1),
    Space("small", "every length 2..12 (thorough 21): every unit impulse and 3 records x every pair of limits (mid-bin, on-bin, outside, reversed); "
          "lengths to 40 (80) x every mid-bin pair", cases, check, chunk=2),
    Space("big", "20 lengths up to 131072 x records x axes x ~200 pairs of limits", big, check, chunk=1),
    Space("partition", "every split of the axis into three bands, lengths 4..20 (thorough 4..40)",
          lambda tier: ({"n": n, "ax": AXES[n % 5]} for n in range(4, 21 if tier == "quick" else 41)), check_partition, chunk=1),
]
