"""Fourier pair: against a direct DFT matrix, on every basis record, small words, and long records of every parity."""
import itertools

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, need

from deltares_wave_toolbox.cores import core_spectral as cs
from deltares_wave_toolbox.series import Series

ASSUMPTIONS = [
    "the transform is linear: agreement on every unit impulse plus all superpositions enumerated fixes it for that length",
    "frequencies are compared to 1e-12 plus the rounding of the time step read off the axis",
    "above 700 samples the reference uses numpy's FFT instead of the DFT matrix",
]
AXES = [(0.0, 1.0), (0.0, 0.1), (-7.25, 0.25), (1000.0, 1 / 3), (1.6e9, 0.5), (0.0, 1e-3), (0.0, 3600.0), (0.0, 1 / 44100)]


def rec(case):
    n = case["n"]
    if "x" in case:
        return np.array(case["x"])
    k = case["kind"]
    if isinstance(k, int):
        x = np.zeros(n)
        x[k] = 1.0
        return x
    x = {"lcg": lambda: ref.lcg(n, 7), "waves": lambda: ref.waves_like(n), "const": lambda: np.full(n, 2.5),
         "alternating": lambda: np.where(np.arange(n) % 2, -1.0, 1.0), "ramp": lambda: np.arange(n) * 1.0 - 3,
         "offset": lambda: ref.waves_like(n) + 100.0,
         "quarter": lambda: np.cos(np.pi * np.arange(n) / 2)}[k]()
    return x * case.get("amp", 1.0)


def ftol(t):
    return 1e-12 + 4e-16 * max(abs(t[0]), abs(t[-1])) / (t[1] - t[0])


def check(case, m):
    x = rec(case)
    n = len(x)
    dt = case["ax"][1]
    t = ref.axis(n, *case["ax"])
    X = ref.dft(x)
    sc = np.sum(np.abs(x)) + 1e-300
    f, F = cs.time2freq(t, x)
    close(f, ref.freqs(n, dt), "full frequency axis", rtol=ftol(t))
    close(F, X, "full transform", rtol=1e-10, scale=sc)
    ff, FF, odd = cs.time2freq_nyquist(t, x)
    k = ref.nfold(n)
    close(ff, ref.freqs(n, dt)[:k], "folded frequency axis", rtol=ftol(t))
    close(FF, X[:k], "folded transform", rtol=1e-10, scale=sc)
    need(bool(odd) == bool(n % 2), f"parity {odd!r} for {n} samples")
    xs = np.max(np.abs(x)) + 1e-300
    close(cs.freq2time(F), x, "back from the full transform", rtol=1e-10, scale=xs)
    fu, FU = cs.unfold_spectrum(ff, FF, odd)
    close(FU, X, "unfolded transform", rtol=1e-10, scale=sc)
    close(fu, ref.freqs(n, dt), "unfolded frequency axis", rtol=ftol(t))
    close(cs.freq2time(FU), x, "back via fold and unfold", rtol=1e-10, scale=xs)
    m.step(5)
    # the folded reference values, as a user would store them
    for o in (bool(n % 2), int(n % 2)):
        close(cs.freq2time(cs.unfold_spectrum(ref.freqs(n, dt)[:k], X[:k], o)[1]), x, "back from folded values", rtol=1e-10, scale=xs)
    m.step(2)
    if n >= 3 and case.get("series", True):
        g, G, o = Series(t, x).get_fourier_comp()
        close(g, ff, "Series frequencies", rtol=1e-12)
        close(G, FF, "Series components", rtol=1e-12, scale=sc)
        need(bool(o) == bool(n % 2), "Series parity")
        m.step()
    m.state(n, str(case.get("kind", case.get("x"))))


def basis(tier):
    for n in range(2, 41 if tier == "quick" else 97):
        for j in range(n):
            yield {"n": n, "kind": j, "ax": AXES[(n + j) % 8]}


def words(tier):
    for n in range(2, 8 if tier == "quick" else 10):
        for w in itertools.product((-1.0, 0.0, 2.0), repeat=n):
            yield {"n": n, "x": list(w), "ax": AXES[n % 3], "series": n < 6}


def check_dynamic(case, m):
    """Small components beside very large ones: nothing is lost below the rounding of the transform itself."""
    n = case["n"]
    w = np.array(case["x"])
    big = 2.0 ** case["pow"]
    if case["how"] == "mean":
        x = w + big
        X = ref.dft(w)
        X[0] += n * big
    else:  # a large alternating part: all in the Nyquist component
        alt = np.where(np.arange(n) % 2, -big, big)
        x = w + alt
        X = ref.dft(w)
        X[n // 2] += n * big
    t = ref.axis(n, 0.0, 0.5)
    sc = n * big
    f, F = cs.time2freq(t, x)
    close(F, X, "full transform", rtol=1e-14, scale=sc)
    ff, FF, odd = cs.time2freq_nyquist(t, x)
    close(FF, X[:ref.nfold(n)], "folded transform", rtol=1e-14, scale=sc)
    close(cs.freq2time(cs.unfold_spectrum(ff, FF, odd)[1]), x, "back via fold and unfold", rtol=1e-14, scale=big)
    m.state(n, case["how"], tuple(case["x"]))
    m.step(3)


def dynamic_cases(tier):
    for n in (4, 8, 16):
        ws = list(itertools.product((0.0, 1.0), repeat=n))
        for w in ws if n <= 8 else ws[:: 257 if tier == "quick" else 17]:
            for pow in (30, 40):
                for how in ("mean", "alternating"):
                    yield {"n": n, "x": list(w), "pow": pow, "how": how}


KINDS = ("lcg", "waves", "const", "alternating", "ramp", "offset", "quarter")


def lengths(tier):
    for n in list(range(2, 131 if tier == "quick" else 515)):
        for k in KINDS:
            yield {"n": n, "kind": k, "ax": AXES[n % 8]}
    for n in (250, 251, 256, 257, 499, 500, 511, 512, 600, 601, 1000, 1001, 1024, 1999, 2000, 2048, 4096, 4099, 5000, 10000, 10007, 16384):
        for k in ("lcg", "waves", "offset"):
            for ax in AXES[:5] if n < 2100 else AXES[1:3]:
                yield {"n": n, "kind": k, "ax": ax}
    for n in (16, 17, 100, 101):
        for amp in (1e-12, 1e-6, 1e6, 1e12):
            for ax in AXES:
                yield {"n": n, "kind": "lcg", "amp": amp, "ax": ax}


SPACES = [
    Space("basis", "every unit impulse of every length 2..40 (thorough 96), 8 time axes in turn", basis, check),
    Space("words", "all records over {-1,0,2} of length 2..7 (thorough 9)", words, check),
    Space("dynamic range", "all records over {0,1} of length 4 and 8 (some of 16) on top of a mean or a Nyquist component of 2^30 and 2^40",
          dynamic_cases, check_dynamic, chunk=32),
    Space("lengths", "7 record kinds x every length 2..130 (thorough 514) and 22 lengths up to 16384; amplitudes 1e-12..1e12", lengths, check, chunk=4),
]
