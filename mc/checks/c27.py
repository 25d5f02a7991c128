"""High- and low-frequency parts: all spectra, limits and query orders against the moments of the part."""
import itertools
import math
import warnings

import numpy as np
from mc import ref
from mc.checks.c05 import spec as base_spec
from mc.core import Space
from mc.ref import need

from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = ["limits snap to the nearest grid frequency as for every moment (C10); cases whose cutoff lies within 1e-9 of the middle between two "
               "frequencies are left out", "parts without energy, or of fewer than two frequencies, have no period"]
NAMES = ("Hm0_HF", "Hm0_LF", "Tmm10_HF", "Tmm10_LF", "smm10_HF")


def spec(case):
    kind, n = case["kind"], case.get("n", 60)
    if kind in ("double", "ties"):
        return base_spec(kind)
    df = case.get("df", 0.01)
    f = np.arange(n) * df + (0.0 if case.get("zero") else df)
    fp = f[1] + case.get("pos", 0.35) * (f[-1] - f[1])
    if kind == "jonswap":
        return f, ref.jonswap(f, fp, 2.3, case.get("gamma", 3.3), False) + case.get("floor", 1e-3)
    if kind == "flat":
        return f, np.ones(n)
    if kind == "rough":
        return f, 0.6 + 0.5 * ref.lcg(n, 8)
    if kind == "swell":  # most energy far below the peak
        return f, np.exp(-((f - 3 * df) / df) ** 2) + 0.02 + ref.jonswap(f, fp, 0.5, 3.3, False)
    if kind == "word":
        return f, np.array(case["word"], dtype=float)
    raise KeyError(kind)


def model(f, s, name, fmin, fmax, g=9.81):
    """(value or None when there is none, is the default used)."""
    m0 = ref.moment(f, s, 0, float(f[0]), float(f[-1]))
    m1 = ref.moment(f, s, -1, float(f[0]), float(f[-1]))
    cut = 0.45 * m0 / m1
    hf = name.endswith("HF")
    used = (fmin if hf else fmax) is None
    lo = fmin if fmin is not None else (cut if hf else float(f[0]))
    hi = fmax if fmax is not None else (float(f[-1]) if hf else cut)
    for v in (lo, hi):  # a cutoff on the middle between two frequencies may go either way
        d = np.sort(np.abs(f - v))
        if len(d) > 1 and d[1] - d[0] < 1e-9 * f[-1]:
            return None, used, cut
    p0, p1 = ref.moment(f, s, 0, lo, hi), ref.moment(f, s, -1, lo, hi)
    if not p0 > 1e-12 * m0 or not p1 > 1e-12 * m1:
        return None, used, cut
    H, T = 4 * math.sqrt(p0), p1 / p0
    return {"Hm0": H, "Tmm10": T, "smm10": 2 * math.pi * H / (g * T * T)}[name.split("_")[0]], used, cut


def call(o, name, kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v = getattr(o, "get_" + name)(**kw)
    return v, [str(x.message) for x in w if issubclass(x.category, UserWarning) and "utoff" in str(x.message)]


def check(case, m):
    f, s = spec(case)
    n = len(f)
    _, _, cut = model(f, s, "Hm0_HF", None, None)
    inner = [float(f[n // 4] + 0.3 * (f[1] - f[0])), float(f[2 * n // 3]), float(cut), float(f[0]), float(f[-1])]
    lims = [None] + (inner if not case.get("word") else [float(f[n // 2])])
    limits = [(a, b) for a, b in itertools.product(lims, lims) if a is None or b is None or a < b]
    if case.get("orders"):
        limits = [(None, None), (inner[0], None), (None, inner[1]), (inner[0], inner[1])]
    got = 0
    for name in NAMES:
        for fmin, fmax in limits:
            if f[0] == 0 and fmin == 0.0:
                continue
            kw = {k: v for k, v in (("fmin", fmin), ("fmax", fmax)) if v is not None}
            for g in (9.81, 1.62) if name.startswith("smm") else (9.81,):
                if g != 9.81:
                    kw = {**kw, "g": g}
                want, used, _ = model(f, s, name, fmin, fmax, g)
                if want is None:
                    continue
                what = f"{case} {name} {kw}"
                for before in case.get("orders") or [()]:
                    o = Spectrum(f, s)
                    for b in before:
                        try:
                            call(o, b[0], b[1])
                        except (ValueError, IndexError):
                            pass  # this part has no frequencies: the query is rejected, with no effect on later ones
                    v, w = call(o, name, kw)
                    ref.rel(v, want, f"{what} after {before}", rtol=1e-8)
                    need((len(w) > 0) == used, f"{what} after {before}: warnings {w}, default {'' if used else 'not '}used")
                    ref.rel(getattr(o, name), want, f"{what}: stored value", rtol=1e-8)
                    ref.rel(o.get_Tmm10(), 0.45 / cut, f"{what}: Tm-1,0 afterwards", rtol=1e-8)
                    got += 1
                    m.step()
                if fmin is not None and fmax is not None and g == 9.81:
                    v, _ = call2(Spectrum(f, s), name, fmin, fmax)
                    ref.rel(v, want, what + " positional", rtol=1e-8)
    # the two parts at one cutoff are the whole, up to the interval at the cutoff
    lo, _ = call(Spectrum(f, s), "Hm0_LF", {})
    hi, _ = call(Spectrum(f, s), "Hm0_HF", {})
    i = ref.nearest(list(f), cut)
    ml, mh = model(f, s, "Hm0_LF", None, float(f[i]))[0], model(f, s, "Hm0_HF", float(f[i]), None)[0]
    if ml is not None and mh is not None:
        ref.rel(float(lo) ** 2 + float(hi) ** 2, ml**2 + mh**2, f"{case}: energy of both parts", rtol=1e-8)
        m.step()
    m.notes["values"] += got
    m.state(case["kind"], n, i, len(limits))


def call2(o, name, a, b):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(o, "get_" + name)(a, b), None


def cases(tier):
    for kind in ("jonswap", "flat", "rough", "swell"):
        for n in (10, 11, 24, 60, 101) if tier == "quick" else (8, 9, 10, 11, 16, 24, 25, 60, 101, 256, 400):
            for zero in (False, True):
                for pos in (0.15, 0.35, 0.6, 0.85) if kind in ("jonswap", "swell") else (0.35,):
                    for df in (0.01, 0.125):
                        yield {"kind": kind, "n": n, "zero": zero, "pos": pos, "df": df}
    for kind in ("double", "ties"):
        yield {"kind": kind}


def words(tier):
    for n in (6, 7) if tier == "quick" else (6, 7, 8):
        for w in itertools.product((0.1, 1.0, 3.0) if n == 6 else (0.2, 2.0), repeat=n):
            yield {"kind": "word", "n": n, "word": list(w), "zero": n == 7, "df": 0.05}


LIM = {"fmin": 0.072, "fmax": 0.331}
BEFORE = [(q, k) for q in ("Hm0", "Tmm10", "Tps", "Tp", "Tm02", "smm10", "s0p") for k in ({}, LIM)] + \
         [(q, k) for q in NAMES for k in ({}, LIM, {"fmin": 0.093}, {"fmax": 0.252})]


def orders(tier):
    for kind in ("jonswap", "double", "swell"):
        for b in BEFORE:
            yield {"kind": kind, "orders": [[b]] + [[b, c] for c in BEFORE[::1 if tier != "quick" else 3]]}


SPACES = [
    Space("limits", "4 shapes x 5 sizes x 4 peak positions x 2 axes x 2 resolutions and 2 more spectra x all pairs of 6 limits x 5 quantities", cases, check, chunk=2),
    Space("words", "all spectra of 6 frequencies over 3 levels and 7 over 2 (with f=0) x 4 limits x 5 quantities", words, check, chunk=8),
    Space("orders", "3 spectra x 4 limits x 5 quantities after every sequence of one, and of two, of 34 earlier queries", orders, check, chunk=1),
]
