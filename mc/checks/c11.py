"""Spectral parameters against their definitions, function and object, every density on small axes, every range."""
import itertools
import math

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import fail, need, rel, scalar

from deltares_wave_toolbox.cores.core_wavefunctions import compute_spectrum_params, tpd
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = [
    "limits are not half-way between frequencies; ranges with Hm0 within a factor 2 of the 1e-6 floor are not used",
    "where the smoothed peak is not unique, any period within the range is accepted (C13 decides the rest)",
]
FAX = [(0.1, 0.1), (0.0, 0.1), (0.04, 0.02), (0.0, 0.01), (1.0, 1.0)]


def tps_ok(got, f, s, what):
    w = ref.tps(f, s)
    g = scalar(got, what)
    if isinstance(w, tuple):
        need(w[0] * (1 - 1e-9) <= g <= w[1] * (1 + 1e-9), f"{what}: {g}, outside the range of periods {w}")
    else:
        rel(g, w, what, rtol=1e-7)


def expected(f, s, a, b):
    m = {o: ref.moment(f, s, o, a, b) for o in (-1, 0, 1, 2)}
    return m


def check(case, m):
    n = case["n"]
    f = ref.axis(n, *case["ax"])
    s = dens(case, f)
    for a, b in case["lim"] if "lim" in case else ranges(f):
        idx = ref.peak_range(f, s, a, b)
        if not idx:
            continue
        mo = expected(f, s, a, b)
        kw = {}
        if a is not None:
            kw["fmin"] = a
        if b is not None:
            kw["fmax"] = b
        hm0 = 4 * math.sqrt(mo[0]) if mo[0] > 0 else 0.0
        if 5e-7 < hm0 < 2e-6:
            continue
        what = f"[{a}, {b}]"
        if mo[0] < -1e-18 or any(mo[o] < 0 for o in mo):
            continue
        peak0 = any(f[i] == 0 and s[i] == max(s[j] for j in idx) for i in idx)
        P = None
        if not peak0:
            P = compute_spectrum_params(f, s, **kw)
            m.step()
            need(len(P) == 6, "number of parameters")
        if hm0 < 1e-6:
            if P is not None:
                for v, name in zip(P, ("Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02")):
                    need(np.isnan(scalar(v, name)), f"{name} of a spectrum without energy over {what}: {v}")
            if hm0 > 1e-140 and not peak0:  # the object has no floor for its peak period and moments
                rel(Spectrum(f, s).get_Tp(**kw), ref.tp(f, s, a, b), f"Spectrum Tp over {what}")
                if mo[-1] > 0:
                    rel(Spectrum(f, s).get_Tmm10(**kw), mo[-1] / mo[0], f"Spectrum Tmm10 over {what}", rtol=1e-8)
                m.step(2)
            continue
        S = Spectrum(f, s)
        want = {"Hm0": hm0, "Tmm10": mo[-1] / mo[0], "Tm01": mo[0] / mo[1] if mo[1] > 0 else None,
                "Tm02": math.sqrt(mo[0] / mo[2]) if mo[2] > 0 else None}
        for j, name in ((0, "Hm0"), (3, "Tmm10"), (4, "Tm01"), (5, "Tm02")):
            if want[name] is None:
                continue
            rel(getattr(S, "get_" + name)(**kw), want[name], f"Spectrum {name} over {what}", rtol=1e-8)
            m.step()
            if P is not None:
                rel(P[j], want[name], f"{name} over {what}", rtol=1e-8)
        if want["Tmm10"] > 0:
            smm10 = 2 * math.pi * hm0 / want["Tmm10"] ** 2
            for g in (9.81, 1.62):
                rel(Spectrum(f, s).get_smm10(g=g, **kw), smm10 / g, f"smm10 over {what}, g={g}", rtol=1e-8)
            m.step(2)
        if not peak0:
            tpw = ref.tp(f, s, a, b)
            rel(P[1], tpw, f"Tp over {what}")
            rel(S.get_Tp(**kw), tpw, f"Spectrum Tp over {what}")
            if case.get("near"):  # the parabola through nearly equal values is ill-conditioned
                m.step(2)
                continue
            fr, sr = [float(f[i]) for i in idx], [float(s[i]) for i in idx]
            tps_ok(P[2], fr, sr, f"Tps over {what}")
            t = S.get_Tps(**kw)
            tps_ok(t, fr, sr, f"Spectrum Tps over {what}")
            rel(t, float(scalar(P[2], "Tps")), f"Tps of function and object over {what}")
            if float(scalar(t, "Tps")) > 0:
                for g in (9.81, 1.62):
                    rel(Spectrum(f, s).get_s0p(g=g, **kw), 2 * math.pi * hm0 / (g * float(scalar(t, "Tps")) ** 2), f"s0p over {what}, g={g}", rtol=1e-7)
            m.step(6)
        m.state(n, case["ax"], round(math.log10(hm0), 6), tuple(idx))


def dens(case, f):
    n = len(f)
    if "s" in case:
        return np.array(case["s"])
    if case["kind"] == "lcg":
        return np.abs(ref.lcg(n, 13)) * case.get("amp", 1.0)
    if case["kind"] == "swell+sea":
        return ref.jonswap(f, float(f[n // 6]) + 1e-9, 1.0, 7.0, False) + ref.jonswap(f, float(f[n // 2]), 1.5, 1.0, False)
    if case["kind"] == "flat":
        return np.ones(n)
    fp = case["fp"]
    return ref.jonswap(f, fp, case.get("hm0", 1.7), case.get("gamma", 3.3), False)


def ranges(f):
    n = len(f)
    df = float(f[1] - f[0])
    lo = [None] + [float(v) for v in f[:-1]] + [float(v) - 0.3 * df for v in f[1:-1]]
    hi = [None] + [float(v) for v in f[1:]] + [float(v) + 0.3 * df for v in f[1:-1]] + [float(f[-1]) + 3 * df, math.inf]
    if n > 8:
        lo = [None] + [float(f[i]) for i in sorted({0, 1, n // 5, n // 3})] + [float(f[n // 4]) + 0.31 * df]
        hi = [None] + [float(f[i]) for i in sorted({n // 2, n - 2, n - 1})] + [float(f[2 * n // 3]) + 0.31 * df, float(f[-1]) * 2, math.inf]
    for a in lo:
        for b in hi:
            if a is None or b is None or a < b:
                yield a, b


def check_tpd(case, m):
    """m0/m1 over the interval spanned by the densities near the maximum (0.64 or 0.8 of it, a density at the threshold either way)."""
    n = case["n"]
    f = ref.axis(n, *case["ax"])
    s = dens(case, f)
    top = float(max(s))
    ok = set()
    for thr in (0.64, 0.8):
        for e in (-1e-9, 1e-9):
            i = [j for j in range(n) if s[j] >= thr * top * (1 + e)]
            a, b = i[0], i[-1]
            if a == b:
                if f[a] == 0:
                    return
                ok.add(1 / float(f[a]))
            else:
                ok.add(ref.moment(f, s, 0, f[a], f[b]) / ref.moment(f, s, 1, f[a], f[b]))
    g = scalar(tpd(f, s), "tpd")
    need(any(abs(g - v) <= 1e-8 * v for v in ok), f"tpd: {g}, possible {sorted(ok)}")
    m.step()
    m.state(n, len(ok))


def tpd_cases(tier):
    for n in (3, 4, 5, 6):
        for w in itertools.product((0.1, 0.7, 0.75, 1.0) if n < 6 or tier != "quick" else (0.1, 0.75, 1.0), repeat=n):
            if max(w) == 1.0:
                yield {"n": n, "ax": FAX[0], "s": list(w)}
                if n < 5:
                    yield {"n": n, "ax": FAX[3], "s": list(w)}
    for w in itertools.product((0.0, 1.0, 2.0, 9.0), repeat=4):
        for e in (1e-12, 1e6):
            if max(w):
                yield {"n": 4, "ax": (0.04, 0.02), "s": [e * v for v in w]}
    for case in large(tier):
        yield case


def small(tier):
    for n in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6):
        for w in itertools.product((0.0, 1.0, 2.0), repeat=n):
            for ax in FAX[:2] if n > 3 else FAX:
                yield {"n": n, "ax": ax, "s": list(w)}
    for w in itertools.product((0.0, 1e-14, 1e-13, 1e-10), repeat=3):
        yield {"n": 3, "ax": FAX[0], "s": list(w)}
    for w in itertools.product((1.0, 2.0, 3.0), repeat=4):
        for e in (1e-16, 1e-17, 1e-18, 1e-21, 1e-30, 1e-100, 1e8, 1e16, 1e30):
            yield {"n": 4, "ax": FAX[0], "s": [e * v for v in w]}
    for w in itertools.product((1.0, 2.0, 3.0), repeat=3):  # a range far below the energy elsewhere in the spectrum
        for e, top in ((1e-7, 1e6), (1e-3, 1e15), (1.0, 1e25)):
            yield {"n": 6, "ax": FAX[0], "s": [e * v for v in w] + [top, 0.5 * top, 0.1 * top]}
            yield {"n": 6, "ax": FAX[0], "s": [0.1 * top, 0.5 * top, top] + [e * v for v in w]}
    for w in itertools.product((0.0, 1.0, 1 - 2**-52, 1 - 1e-14, 1 - 1e-9, 1 - 1e-6), repeat=3):
        yield {"n": 5, "ax": FAX[0], "s": [0.1, *w, 0.2], "near": True}


def large(tier):
    for n in (20, 33, 50, 51, 100, 101, 256, 500, 1000, 1001, 2000):
        for ax in ((0.0, 1.0 / n), (1.0 / n, 1.0 / n), (0.03, 0.5 / n), (0.5, 0.01)):
            for k in ("lcg", "swell+sea", "flat"):
                yield {"n": n, "ax": ax, "kind": k}
            for pos in (0.15, 0.3, 0.62):
                for gm in (1.0, 3.3, 10.0):
                    for h in (0.01, 1.0, 12.0):
                        yield {"n": n, "ax": ax, "kind": "j", "fp": ax[0] + pos * n * ax[1], "gamma": gm, "hm0": h}


SPACES = [
    Space("tpd", "all densities over 4 levels near the maximum to length 5, 3 levels of length 6 x axes; the realistic spectra", tpd_cases, check_tpd, chunk=16),
    Space("small", "all densities over {0,1,2} of length 3..5 (thorough 6) on 2-5 axes x every range on/off grid, absent, beyond the axis; near-zero densities, ranges 1e-13 to 1e-25 below the energy elsewhere",
          small, check, chunk=4),
    Space("large", "JONSWAP (fp, gamma, Hm0), double-peaked, flat and irregular densities x 11 lengths up to 2000 x 4 axes x ~30 ranges", large, check, chunk=2),
]
