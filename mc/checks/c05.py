"""Query histories of Spectrum objects: all sequences of queries with and without limits, against fresh objects."""
import itertools

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, need

from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = ["answers are compared to 1e-9 relative; queries that have no answer on a fresh object are left out"]
NAMES = ["Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02", "s0p", "smm10", "Hm0_HF", "Hm0_LF", "Tmm10_HF", "Tmm10_LF", "smm10_HF"]
LIMS = {"": {}, "ab": {"fmin": 0.072, "fmax": 0.331}, "a": {"fmin": 0.093}, "b": {"fmax": 0.252}, "cd": {"fmin": 0.031, "fmax": 0.457},
        "far": {"fmax": 3.5}, "inf": {"fmin": 0.093, "fmax": float("inf")}}
OPS = {}
for _n in NAMES:
    for _l, _k in LIMS.items():
        OPS[f"{_n}({_l})"] = (_n, _k)
for _n in ("s0p", "smm10", "smm10_HF"):
    OPS[f"{_n}(g)"] = (_n, {"g": 1.62, "fmin": 0.072})
CORE = [k for k in OPS if k.endswith(("()", "(ab)"))]


def spec(kind):
    if kind == "jonswap":
        f = np.arange(1, 101) * 0.01
        return f, ref.jonswap(f, 0.17, 2.3, 3.3, False)
    if kind == "zero":  # axis from zero
        f = np.arange(0, 64) * 0.01
        return f, ref.jonswap(f, 0.2, 1.1, 1.0, False) + 0.01
    if kind == "double":
        f = 0.02 + np.arange(48) * 0.0125
        return f, ref.jonswap(f, 0.08, 1.0, 5.0, False) + ref.jonswap(f, 0.3, 1.4, 2.0, False)
    if kind == "ties":
        f = np.arange(0, 51) * 0.01
        return f, np.array([0.5 + (1.0 if 10 <= i <= 30 and i % 5 == 0 else 0.0) for i in range(51)])
    raise KeyError(kind)


def ask(s, op):
    n, kw = OPS[op]
    v = getattr(s, "get_" + n)(**kw)
    return ref.scalar(v, op)


_fresh = {}


def fresh(kind):
    if kind not in _fresh:
        d = {}
        for op in OPS:
            try:
                d[op] = float(ask(Spectrum(*spec(kind)), op))
            except Exception:
                pass
        _fresh[kind] = d
    return _fresh[kind]


def check(case, m):
    kind = case["kind"]
    want = fresh(kind)
    need(len(want) > len(OPS) * 0.8, f"only {len(want)} of {len(OPS)} queries have an answer")
    f, S = spec(kind)
    lasts = case.get("last") or [k for k in (CORE if case.get("core") else OPS) if k in want]
    for last in lasts:
        s = Spectrum(f, S)
        seq = list(case["seq"]) + [last]
        for i, op in enumerate(seq):
            if op == "plot":
                import matplotlib.pyplot as plt
                plt.close(s.plot())
            elif op == "series":
                s.create_series(0.0, 40.0, 0.5)
            elif op == "str":
                str(s), repr(s)
            elif op in want:
                ref.rel(ask(s, op), want[op], f"{op} after {seq[:i]}")
                n = OPS[op][0]
                ref.rel(getattr(s, n), want[op], f"attribute {n} after {seq[:i + 1]}")
                m.step()
        close(s.f, f, "frequencies after queries", rtol=0.0)
        close(s.sVarDens, S, "densities after queries", rtol=0.0)
        m.state(kind, tuple(sorted((k, round(float(np.asarray(v).ravel()[0]), 12)) for k, v in vars(s).items() if k in NAMES)))


def pairs(tier):
    for kind in ("jonswap", "zero", "double", "ties"):
        yield {"kind": kind, "seq": []}
        for op in list(OPS) + ["plot", "series", "str"]:
            yield {"kind": kind, "seq": [op]}


def triples(tier):
    for kind in (("double",) if tier == "quick" else ("jonswap", "zero", "double", "ties")):
        for a, b in itertools.product(CORE if tier == "quick" else list(OPS), repeat=2):
            yield {"kind": kind, "seq": [a, b], "core": True}


def quads(tier):
    base = [k for k in CORE if k.startswith(("Hm0(", "Tps(", "Tmm10(", "s0p(", "smm10(", "smm10_HF(", "Hm0_HF(", "Tmm10_HF("))]
    if tier == "quick":
        base = [k for k in base if not k.startswith(("Hm0(", "Tps("))]
    for s in itertools.product(base, repeat=3):
        yield {"kind": "zero", "seq": list(s), "last": ["s0p()", "smm10()", "smm10_HF()", "Hm0_LF()", "Hm0_HF()", "Tmm10_LF()", "Tmm10_HF()"]}


def close_limits(kind):
    """Limit pairs 1e-9 to 1e-3 apart on both sides of frequencies of the axis and of the midpoints between them."""
    f, S = spec(kind)
    d = f[1] - f[0]
    out = []
    for k in (6, int(np.argmax(S)), int(np.argmax(S)) + 1):
        for half in (0.0, 0.5):
            for e in (-1e-3, -1e-6, -1e-9, 1e-9, 1e-6, 1e-3):
                v = f[k] + half * d + e * d
                out.append((v, None))
                out.append((None, v if k > 6 else v + 20 * d))
    return out


def check_close(case, m):
    kind, n = case["kind"], case["name"]
    f, S = spec(kind)
    lims = close_limits(kind)
    kws = [{k: v for k, v in (("fmin", a), ("fmax", b)) if v is not None} for a, b in lims]
    want = []
    for kw in list(kws):
        try:  # an empty range (a limit beyond the other, which is the default cutoff) has no answer
            want.append(float(ref.scalar(getattr(Spectrum(f, S), "get_" + n)(**kw), n)))
        except Exception:
            kws.remove(kw)
    need(len(kws) >= len(lims) // 2 - 2, f"{n}: only {len(kws)} of {len(lims)} limits have an answer")
    for i, a in enumerate(kws):
        s = Spectrum(f, S)
        for j, b in enumerate(kws):
            if abs(i - j) > 26 and (i + j) % 4:
                continue
            getattr(s, "get_" + n)(**a)
            ref.rel(ref.scalar(getattr(s, "get_" + n)(**b), n), want[j], f"{n}{b} after {n}{a}")
            m.step()
    m.state(kind, n, len(set(want)))


SPACES = [
    Space("close limits", "every ordered pair of 72 limits 1e-9 to 1e-3 steps apart around frequencies, midpoints and the peak, per query, on 3 spectra",
          lambda tier: ({"kind": k, "name": n} for k in ("jonswap", "zero", "double") for n in NAMES), check_close, chunk=1),
    Space("pairs", "4 spectra x (94 queries, limits inside and beyond the axis, + plot + synthesis + str) x 94 queries", pairs, check, chunk=2),
    Space("triples", "all sequences of 3 queries over 26 queries (default and limited) on one spectrum (thorough: 94x94x26 on four)",
          triples, check, chunk=4),
    Space("quadruples", "all sequences of 4 queries: 12 caching queries cubed x 7 dependent queries (thorough 16 cubed)", quads, check, chunk=8),
]
