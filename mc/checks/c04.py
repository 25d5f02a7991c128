"""Query histories of WaveHeights and Series objects: breadth-first search over the full object state, and all call
sequences up to a depth; every answer compared with a fresh object."""
import copy
import itertools

import numpy as np
from mc import ref
from mc.core import Space, hash64
from mc.ref import close, fail, need

from deltares_wave_toolbox.series import Series, WaveHeights

ASSUMPTIONS = [
    "the state of an object is its __dict__; state kept elsewhere is covered by the sequence spaces, which replay real histories",
    "random synthesis is not a query; plots are part of the histories (as one operation that must not change later answers)",
]


def norm(r):
    """A comparable form of any answer."""
    import matplotlib.figure
    if isinstance(r, matplotlib.figure.Figure):
        import matplotlib.pyplot as plt
        out = [np.asarray(l.get_xydata()) for a in r.axes for l in a.lines]
        plt.close(r)
        return tuple(out)
    if hasattr(r, "sVarDens"):
        return (np.asarray(r.f), np.asarray(r.sVarDens))
    if hasattr(r, "xTime"):
        return (np.asarray(r.time), np.asarray(r.xTime), np.asarray(r.hwave), np.asarray(r.twave))
    if isinstance(r, (tuple, list)):
        return tuple(norm(v) for v in r)
    if r is None:
        return ()
    return np.asarray(r)


def same(a, b, what):
    if isinstance(b, tuple):
        need(isinstance(a, tuple) and len(a) == len(b), f"{what}: different structure")
        for i, (u, v) in enumerate(zip(a, b)):
            same(u, v, f"{what}[{i}]")
    else:
        close(ref.flat(a), ref.flat(b), what, rtol=1e-9)


WOPS = {
    "sort": lambda o: o.sort(),
    "Hrms": lambda o: o.get_Hrms(),
    "Hmax": lambda o: o.get_Hmax(),
    "Hs": lambda o: o.get_Hs(),
    "H2p": lambda o: o.get_H2p_Rayleigh(),
    "exc2": lambda o: o.get_exceedance_waveheight(2.0),
    "exc40": lambda o: o.get_exceedance_waveheight(40.0),
    "hi10": lambda o: o.highest_waves(0.1),
    "hi60": lambda o: o.highest_waves(0.6),
}
PLOTS = {
    "plot": lambda o: o.plot_exceedance_waveheight(),
    "plotR": lambda o: o.plot_exceedance_waveheight_Rayleigh(),
    "plotRn": lambda o: o.plot_exceedance_waveheight_Rayleigh(normalize=True),
    "hist": lambda o: o.plot_hist_waveheight(),
}
SOPS = dict(WOPS)
SOPS.update({
    "down": lambda o: o.get_crossing(),
    "up": lambda o: o.get_crossing("up"),
    "skew": lambda o: o.get_skewness(),
    "asym": lambda o: o.get_asymmetry(),
    "spec": lambda o: o.get_spectrum(dfDesired=0.05),
    "spec2": lambda o: o.get_spectrum(nperseg=8, noverlap=2, use_dfDesired=False),
    "raw": lambda o: o.get_spectrum_raw(0.1),
    "band": lambda o: o.get_bandpassfilter(0.06, 0.31),
    "four": lambda o: o.get_fourier_comp(),
    "mean": lambda o: (o.mean(), o.var(), o.max(), o.min()),
})
SPLOTS = dict(PLOTS)
SPLOTS["splot"] = lambda o: o.plot(plot_crossing=True)


def make(case):
    if "rec" in case:
        x = record(case["rec"], case["n"])
        return Series(ref.axis(len(x), case.get("t0", 0.0), 1.0), x)
    h = [float(v) for v in case["h"]]
    return WaveHeights(np.array(h), np.array([4.0 + ((i * 5) % 11) for i in range(len(h))]))


def record(kind, n):
    if kind == "waves":
        return ref.waves_like(n)
    if kind == "ties":  # equal heights, different periods
        return np.array(([1.0, -1.0] + [1.0, 1.0, -1.0] + [2.0, -1.0, -1.0] + [1.0, -1.0, -1.0, -1.0]) * (n // 12 + 1))[:n]
    if kind == "none":
        return 1.5 + ref.lcg(n, 3)
    if kind == "one":
        x = np.ones(n)
        x[n // 3:] = -1.0
        return x
    raise KeyError(kind)


def ops_of(case):
    return (SOPS, SPLOTS) if "rec" in case else (WOPS, PLOTS)


def usable(ops, case):
    """Queries without an answer on this object (statistics of no waves) are left out: what they do is unspecified."""
    out = {}
    for k, f in ops.items():
        try:
            out[k] = norm(f(make(case)))
        except Exception:
            continue
    return out


def pairs_of(o):
    return sorted(zip(ref.flat(o.hwave).tolist(), ref.flat(o.twave).tolist()))


def invariant(o, case, ref_pairs, rec, what):
    need(pairs_of(o) == ref_pairs, f"{what}: the object no longer holds its waves")
    need(o.nwave == len(ref_pairs), f"{what}: nwave {o.nwave}")
    if rec is not None:
        close(o.time, rec[0], what + ": time axis changed", rtol=0.0)
        close(o.xTime, rec[1], what + ": record changed", rtol=0.0)


def start(case):
    o = make(case)
    rec = (np.array(o.time), np.array(o.xTime)) if "rec" in case else None
    return o, pairs_of(o), rec


def state_key(o):
    return hash64(sorted((k, np.asarray(v).tobytes() if not isinstance(v, str) else v) for k, v in vars(o).items()))


def check_bfs(case, m):
    ops, plots = ops_of(case)
    allops = dict(ops)
    allops.update(plots)
    fresh = usable(allops, case)
    o, pr, rec = start(case)
    invariant(o, case, pr, rec, "fresh object")
    seen = {state_key(o)}
    frontier = [(o, ())]
    fixpoint = True
    while frontier:
        obj, path = frontier.pop(0)
        for k in fresh:
            c = copy.deepcopy(obj)
            r = norm(allops[k](c))
            same(r, fresh[k], f"{k} after {list(path)}")
            invariant(c, case, pr, rec, f"after {list(path) + [k]}")
            m.step()
            key = state_key(c)
            m.state(key)
            if key not in seen:
                seen.add(key)
                if len(path) < case.get("depth", 6):
                    frontier.append((c, path + (k,)))
                else:
                    fixpoint = False
    m.notes["fixpoint" if fixpoint else "depth bound"] += 1


def check_seq(case, m):
    """One real history (no copying): every answer along it equals the fresh answer."""
    ops, plots = ops_of(case)
    allops = dict(ops)
    allops.update(plots)
    key = (repr(sorted((k, v) for k, v in case.items() if k != "seq")))
    if key not in _fresh:
        _fresh[key] = usable(allops, case)
    fresh = _fresh[key]
    for first in fresh:
        o, pr, rec = start(case)
        seq = [first] + list(case["seq"])
        if any(k not in fresh for k in seq):
            continue
        for i, k in enumerate(seq):
            same(norm(allops[k](o)), fresh[k], f"{k} after {seq[:i]}")
            m.step()
        invariant(o, case, pr, rec, f"after {seq}")
        m.state(state_key(o))


SELS = {
    "down": dict(typeCross="down"),
    "up": dict(typeCross="up"),
    "downmin": dict(typeCross="down", minimum_wave=1.0),
    "upmin": dict(typeCross="up", minimum_wave=1.3),
    "cutoff": dict(typeCross="up", fcutoff=0.06),
}
RECORD = ("down", "up", "skew", "asym", "spec", "spec2", "raw", "band", "four", "mean")
_fresh_sel = {}


def fresh_sel(base, sel):
    """Answers of an object whose first act was this selection of waves."""
    key = (repr(sorted(base.items())), sel)
    if key not in _fresh_sel:
        out = {}
        for k, f in {**SOPS, **SPLOTS}.items():
            o = make(base)
            if k not in RECORD:  # answers about the record are those of the object as constructed
                o._determine_individual_waves(**SELS[sel])
            try:
                out[k] = norm(f(o))
            except Exception:
                pass
        o = make(base)
        o._determine_individual_waves(**SELS[sel])
        _fresh_sel[key] = out, pairs_of(o), ref.flat(o.tCross).copy()
    return _fresh_sel[key]


def check_select(case, m):
    """Selecting other waves is the one operation that changes the object; what was asked before it leaves no trace."""
    base = {"rec": case["rec"], "n": case["n"]}
    allops = {**SOPS, **SPLOTS}
    rec = (lambda o: (np.array(o.time), np.array(o.xTime)))(make(base))
    for last in case["last"]:
        o = make(base)
        want, pr, tc = fresh_sel(base, "down")[0], pairs_of(o), None
        for k in list(case["seq"]) + [last]:
            if k.startswith("sel:"):
                o._determine_individual_waves(**SELS[k[4:]])
                want, pr, tc = fresh_sel(base, k[4:])
            elif k in want:
                same(norm(allops[k](o)), want[k], f"{k} in {case['seq']}")
            m.step()
        invariant(o, base, pr, rec, f"after {case['seq']}")
        if tc is not None:
            close(ref.flat(o.tCross), tc, f"crossings held after {case['seq']}", rtol=1e-12)
        m.state(state_key(o))


def select_cases(tier):
    names = list(SOPS) + list(SPLOTS)
    core = [k for k in WOPS] + ["spec", "up", "splot"]
    for r, n in (("waves", 61), ("ties", 72), ("ties", 61)):
        for a in SELS:
            for q in names:
                yield {"rec": r, "n": n, "seq": [q, "sel:" + a], "last": names if q in core else core}
            for q in core if r == "waves" or tier != "quick" else core[:4]:
                for b in SELS:
                    yield {"rec": r, "n": n, "seq": ["sel:" + a, q, "sel:" + b], "last": core}


_fresh = {}
LISTS = [[], [2.0], [1.0, 2.0], [2.0, 2.0], [1.0, 3.0, 2.0], [2.0, 1.0, 2.0, 2.0, 1.0], [1.0] * 7,
         [float(1 + (i * 7) % 5) for i in range(23)], [0.3 + abs(v) for v in ref.lcg(101, 4).tolist()]]
RECS = [("waves", 40), ("waves", 61), ("ties", 72), ("none", 16), ("one", 9), ("waves", 600)]


def bfs_cases(tier):
    for n in range(0, 5 if tier == "quick" else 7):
        for w in itertools.product((1.0, 2.0, 3.0), repeat=n):
            if n < 4 or w[0] == 2.0 or tier != "quick":
                yield {"h": list(w)}
    for h in LISTS:
        yield {"h": h}
    for r, n in RECS:
        yield {"rec": r, "n": n, "t0": 0.0}
        yield {"rec": r, "n": n, "t0": -300.0}


def seq_cases(tier, series):
    depth = 2 if series else 3
    if tier != "quick":
        depth += 1
    names = list(SOPS if series else WOPS)
    bases = [{"rec": r, "n": n} for r, n in (("waves", 61), ("ties", 72))] if series else [{"h": h} for h in LISTS[5:8]]
    for d in range(0, depth):
        for s in itertools.product(names, repeat=d):
            for b in bases:
                yield dict(b, seq=list(s))
    pl = list(SPLOTS if series else PLOTS)
    for b in bases[:2]:
        for p in pl:
            for k in names:
                yield dict(b, seq=[p, k])


def families(n, nw):
    """Queries of one kind whose arguments lie close together, on both sides of a value where the answer changes."""
    eps = (-1e-3, -1e-6, -1e-9, 0.0, 1e-9, 1e-6, 1e-3)
    df = 1.0 / n
    fam = {"band": [("band", (k * df * (1 + e), 17 * df)) for k in (3, 4) for e in eps]
           + [("band", (2.5 * df, k * df * (1 + e))) for k in (9, 11) for e in eps],
           "hi": [("hi", ((k + 1e-12 * k) / nw * (1 + e),)) for k in (1, 2, nw // 2) if k for e in (-1e-3, -1e-6, -1e-8, 0.0, 1e-6)],
           "exc": [("exc", (100.0 * (k + 1e-10) / nw * (1 + e),)) for k in (1, 2, nw // 2) if k for e in (-1e-3, -1e-6, -1e-9, 0.0, 1e-6)],
           "cross": [("cross", (v,)) for v in ("down", "up", "Down", "UP", "dOwn")],
           "spec": [("spec", (0, 0, 0, "hann", d, True)) for d in (0.05, 0.0500001, 0.051, 0.0625, 0.07, 0.2, 0.01, 1 / 17, 1 / 18, 1 / 39, 1 / 40)]
           + [("spec", (p, o, q, w, 0.01, False)) for p in (8, 9, 16) for o in (0, 3) for q in (0, 20) for w in ("hann", "boxcar", "hamming")],
           "raw": [("raw", (d,)) for k in (1.5, 2.5) for d in [k * df * (1 + e) for e in (-1e-3, -1e-6, 1e-6, 1e-3)]] + [("raw", (0.0,))],
           "rplot": [("rplot", kw) for kw in ((), (True,), (False, True, 4.0, 100.0, 1.0), (False, True, 4.0, 100.0, 1.1),
                                             (True, True, 4.0, 100.0, 1.0), (False, True, 4.0, 50.0, 1.0), (False, True, 3.0, 100.0, 1.0))]}
    return fam


CALLS = {
    "band": lambda o, a: o.get_bandpassfilter(*a), "hi": lambda o, a: o.highest_waves(*a), "exc": lambda o, a: o.get_exceedance_waveheight(*a),
    "cross": lambda o, a: o.get_crossing(*a), "raw": lambda o, a: o.get_spectrum_raw(*a),
    "spec": lambda o, a: o.get_spectrum(nperseg=a[0], noverlap=a[1], nfft=a[2], windows_type=a[3], dfDesired=a[4], use_dfDesired=a[5]),
    "rplot": lambda o, a: o.plot_exceedance_waveheight_Rayleigh("", a[0] if a else False, *a[1:2], **dict(zip(("water_depth", "cota_slope", "hm0"), a[2:]))),
}


def check_near(case, m):
    base = {"rec": case["rec"], "n": case["n"]}
    o0 = make(base)
    fam = families(o0.nt, o0.nwave)[case["family"]]
    if "fresh" not in _near or _near["fresh"][0] != repr(case):
        _near["fresh"] = (repr(case), [norm(CALLS[k](make(base), a)) for k, a in fam])
    want = _near["fresh"][1]
    # every ordered pair on one object, then a walk through all of them and back on one object
    for i, (k, a) in enumerate(fam):
        o, pr, rec = start(base)
        for j, (q, b) in enumerate(fam):
            if case["family"] in ("spec", "rplot") and (i + j) % 3 and abs(i - j) > 2:
                continue
            CALLS[k](o, a)
            same(norm(CALLS[q](o, b)), want[j], f"{q}{b} after {k}{a}")
            m.step()
        import matplotlib.pyplot as plt
        plt.close("all")
        invariant(o, base, pr, rec, f"after {case['family']} queries")
    for order in (range(len(fam)), range(len(fam) - 1, -1, -1)):
        for i in order:
            o = make(base)
            CALLS[fam[i][0]](o, fam[i][1])
            o.sort()
            same(norm(CALLS[fam[i][0]](o, fam[i][1])), want[i], f"{fam[i]} again after sorting")
            m.step()
    m.state(case["family"], len({repr(w) for w in want}))


_near = {}
SPACES = [
    Space("close arguments", "queries of one kind with arguments 1e-9 to 1e-3 apart on both sides of a threshold (bands, fractions, "
          "percentages, resolutions, windows, directions, plot options): every ordered pair on one object",
          lambda tier: ({"rec": r, "n": n, "family": k} for r, n in (("waves", 61), ("ties", 72), ("waves", 120))
                        for k in ("band", "hi", "exc", "cross", "spec", "raw", "rplot")), check_near, chunk=1),
    Space("state graph", "every wave list over {1,2,3} of length 0..4, 9 further lists and 12 records: all states reachable by "
          "queries and plots, to a fixpoint (depth bound 6)", bfs_cases, check_bfs, chunk=1),
    Space("wave histories", "all query sequences of length 3 (thorough 4) over 9 queries, and around every plot, on 3 wave lists with ties",
          lambda tier: seq_cases(tier, False), check_seq, chunk=4),
    Space("selections", "re-determining the waves (5 selections) between queries: query, selection, query and selection, query, "
          "selection, query over 9 statistics, spectra, crossings and plots", select_cases, check_select, chunk=2),
    Space("series histories", "all query sequences of length 2 (thorough 3) over 19 queries, and around every plot, on 2 records",
          lambda tier: seq_cases(tier, True), check_seq, chunk=4),
]
