"""No call changes what it is given: every operation x representation x size x data, valid and rejected calls, and
objects that share data."""
import copy
import itertools

import numpy as np
from mc import api, ref
from mc.core import Space
from mc.ref import need

from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = ["'exactly as it was' means shape, dtype, strides, writeability and every byte of arrays and of their bases, list and tuple elements, and the attributes of objects",
               "a read-only array must be accepted wherever the same writeable array is, with the same result"]
REPS = ["array", "readonly", "strided", "reversed", "list", "tuple", "column", "int", "f32", "readonly-strided", "2d"]


def rep(x, kind):
    if not isinstance(x, np.ndarray):
        return x
    if kind == "array":
        return x.copy()
    if kind == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if kind in ("strided", "readonly-strided"):
        b = np.full((2 * x.shape[0] + 1,) + x.shape[1:], 7.5, dtype=x.dtype)
        b[1::2] = x
        y = b[1::2]
        if kind.startswith("readonly"):
            y.flags.writeable = False
        return y
    if kind == "reversed":
        return x[::-1].copy()[::-1]
    if kind == "list":
        return x.tolist()
    if kind == "tuple":
        return tuple(x.tolist())
    if kind == "column":
        return x.reshape(-1, 1).copy() if x.ndim == 1 else x.copy()
    if kind == "int":
        return np.round(x.real * 4).astype(int) if x.dtype != complex else np.round(x * 4)
    if kind == "f32":
        return x.astype(np.complex64 if x.dtype == complex else np.float32)
    if kind == "2d":
        return np.stack([x, x], axis=1) if x.ndim == 1 else x.copy()
    raise KeyError(kind)


def untouched(name, args, what, m):
    before = [api.snapshot(a) for a in args]
    ok, r = api.invoke(name, args)
    if api.OPS[name].kind == "plot":
        api.norm(r)
        import matplotlib.pyplot as plt
        plt.close("all")
    for i, (a, b) in enumerate(zip(args, before)):
        need(api.snapshot(a) == b, lambda: f"{what}: argument {i} was changed{'' if ok else ' by a rejected call'}")
    m.step()
    return ok, r


def check_valid(case, m):
    o = api.OPS[case["op"]]
    n, v = case["n"], case["v"]
    if o.kind == "plot" and (v or n > 100):
        return
    for kind in REPS:
        for which in ([o.data] if kind in ("array", "readonly") or n > 60 else [o.data] + [[i] for i in o.data]):
            args = o.args(n, v)
            args = [rep(a, kind) if i in which else a for i, a in enumerate(args)]
            what = f"{o.name} n={n} v={v} {kind}{which}"
            ok, r = untouched(o.name, args, what, m)
            if kind == "array":
                plain = (ok, api.norm(r) if ok and o.kind != "plot" else None)
            elif kind.startswith("readonly"):
                need(ok == plain[0], f"{what}: accepted={ok}, writeable arrays accepted={plain[0]} ({r!r:.80})")
                if ok and o.kind != "plot":
                    api.same(api.norm(r), plain[1], what)
            m.state(o.name, kind, ok, len(which))


def valid_cases(tier):
    for n in (2, 3, 5, 12, 41, 64, 150) + ((400, 1025) if tier != "quick" else ()):
        for v in (0, 3, 5) if tier == "quick" else range(api.VARIANTS):
            for k in api.OPS:
                yield {"op": k, "n": n, "v": v}


# ---------------------------------------------------------------- rejected (or at least unusual) input
def corrupt(args, i, how):
    a = args[i]
    if not isinstance(a, np.ndarray) or a.ndim != 1 or a.size < 2:
        return None
    a = a.copy()
    k = len(a) // 2
    if how == "short":
        return a[:-1]
    if how == "long":
        return np.append(a, a[-1])
    if how == "empty":
        return a[:0]
    if how == "jump":
        a[k:] += 0.3 * (abs(a[1] - a[0]) + 0.1)
    elif how == "swap":
        a[[0, -1]] = a[[-1, 0]]
    elif how == "nan":
        a[k] = np.nan
    elif how == "inf":
        a[-1] = np.inf
    elif how == "zeros":
        a[:] = 0
    elif how == "negative":
        a = -a
    elif how == "constant":
        a[:] = 1
    elif how == "tiny":
        a = a * 1e-12
    elif how == "huge":
        a = a * 1e12
    elif how == "object":
        return np.array(a.tolist(), dtype=object)
    elif how == "string":
        return np.array(["a"] * len(a))
    elif how == "bool":
        return a.real > 0
    return a


HOWS = ["short", "long", "empty", "jump", "swap", "nan", "inf", "zeros", "negative", "constant", "tiny", "huge", "object", "string", "bool"]
BADSCALARS = [-1.0, 0.0, 1.5, 101.0, -0.1, "sideways", 1e5, 0, float("nan")]


def check_bad(case, m):
    o = api.OPS[case["op"]]
    n = case["n"]
    if "BattjesGroenendijk" in o.name:
        return
    base = o.args(n, 0)
    for i in range(len(base)):
        if i in o.data:
            for how in HOWS:
                c = corrupt(base, i, how)
                if c is None:
                    continue
                for extra in ("", "readonly", "strided"):
                    args = o.args(n, 0)
                    if extra:
                        args = [rep(a, extra) if j in o.data else a for j, a in enumerate(args)]
                    args[i] = rep(c, extra) if extra else c
                    ok, r = untouched(o.name, args, f"{o.name} n={n} argument {i} {how} {extra}", m)
                    m.state(o.name, i, how, ok)
        elif not isinstance(base[i], list):
            for b in BADSCALARS:
                if o.random and i in (2, 3, 4):
                    continue  # an arbitrary time axis could be arbitrarily long
                args = o.args(n, 0)
                args[i] = b
                ok, r = untouched(o.name, args, f"{o.name} n={n} argument {i} = {b!r}", m)
                m.state(o.name, i, repr(b), ok)


def bad_cases(tier):
    for n in (4, 11, 60) if tier == "quick" else (3, 4, 7, 11, 33, 60, 201):
        for k, o in api.OPS.items():
            if o.kind != "plot":
                yield {"op": k, "n": n}


# ---------------------------------------------------------------- objects that share data
def holders(n):
    """(name, object holding the data, object that will be operated on); both built from the same arrays."""
    t, x = api.taxis(n, 0), api.rec(n, 0)
    f, s = api.faxis(n, 0), api.dens(n, 0)
    h, p = api.heights(n, 0), 4.0 + np.arange(n) % 7
    a = Series(t, x)
    yield "same record", a, Series(t, x)
    yield "record of an object", a, Series(a.time, a.xTime)
    yield "waves of an object", a, WaveHeights(a.hwave, a.twave)
    yield "filtered series", a, a.get_bandpassfilter(0.05, 0.3)
    yield "spectrum of a series", a, a.get_spectrum(dfDesired=0.1)
    yield "raw spectrum of a series", a, a.get_spectrum_raw(0.1)
    w = WaveHeights(h, p)
    yield "same waves", w, WaveHeights(h, p)
    yield "waves as record", w, Series(t, w.hwave - float(np.mean(w.hwave)))
    sp = Spectrum(f, s)
    yield "same spectrum", sp, Spectrum(f, s)
    yield "spectrum of an object", sp, Spectrum(sp.f, sp.sVarDens)
    yield "series of a spectrum", sp, sp.create_series(0.0, 60.0, 0.5)
    yield "shared empty directions", Spectrum(f, s), Spectrum(f * 2, s)
    g = [Series(t, c) for c in api.gauges(n, 0).T.copy()]
    i, r = api.cdec.decompose_linear_ZS_series(g, 6.0, np.array([0.0, 1.7, 4.1]), np.array([1.0, 1.0, 1.0]))
    yield "incident of gauges", g[0], i
    yield "reflected of gauges", g[0], r
    yield "incident and reflected", i, r
    yield "reflected and incident", r, i


def methods(o):
    if isinstance(o, Spectrum):
        return {**api.PM, **api.PPLOT, "synth": lambda s: s.create_series(0.0, 30.0, 0.5)}
    if isinstance(o, Series):
        return {**api.WM, **api.WPLOT, **api.SM, **api.SPLOT}
    return {**api.WM, **api.WPLOT}


FUNCS = {  # functions of another object's data
    "params": lambda o: api.cwav.compute_spectrum_params(o.f, o.sVarDens), "tps": lambda o: api.cwav.compute_tps(o.f, o.sVarDens),
    "tpd": lambda o: api.cwav.tpd(o.f, o.sVarDens), "synth": lambda o: api.cspe.spectrum2timeseries(o.f, o.sVarDens, 0, 30.0, 0.5, 3),
    "avg": lambda o: api.cspe.frequency_averaging(o.f, o.sVarDens, 0.05),
    "sort": lambda o: api.ctim.sort_wave_params(o.hwave, o.twave), "band": lambda o: api.cspe.bandpassfilter(o.time, o.xTime, 0.05, 0.2),
    "spec": lambda o: api.cspe.compute_spectrum_time_series(o.time, o.xTime, 0.05), "welch": lambda o: api.cspe.compute_spectrum_welch_wrapper(o.xTime, 0.5),
    "cross": lambda o: api.ctim.determine_zero_crossing(o.time, o.xTime, "up"),
    "indiv": lambda o: api.ctim.determine_params_individual_waves(o.tCross, o.time, o.xTime),
}


def attempt(f, o):
    try:
        return api.norm(f(o))
    except Exception:
        return None


def check_shared(case, m):
    import matplotlib.pyplot as plt
    n = case["n"]
    name, keep, other = list(holders(n))[case["i"]]
    meth = methods(other)
    before = api.snapshot(keep)
    for a in meth:
        o = copy.copy(other)  # same arrays, own attributes
        attempt(meth[a], o)
        need(api.snapshot(keep) == before, f"{name}: {a} on one object changed the other")
        for b in meth:
            o2 = copy.copy(o)
            if "plot" in b or "plot" in a:
                continue
            attempt(meth[b], o2)
            need(api.snapshot(keep) == before, f"{name}: {a}, {b} on one object changed the other")
            m.step()
        m.step()
    for k, f in FUNCS.items():
        attempt(f, keep)
        need(api.snapshot(keep) == before, f"{name}: the function {k} changed the object it took data from")
        m.step()
    # an object's rejected calls
    for f in (lambda o: o.highest_waves(2.0), lambda o: o.get_exceedance_waveheight(-3.0), lambda o: o.get_crossing("no"),
              lambda o: o.get_Tps(5.0, 1.0), lambda o: o.get_spectrum(nperseg=4, noverlap=9, use_dfDesired=False)):
        attempt(f, other)
        need(api.snapshot(keep) == before, f"{name}: a rejected call on one object changed the other")
        m.step()
    plt.close("all")
    m.state(name, n)


def shared_cases(tier):
    for n in (40, 61, 120) if tier == "quick" else (40, 41, 61, 64, 120, 257, 600):
        for i in range(16):
            yield {"n": n, "i": i}


SPACES = [
    Space("valid calls", "every operation of the registry (91 functions, constructors and methods) x 7 sizes x 3 data variants x 11 representations of each array argument and of all",
          valid_cases, check_valid, chunk=1),
    Space("rejected and unusual calls", "every operation x 15 corruptions of every array argument x plain/read-only/strided, 9 values of every scalar argument, 3 sizes",
          bad_cases, check_bad, chunk=1),
    Space("shared data", "16 pairs of objects that share data x all pairs of methods, functions and rejected calls on one of them", shared_cases, check_shared, chunk=1),
]
