"""The same numbers in another container, type or memory layout: all representations of every argument, all combinations."""
import itertools

import numpy as np
from mc import api, ref
from mc.core import Space
from mc.ref import fail

ASSUMPTIONS = [
    "representations an argument does not accept on the pinned tree are listed in EXCLUDED and left out: columns by the crossing and sorting functions, "
    "disper, coherence and the Welch wrapper; lists by applybandfilter (axis), the decomposition (signals) and Spectrum (directions)",
    "half and single precision are not 'the same numbers' and left out; integers up to 2^40",
]
REPS = ["list", "tuple", "column", "column-list", "strided", "reversed", "readonly", "f-order", "byteswapped"]
COL = {"column", "column-list"}
EXCLUDED = {}
for _k in ("sort_wave_params", "determine_zero_crossing[down]", "determine_zero_crossing[up]", "highest_waves_params", "exceedance_wave_height",
           "determine_params_individual_waves", "compute_spectrum_welch_wrapper", "compute_spectrum_welch_wrapper[default]",
           "disper", "disper[deep]", "disper[shallow]", "is1darray"):
    for _i in (0, 1, 2):
        EXCLUDED[_k, _i] = set(COL)
for _k in ("coherence", "coherence[default]"):
    EXCLUDED[_k, 1] = EXCLUDED[_k, 2] = set(COL)
EXCLUDED["applybandfilter", 0] = {"list", "tuple"} | COL
EXCLUDED["applybandfilter", 1] = set(COL)
EXCLUDED["decompose_linear_ZS", 1] = {"list", "tuple", "column-list", "column"}
for _k, _is in (("decompose_linear_ZS", (3, 4)), ("decompose_linear_ZS_series", (2, 3))):
    for _i in _is:
        EXCLUDED[_k, _i] = set(COL)
EXCLUDED["is1darray", 0] = {"list", "tuple"} | COL
EXCLUDED["Spectrum.2D", 2] = {"list", "tuple"} | COL
EXCLUDED["monotonic_increasing_constant_step", 0] = set(COL)
EXCLUDED["approx_array_index", 0] = set(COL)


def rep(x, kind):
    if not isinstance(x, np.ndarray):
        return x
    if kind == "array":
        return x
    if kind == "list":
        return x.tolist()
    if kind == "tuple":
        return tuple(x.tolist())
    if kind == "column":
        return x.reshape(-1, 1).copy()
    if kind == "column-list":
        return x.reshape(-1, 1).tolist()
    if kind == "strided":
        b = np.full((3 * x.shape[0] + 1,) + x.shape[1:], 3.25, dtype=x.dtype)
        b[1::3] = x
        return b[1::3]
    if kind == "reversed":
        return x[::-1].copy()[::-1]
    if kind == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if kind == "f-order":  # a column of a row-major matrix, or a column-major matrix
        if x.ndim == 1:
            m = np.full((x.size, 3), 1.5, dtype=x.dtype)
            m[:, 1] = x
            return m[:, 1]
        return np.asfortranarray(x)
    if kind == "byteswapped":
        return x.astype(x.dtype.newbyteorder())
    raise KeyError(kind)


def reps_of(k, i):
    return [r for r in REPS if r not in EXCLUDED.get((k, i), ())]


def compare(k, args, want, what, m):
    ok, r = api.invoke(k, args)
    if ok != want[0]:
        fail(f"{what}: {'accepted' if ok else 'rejected with ' + str(r)}, the plain array is {'accepted' if want[0] else 'rejected'}")
    if ok:
        api.same(api.norm(r), want[1], what)
    m.step()


def base(k, args):
    ok, r = api.invoke(k, args)
    return ok, (api.norm(r) if ok else r)


def usable(k):
    return api.OPS[k].kind != "plot" and api.OPS[k].data


def check_single(case, m):
    k, n, v = case["op"], case["n"], case["v"]
    o = api.OPS[k]
    args = o.args(n, v)
    want = base(k, args)
    for i in o.data:
        if isinstance(args[i], list):
            continue
        for r in reps_of(k, i):
            a = list(args)
            a[i] = rep(args[i], r)
            compare(k, a, want, f"{k} n={n} v={v}: argument {i} as {r}", m)
            m.state(k, i, r)
        if "list" in reps_of(k, i) and args[i].dtype.kind == "f" and args[i].ndim == 1 and args[i].size:
            # lists and tuples that mix integers and floats, the first element an integer or not
            for change in ((), (0,), tuple(range(0, args[i].size, 3))):
                y = args[i].copy()
                for j in change:
                    y[j] = np.round(y[j])
                mixed = [int(e) if np.isfinite(e) and e == int(e) and abs(e) < 1e9 else np.float64(e) if j % 2 else float(e) for j, e in enumerate(y.tolist())]
                a = list(args)
                a[i] = y
                w2 = base(k, a) if change else want
                for form in (mixed, tuple(mixed)):
                    a = list(args)
                    a[i] = form
                    compare(k, a, w2, f"{k} n={n} v={v}: argument {i} as {type(form).__name__} of integers and floats, {len(change)} rounded", m)
                m.state(k, i, "mixed")
    # the same numbers as other scalar types
    for i, s in enumerate(args):
        if isinstance(s, float):
            for form in (np.float64(s), np.longdouble(s) if False else np.float64(s), int(s) if np.isfinite(s) and s == int(s) else s):
                a = list(args)
                a[i] = form
                compare(k, a, want, f"{k} n={n} v={v}: argument {i} as {type(form).__name__}", m)
        elif isinstance(s, (bool, int)) and not isinstance(s, str):
            for form in (np.int64(s), np.bool_(s)) if isinstance(s, bool) else (np.int64(s),):
                if isinstance(s, bool) and isinstance(form, np.bool_):
                    continue
                a = list(args)
                a[i] = form
                compare(k, a, want, f"{k} n={n} v={v}: argument {i} as {type(form).__name__}", m)


def single_cases(tier):
    for n in (2, 3, 5, 12, 30, 61, 128) + (() if tier == "quick" else (7, 257, 600, 1025)):
        for v in (0, 3, 4) if tier == "quick" else range(api.VARIANTS):
            for k in api.OPS:
                if usable(k) and not (n > 64 and api.OPS[k].kind == "object" and tier == "quick" and v):
                    yield {"op": k, "n": n, "v": v}


def check_combo(case, m):
    k, n = case["op"], case["n"]
    o = api.OPS[k]
    args = o.args(n, 0)
    want = base(k, args)
    idx = [i for i in o.data if not isinstance(args[i], list)]
    for combo in itertools.product(*[["array"] + reps_of(k, i) for i in idx]):
        a = list(args)
        for i, r in zip(idx, combo):
            a[i] = rep(args[i], r)
        compare(k, a, want, f"{k} n={n}: arguments as {combo}", m)
        m.state(k, combo)


def combo_cases(tier):
    for n in (6, 13) if tier == "quick" else (3, 6, 13, 64):
        for k in api.OPS:
            if usable(k) and len(api.OPS[k].data) > 1 and (api.OPS[k].kind == "function" or k in
                                                         ("WaveHeights.Hs", "WaveHeights.sort", "Series.down", "Series.band", "Series.spec", "Series.raw", "Series.WHs",
                                                          "Series.waves_up", "Spectrum.Hm0", "Spectrum.Tps", "Spectrum.smm10_HF", "Spectrum.create_series", "Spectrum.2D")):
                yield {"op": k, "n": n}


# ---------------------------------------------------------------- integers
def ints(n, seed, lo=-6, hi=6):
    return np.array([int(lo + (hi - lo + 1) * (0.5 + 0.5 * u)) for u in ref.lcg(n, seed)])


def tint(n):
    return np.arange(n) * 2 + 5


def fint(n, zero=False):
    return np.arange(n) + (0 if zero else 1)


def sint(n, seed=3):
    return ints(n, seed, 1, 9)


def xint(n, seed=3):
    x = ints(n, seed)
    x[0] = 5
    if n > 2:
        x[1] = -4
    return x


def hint(n):
    return np.sort(ints(n, 3, 1, 7))[::-1].copy()


INT = {
    "sort_wave_params": lambda n: (ints(n, 3, 1, 5), ints(n, 4, 3, 9)),
    "determine_zero_crossing[down]": lambda n: (tint(n), xint(n), "down"),
    "determine_zero_crossing[up]": lambda n: (tint(n), xint(n), "up"),
    "highest_waves_params": lambda n: (hint(n), ints(n, 4, 3, 9), 0.5),
    "exceedance_wave_height": lambda n: (hint(n), 40),
    "determine_params_individual_waves": lambda n: (tint(n)[: n // 2 * 2: 2], tint(n), xint(n)),
    "frequency_averaging": lambda n: (fint(n), sint(n), 2),
    "frequency_averaging[default]": lambda n: (fint(n), sint(n)),
    "unfold_spectrum": lambda n: (fint(n, True), xint(n), True),
    "coherence": lambda n: (fint(n), xint(n), xint(n, 9), 3),
    "freq2time": lambda n: (xint(n),),
    "time2freq": lambda n: (tint(n), xint(n)),
    "time2freq_nyquist": lambda n: (tint(n), xint(n)),
    "compute_spectrum_time_series": lambda n: (tint(n), xint(n), 2 / n),
    "compute_spectrum_time_series[default]": lambda n: (tint(n), xint(n)),
    "compute_spectrum_freq_series": lambda n: (fint(n, True), xint(n), 2 * n - 1, 2),
    "spectrum2timeseries[seed]": lambda n: (fint(n), sint(n), 0, 40, 0.125, 3),
    "spectrum2timeseries_object": lambda n: (fint(n), sint(n), 0, 40, 0.125, 3),
    "compute_spectrum_welch_wrapper": lambda n: (xint(n), 2, max(n // 2, 2), 0, 0, "hann"),
    "compute_spectrum_welch_wrapper[default]": lambda n: (xint(n), 2),
    "applybandfilter": lambda n: (fint(n, True), xint(n), 2, 5),
    "bandpassfilter": lambda n: (tint(n), xint(n), 0.05, 0.2),
    "disper": lambda n: (fint(n, True), 4),
    "disper[deep]": lambda n: (fint(n, True), np.inf),
    "disper[shallow]": lambda n: (fint(n, True), -4),
    "compute_spectrum_params": lambda n: (fint(n), sint(n)),
    "compute_spectrum_params[limits]": lambda n: (fint(n), sint(n), 2, n - 1),
    **{f"compute_moment[{m}]": (lambda n, m=m: (fint(n, True), sint(n), m)) for m in (-1, 0, 2)},
    **{f"compute_moment[{m},limits]": (lambda n, m=m: (fint(n, True), sint(n), m, 1, n + 3)) for m in (-1, 0, 2)},
    "create_spectrum_jonswap": lambda n: (fint(n, True), 2, 2, 3),
    "create_spectrum_object_jonswap": lambda n: (fint(n), 2, 2, 3, 1),
    "create_spectrum_piersonmoskowitz": lambda n: (fint(n, True), 2, 2),
    "create_spectrum_object_piersonmoskowitz": lambda n: (fint(n), 2, 2),
    "tpd": lambda n: (fint(n), sint(n)),
    "compute_tps": lambda n: (fint(n), sint(n)),
    "decompose_linear_ZS": lambda n: (tint(n), np.stack([xint(n), xint(n, 5), xint(n, 7)], axis=1), 6, np.array([0, 3, 7]), np.array([1, 1, 1])),
    "monotonic_increasing_constant_step": lambda n: (tint(n),),
    "approx_array_index": lambda n: (fint(n), 3),
}
for _k in api.OPS:
    if usable(_k) and api.OPS[_k].kind == "object":
        if _k.startswith("WaveHeights."):
            INT[_k] = lambda n: (ints(n, 3, 1, 5), ints(n, 4, 3, 9))
        elif _k.startswith("Series."):
            INT[_k] = lambda n: (tint(n), xint(n))
        elif _k.startswith("Spectrum.") and _k != "Spectrum.2D":
            INT[_k] = lambda n: (fint(n), sint(n))
UNSIGNED = {"sort_wave_params", "highest_waves_params", "exceedance_wave_height", "compute_moment[0]", "WaveHeights.Hs"}


def check_int(case, m):
    k, n = case["op"], case["n"]
    o = api.OPS[k]
    args = list(INT[k](max(n, o.nmin)))
    idx = [i for i in o.data if isinstance(args[i], np.ndarray)]

    def cast(which, how):
        a = list(args)
        for i in idx:
            if i not in which:
                a[i] = args[i].astype(float)
            elif how == "list":
                a[i] = args[i].tolist() if "list" not in EXCLUDED.get((k, i), ()) else args[i]
            elif how == "column":
                a[i] = args[i].reshape(-1, 1) if "column" not in EXCLUDED.get((k, i), ()) else args[i]
            else:
                a[i] = args[i].astype(how)
        return a

    want = base(k, cast([], "int64"))
    for r in range(1, len(idx) + 1):
        for which in itertools.combinations(idx, r):
            for how in ("int64", "int32", "list", "column"):
                compare(k, cast(which, how), want, f"{k} n={n}: arguments {which} as {how} integers", m)
            m.state(k, which)
    sc = [float(a) if isinstance(a, int) and not isinstance(a, bool) and i not in o.data and k not in ("compute_spectrum_freq_series",) else a for i, a in enumerate(cast([], "int64"))]
    if not k.startswith(("spectrum2", "compute_spectrum_welch", "decompose")):
        compare(k, sc, want, f"{k} n={n}: scalars as floats", m)


def int_cases(tier):
    for n in (4, 5, 8, 12, 25, 40) + (() if tier == "quick" else (6, 7, 60, 200)):
        for k in INT:
            yield {"op": k, "n": n}


def check_mixed(case, m):
    """Some arguments whole numbers (as integers or as floats), the others with fractions."""
    k, n, v = case["op"], case["n"], case["v"]
    o = api.OPS[k]
    n = max(n, o.nmin)
    whole, frac = list(INT[k](n)), o.args(n, v)
    idx = [i for i in o.data if isinstance(whole[i], np.ndarray) and isinstance(frac[i], np.ndarray)]
    for r in range(1, len(idx)):
        for which in itertools.combinations(idx, r):
            a = list(frac)
            for i in which:
                a[i] = whole[i].astype(float)
            want = base(k, a)
            m.notes["accepted mixed calls" if want[0] else "rejected mixed calls"] += 1
            for how in ("int64", "int32", "list"):
                b = list(a)
                for i in which:
                    if how == "list" and "list" in EXCLUDED.get((k, i), ()):
                        continue
                    b[i] = whole[i].tolist() if how == "list" else whole[i].astype(how)
                compare(k, b, want, f"{k} n={n} v={v}: arguments {which} as {how} integers, the others fractional", m)
            m.state(k, which, v)


def mixed_cases(tier):
    for n in (4, 9, 24, 40) + (() if tier == "quick" else (6, 7, 60, 200)):
        for v in (0, 4) if tier == "quick" else range(api.VARIANTS):
            for k in INT:
                yield {"op": k, "n": n, "v": v}


NARROW = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64")


def widest(x, dtype, part):
    """The same array scaled (and for unsigned types shifted) to use `part` of the range of the type, as exact integers."""
    info = np.iinfo(dtype)
    v = x.astype(np.int64)
    if info.min == 0 and v.min() < 0:
        v = v - v.min()
    top = min(int(info.max), 2**40)
    f = int(top * part) // max(1, int(np.max(np.abs(v))))
    return None if f < 1 else v * f


def check_narrow(case, m):
    """Integers of every width and sign, up to the largest the type can hold: as the same numbers in floating point."""
    k, n, dtype = case["op"], case["n"], case["dtype"]
    o = api.OPS[k]
    args = list(INT[k](max(n, o.nmin)))
    idx = [i for i in o.data if isinstance(args[i], np.ndarray)]
    for part in (1.0, 0.4):
        for which in [[i] for i in idx] + ([idx] if len(idx) > 1 else []):
            a = list(args)
            wide = {}
            for i in which:
                w = widest(args[i], dtype, part)
                if k.startswith("decompose") and i != 1:
                    w = args[i] if np.max(args[i]) <= np.iinfo(dtype).max else None
                if w is not None:
                    wide[i] = w
            if not wide:
                continue
            for i in idx:
                a[i] = wide.get(i, args[i]).astype(float)
            want = base(k, a)
            for i in wide:
                a[i] = wide[i].astype(dtype)
            compare(k, a, want, f"{k} n={n}: arguments {sorted(wide)} as {dtype} up to {max(int(np.max(np.abs(v))) for v in wide.values())}", m)
            m.notes["accepted narrow calls" if want[0] else "rejected narrow calls"] += 1
            m.state(k, dtype, tuple(sorted(wide)))


def narrow_cases(tier):
    for n in (4, 9, 20) + (() if tier == "quick" else (5, 12, 33, 60)):
        for k in INT:
            for dtype in NARROW:
                yield {"op": k, "n": n, "dtype": dtype}


def check_zero(case, m):
    """Zeros with a sign: the same number."""
    k, n, v = case["op"], case["n"], case["v"]
    o = api.OPS[k]
    args = o.args(max(n, o.nmin), v)
    idx = [i for i in o.data if isinstance(args[i], np.ndarray) and args[i].dtype.kind in "fc" and args[i].size]
    for i in idx:
        size = args[i].size
        where = {(0,), (size - 1,), (size // 2,), tuple(range(0, size, 3)), tuple(range(size // 2, size))} | ({tuple(range(size))} if size < 40 else set())
        for w in sorted(where):
            a = list(args)
            a[i] = args[i].copy()
            a[i].reshape(-1)[list(w)] = 0.0
            if "tps" in k.lower() and i == 0 and 0 in w:
                continue  # the period of a peak at frequency zero is infinite, of either sign
            want = base(k, a)
            b = list(a)
            b[i] = a[i].copy()
            b[i].reshape(-1)[list(w)] = -0.0
            compare(k, b, want, f"{k} n={n} v={v}: argument {i} with -0.0 for 0.0 at {w[:5]}", m)
            m.notes["accepted calls with zeros" if want[0] else "rejected calls with zeros"] += 1
            m.state(k, i, len(w))


def zero_cases(tier):
    for n in (3, 6, 13, 40) + (() if tier == "quick" else (2, 4, 5, 8, 64, 129)):
        for v in (0, 3) if tier == "quick" else range(api.VARIANTS):
            for k in api.OPS:
                if usable(k):
                    yield {"op": k, "n": n, "v": v}


SPACES = [
    Space("signed zeros", "every function, constructor and method x every array argument with zeros at 6 kinds of places, written 0.0 and -0.0, 4 sizes x 2 data variants",
          zero_cases, check_zero, chunk=8),
    Space("widths", "every function, constructor and method x 8 integer types (8 to 64 bit, signed and unsigned) x each array argument and all together filling 100 % and 40 % of the range "
          "of the type, against the same numbers in floating point, 3 sizes", narrow_cases, check_narrow, chunk=8),
    Space("mixed", "every function, constructor and method with several arrays: every proper subset of them as integers (64, 32 bit, lists), the others with fractions, 4 sizes x 2 data variants",
          mixed_cases, check_mixed, chunk=4),
    Space("representations", "every function, constructor and method x every array argument x 9 representations (lists, tuples, columns, strided, reversed, read-only, "
          "Fortran order, other byte order) and scalar types, 7 sizes x 3 data variants", single_cases, check_single, chunk=2),
    Space("combinations", "every function and 13 methods: all combinations of representations of all array arguments (up to 10^3), 2 sizes", combo_cases, check_combo, chunk=1),
    Space("integers", "every function, constructor and method: every subset of array arguments as 64 and 32 bit integers, integer lists and columns, against floats; integer scalars, 6 sizes",
          int_cases, check_int, chunk=2),
]
