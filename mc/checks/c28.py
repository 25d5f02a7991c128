"""No hidden state: call histories replayed in forked processes against the result of each call in a fresh process."""
import itertools
import os
import pickle
import random
import signal
import traceback
import warnings

import matplotlib.pyplot as plt
import numpy as np
from mc import api, ref
from mc.api import OPS, SM, PM, WM
from mc.core import Space, Violation
from mc.ref import need

from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = ["one process and one thread; every history runs in its own forked child of a process that never called the library",
               "results are compared to 1e-9", "objects share the arrays they were constructed from (no copy is promised), so every call gets new arguments"]
N = 24
FAST = [k for k in OPS if OPS[k].kind != "plot" and k != "BattjesGroenendijk"]


# ---------------------------------------------------------------- forked children
def forked(fn, *args):
    """fn(*args) in a child process; its result, or its Violation/exception, comes back."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Violation as e:
                out = ("violation", str(e))
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                out = ("exception", f"{type(e).__name__}: {e} [{' < '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(tb[-4:]))}]")
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise Violation("the process of this history died")
    kind, val = pickle.loads(data)
    if kind == "violation":
        raise Violation(val)
    if kind == "exception":
        raise RuntimeError(val)
    return val


def outcome(name, args):
    ok, r = api.invoke(name, args)
    return ok, api.norm(r), r


_fresh = {}


def fresh(name, v=0, n=N):
    """The result in a process that did nothing before."""
    key = (name, v, n)
    if key not in _fresh:
        _fresh[key] = forked(lambda: outcome(name, OPS[name].args(n, v))[:2])
    return _fresh[key]


def match(got, want, what):
    need(got[0] == want[0], lambda: f"{what}: {'rejected: ' + str(got[1]) if not got[0] else 'accepted'}, in a fresh process {'accepted' if want[0] else 'rejected: ' + str(want[1])}")
    api.same(got[1], want[1], what)


# ---------------------------------------------------------------- what may not move
def world():
    return {"numpy error state": np.geterr(), "numpy print options": str(np.get_printoptions()), "working directory": os.getcwd(),
            "environment": dict(os.environ), "python random state": hash(random.getstate()),
            "warning filters": [str(f) for f in warnings.filters],
            "matplotlib settings": {k: str(plt.rcParams[k]) for k in ("figure.figsize", "axes.grid", "font.size", "lines.linewidth", "backend", "interactive")}}


def same_world(w, what):
    now = world()
    for k, v in w.items():
        need(now[k] == v, f"{what}: {k} changed")


def rng():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:]


def objects_in(r):
    if isinstance(r, (Series, Spectrum, WaveHeights)):
        return [r]
    if isinstance(r, (tuple, list)):
        return [o for v in r for o in objects_in(v)]
    return []


def all_arrays(r):
    return api.arrays_in(r) + [v for o in objects_in(r) for v in vars(o).values() if isinstance(v, np.ndarray)]


def frozen(r):
    return [(a, a.tobytes(), a.shape) for a in all_arrays(r)] + [(o, [(k, x) for k, x in vars(o).items() if not isinstance(x, np.ndarray)], None) for o in objects_in(r)]


def still(fr, what):
    for x, c, shape in fr:
        if isinstance(x, np.ndarray):
            need(x.tobytes() == c and x.shape == shape, f"{what}: an array returned earlier changed")
        else:
            need([(k, y) for k, y in vars(x).items() if not isinstance(y, np.ndarray)] == c, f"{what}: an object returned earlier changed")


def spoil(r):
    """Overwrite everything that was returned."""
    for a in all_arrays(r):
        if a.size and a.flags.writeable and a.dtype != object:
            a[...] = 77


def step(name, v, n, what, w, free_rng=None):
    args = OPS[name].args(n, v)
    np.random.seed(12345)
    before = rng()
    ok, nr, r = outcome(name, args)
    if not OPS[name].random:
        need(rng() == before, f"{what}: {name} used or reset the global random generator")
    match((ok, nr), _fresh[(name, v, n)], f"{what}: {name} variant {v}")
    return r


# ---------------------------------------------------------------- histories over all operations
def run_chain(a, others, n, v):
    w = world()
    kept = []
    steps = 0
    for b in others:
        what = f"after {a}"
        ra = step(a, v, n, what, w)
        fa = frozen(ra)
        rb = step(b, 0, n, what, w)
        fb = frozen(rb)
        still(fa, f"result of {a} after {b}")
        kept.append((a, fa))
        kept.append((b, fb))
        ra2 = step(a, v, n, f"after {a}, {b}", w)
        still(fa, f"result of {a} after {b}, {a}")
        still(fb, f"result of {b} after {a}")
        if len(kept) > 8:
            kept = kept[:2] + kept[-6:]
        for nm, fr in kept:
            still(fr, f"result of {nm} after {a}, {b}")
        spoil(ra2)
        steps += 3
    same_world(w, f"after {a} and others")
    return steps


def check_chain(case, m):
    for b in OPS:
        fresh(b)
    n, v = case.get("n", N), case.get("v", 0)
    fresh(case["a"], v, n)
    others = [b for b in OPS if OPS[b].kind != "plot"] if OPS[case["a"]].kind == "plot" and case.get("quick") else list(OPS)
    for b in others:
        fresh(b, 0, n)
    m.step(forked(run_chain, case["a"], others, n, v))
    m.state("chain", case["a"], v, n)


def chains(tier):
    for a in OPS:
        yield {"a": a, "quick": tier == "quick"}
    if tier != "quick":
        for a in OPS:
            for v in (1, 3):
                yield {"a": a, "v": v}
        for a in FAST:
            yield {"a": a, "n": 61}


# ---------------------------------------------------------------- every order: each pair in a process of its own
def run_pair(a, b, va, vb, na, nb):
    w = world()
    ra = step(a, va, na, "first", w)
    fa = frozen(ra)
    rb = step(b, vb, nb, f"after {a} variant {va} n={na}", w)
    still(fa, f"result of {a} after {b}")
    fb = frozen(rb)
    step(a, va, na, f"after {a} variant {va}, {b} variant {vb}", w)
    still(fb, f"result of {b} after {a}")
    still(fa, f"result of {a} after {b}, {a}")
    spoil(ra)
    spoil(rb)
    r3 = step(b, vb, nb, f"after the results of {a} variant {va}, {b} variant {vb} were overwritten", w)
    spoil(r3)
    step(a, va, na, f"after the results of {b} variant {vb} were overwritten", w)
    same_world(w, f"after {a}, {b}")
    return 5


def sizes(name, tier):
    return [(v, N) for v in range(api.VARIANTS)] + [(0, N + 1), (0, 50), (0, 8)] + ([(1, 50), (0, 51), (3, 8), (0, 100)] if tier != "quick" else [])


def check_variants(case, m):
    name = case["op"]
    va, na = case["first"]
    todo = sizes(name, case["tier"])
    if OPS[name].kind == "plot":
        todo = todo[:4]
    fresh(name, va, na)
    for vb, nb in todo:
        fresh(name, vb, nb)
        m.step(forked(run_pair, name, name, va, vb, na, nb))
    m.state("variants", name, va, na)


def variants(tier):
    for name in OPS:
        for first in sizes(name, tier)[:4 if OPS[name].kind == "plot" else None]:
            yield {"op": name, "first": list(first), "tier": tier}


# ---------------------------------------------------------------- functions that a call may share something with
def check_two(case, m):
    a, b = case["pair"]
    for va, vb in itertools.product(case["variants"], repeat=2):
        fresh(a, va), fresh(b, vb)
        m.step(forked(run_pair, a, b, va, vb, N, N))
    m.state("pair", a, b)


CLUSTERS = [
    ["compute_spectrum_time_series", "compute_spectrum_time_series[default]", "compute_spectrum_freq_series", "time2freq", "time2freq_nyquist", "frequency_averaging",
     "unfold_spectrum", "freq2time", "applybandfilter", "bandpassfilter", "coherence", "Series.raw", "Series.band"],
    ["compute_moment[0]", "compute_moment[-1]", "compute_moment[2,limits]", "compute_spectrum_params", "compute_spectrum_params[limits]", "Spectrum.Hm0", "Spectrum.Tmm10",
     "Spectrum.Hm0lim", "tpd", "compute_tps", "Spectrum.Tps", "create_spectrum_jonswap", "create_spectrum_piersonmoskowitz", "create_spectrum_object_jonswap"],
    ["determine_zero_crossing[down]", "determine_zero_crossing[up]", "determine_params_individual_waves", "sort_wave_params", "highest_waves_params", "exceedance_wave_height",
     "Series.down", "Series.waves_up", "Series.WHs", "WaveHeights.Hs", "WaveHeights.exc"],
    ["disper", "disper[deep]", "disper[shallow]", "decompose_linear_ZS", "decompose_linear_ZS_series"],
    ["spectrum2timeseries[seed]", "spectrum2timeseries[unseeded]", "spectrum2timeseries_object", "Spectrum.create_series", "compute_spectrum_welch_wrapper",
     "compute_spectrum_welch_wrapper[default]", "Series.spec", "Series.spec2"],
]


def clusters(tier):
    for c in CLUSTERS if tier == "quick" else CLUSTERS + [FAST]:
        for a, b in itertools.product(c, repeat=2):
            if a != b:
                yield {"pair": [a, b], "variants": [0, 1, 3] if len(c) < 30 else [0, 2]}


# ---------------------------------------------------------------- two calls that differ in one number only
OPTIONS = {  # values for the optional arguments that the operation does not give
    "disper": [(1.62,), (9.8,)], "disper[deep]": [(1.62,)], "disper[shallow]": [(1.62,)],
    "decompose_linear_ZS": [(0.02,), (0.4,)], "decompose_linear_ZS_series": [(0.02,), (0.4,)],
    "create_spectrum_object_jonswap": [(1.0,)], "create_spectrum_piersonmoskowitz": [(2.0,), (2.0, 1.0)], "create_spectrum_object_piersonmoskowitz": [(2.0,), (2.0, 1.0)],
    "BattjesGroenendijk": [(1e-9,), (0.05,)], "compute_spectrum_params": [(0.05,), (0.05, 0.3), (-1.0, 0.3)], "compute_moment[0]": [(0.05,), (0.05, 0.3), (-1.0, 0.3), (-1.0, np.inf)],
    "compute_moment[-1]": [(0.05,), (0.05, 0.3), (-1.0, 0.3), (-1.0, np.inf)], "frequency_averaging[default]": [(2 * 0.4 / N,)], "coherence[default]": [(2 * 0.4 / N,)],
    "compute_spectrum_time_series[default]": [(4 / N,)], "spectrum2timeseries[unseeded]": [(5,)],
    "compute_spectrum_welch_wrapper[default]": [(8,), (8, 3), (8, 3, 16), (8, 3, 16, "boxcar")],
}


def changed(name, i, how):
    """The base arguments with one number changed."""
    a = OPS[name].args(N, 0)
    if how == "base":
        return a
    if how == "option":
        return a + list(OPTIONS[name][i])
    x = a[i]
    if isinstance(x, np.ndarray):
        j, kind = how
        flat = x.reshape(-1)
        if kind == "mean":
            flat[j] = 0.5 * (flat[j] + flat[j - 1 if j in (-1, flat.size - 1) else j + 1])
        else:
            flat[j] = flat[j] + 0.37 * np.max(np.abs(flat))
        a[i] = x
    elif isinstance(x, list):
        j, kind = how
        y = x[kind].xTime.copy()
        y[j] += 0.37 * np.max(np.abs(y))
        x[kind] = Series(x[kind].time.copy(), y)
    else:
        a[i] = how
    return a


def changes(name):
    base = OPS[name].args(N, 0)
    for i, x in enumerate(base):
        if isinstance(x, np.ndarray):
            for j in sorted({0, 1, x.size // 2, x.size - 2, x.size - 1}):
                yield i, (j, "mean")
                yield i, (j, "add")
        elif isinstance(x, list):
            for k in range(len(x)):
                for j in (0, N // 2, N - 1):
                    yield i, (j, k)
        elif isinstance(x, bool):
            yield i, not x
        elif isinstance(x, str):
            yield from ((i, s) for s in ("down", "up", "hann", "hamming", "boxcar") if s != x)
        elif isinstance(x, (int, float)) and "Battjes" in name and isinstance(x, int):
            yield i, x + 1
        elif isinstance(x, int):
            yield i, x + 1
        elif np.isfinite(x):
            yield i, x * 1.25
            yield i, x * 0.8
        else:
            yield i, 7.0
    for i in range(len(OPTIONS.get(name, ()))):
        yield i, "option"


def run_change(name, i, how, want0, want1):
    for w, label in (((0, 1, 0), "base, changed, base"), ((1, 1, 0, 1), "changed, base, changed")):
        for k in w:
            got = outcome(name, changed(name, i, how) if k else changed(name, 0, "base"))[:2]
            match(got, want1 if k else want0, f"{name} in the history {label} (argument {i}: {how})")
    return 7


def check_change(case, m):
    name = case["op"]
    want0 = forked(lambda: outcome(name, changed(name, 0, "base"))[:2])
    need(want0[0], f"{name} rejects its own arguments")
    for i, how in changes(name):
        want1 = forked(lambda: outcome(name, changed(name, i, how))[:2])
        m.step(forked(run_change, name, i, how, want0, want1))
        m.state("change", name, i, how)


# ---------------------------------------------------------------- the same array object with other contents
def run_inplace(name, va, vb):
    op = OPS[name]
    a, b = op.args(N, va), op.args(N, vb)
    match(outcome(name, a)[:2], _fresh[(name, va, N)], f"{name} variant {va}")
    for round_ in range(2):
        args = []
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype:
                y = y.copy()
                x[...] = y
                args.append(x)
            elif isinstance(x, list) and x and isinstance(x[0], Series):
                for p, q in zip(x, y):
                    p.xTime[...] = q.xTime
                    p.time[...] = q.time
                args.append(x)
            else:
                args.append(y)
        want = (vb, va)[round_]
        match(outcome(name, args)[:2], _fresh[(name, want, N)], f"{name} with the same arrays, now holding variant {want}")
        b = op.args(N, va)
        a = args
    return 3


def check_inplace(case, m):
    name = case["op"]
    for va, vb in itertools.permutations(range(api.VARIANTS) if OPS[name].kind != "plot" else (0, 1), 2):
        fresh(name, va), fresh(name, vb)
        m.step(forked(run_inplace, name, va, vb))
    m.state("inplace", name)


# ---------------------------------------------------------------- rejected calls
def bad_args(name, n):
    op = OPS[name]
    out = []
    base = op.args(n, 0)
    for i in range(len(base)):
        x = base[i]
        reps = [None, "x"]
        if isinstance(x, np.ndarray):
            reps += [x[:-1], x[:0], np.stack([x, x]), np.full(x.shape, np.nan), x[::-1].copy(), x.astype(complex) * 1j]
        elif isinstance(x, (int, float)) and not isinstance(x, bool):
            reps += [-7.0, 1e9 if i and not op.random and "Battjes" not in name and "freq_series" not in name else -1.0, float("nan")]
        for v in reps:
            out.append((i, v))
    return out


def run_bad(name, others):
    w = world()
    n = 0
    rejected = 0
    for i, v in bad_args(name, N):
        args = OPS[name].args(N, 0)
        args[i] = v
        ok, r = api.invoke(name, args)
        plt.close("all")
        rejected += not ok
        step(name, 0, N, f"after {name} with argument {i} = {str(v)[:30]}", w)
        n += 1
    for b in others:
        step(b, 0, N, f"after bad calls of {name}", w)
        n += 1
    same_world(w, f"after bad calls of {name}")
    return n, rejected


def check_bad(case, m):
    for b in OPS:
        fresh(b)
    n, rej = forked(run_bad, case["op"], FAST if OPS[case["op"]].kind != "plot" else FAST[:20])
    m.step(n)
    m.notes["rejected calls"] += rej
    m.state("bad", case["op"], rej)


# ---------------------------------------------------------------- two live objects of one class
CLASSES = {"WaveHeights": (WaveHeights, WM, ""), "Series": (Series, {**SM, **{"W" + k: f for k, f in WM.items()}}, ""), "Spectrum": (Spectrum, PM, "")}


def run_objects(cls, method, va, vb, n):
    C, methods, _ = CLASSES[cls]
    name = f"{cls}.{method}"
    make = lambda v: C(*OPS[name].args(n, v))  # noqa: E731
    ask = lambda o, meth: api.norm(methods[meth](o))  # noqa: E731
    want = {}
    for v in {va, vb}:
        want[v] = _fresh[(name, v, n)][1][1]
    a, b = make(va), make(vb)
    api.same(ask(a, method), want[va], f"{name} with another {cls} alive")
    api.same(ask(b, method), want[vb], f"{name} after the same query of another {cls}")
    a2 = make(va)
    for other in methods:
        try:
            methods[other](b)
        except Exception:
            pass
    api.same(ask(a2, method), want[va], f"{name} after all queries of another {cls}")
    a3 = make(va)
    api.same(ask(a3, method), want[va], f"{name} of a new {cls} after all queries of another one")
    return 4


def check_objects(case, m):
    name = f"{case['cls']}.{case['method']}"
    for va, vb in ((0, 1), (1, 0), (0, 2), (0, 4), (0, 5), (0, 0)):
        fresh(name, va, 60), fresh(name, vb, 60)
        if fresh(name, va, 60)[0] and fresh(name, vb, 60)[0]:
            m.step(forked(run_objects, case["cls"], case["method"], va, vb, 60))
    m.state("objects", name)


def objects(tier):
    for cls, (_, methods, _) in CLASSES.items():
        for meth in methods:
            yield {"cls": cls, "method": meth}


# ---------------------------------------------------------------- longer histories
def run_triples(a, b, others):
    w = world()
    k = 0
    for c in others:
        step(a, 0, N, f"in the history {a}, {b}, {c}", w)
        r = step(b, 1, N, f"in the history {a}, {b}, {c}", w)
        step(c, 0, N, f"after {a}, {b}", w)
        spoil(r)
        k += 3
    return k


def check_triples(case, m):
    for x in FAST:
        fresh(x, 0), fresh(x, 1)
    a = case["a"]
    for b in case["bs"]:
        m.step(forked(run_triples, a, b, case["cs"]))
    m.state("triples", a)


def triples(tier):
    core = [x for c in CLUSTERS for x in c if not x.startswith("Series.W")]
    if tier == "quick":
        for c in CLUSTERS:
            for a in c:
                yield {"a": a, "bs": [x for x in c if x != a], "cs": c}
    else:
        for a in FAST:
            for b in core:
                yield {"a": a, "bs": [b], "cs": FAST}


# ---------------------------------------------------------------- the random generator
def run_random(name, before):
    """Unseeded synthesis follows the generator, seeded synthesis does not."""
    op = OPS[name]
    outs = []
    for s in (1, 2, 1):
        np.random.seed(s)
        if before:
            st = np.random.get_state()
            OPS[before].call(*OPS[before].args(N, 0))
            plt.close("all")
            if not OPS[before].random:
                need(rng() == (st[0], st[1].tobytes(), st[2:]), f"{before} changed the random generator")
            else:
                np.random.set_state(st)
        outs.append(api.norm(op.call(*op.args(N, 0))))
    api.same(outs[2], outs[0], f"{name} with the same generator state, after {before}")
    seeded = name in ("spectrum2timeseries[seed]", "spectrum2timeseries_object")
    try:
        api.same(outs[1], outs[0], "")
        same = True
    except Violation:
        same = False
    need(same == seeded, f"{name}: {'depends on the generator' if seeded else 'ignores the generator'}, after {before}")
    return 3


def check_random(case, m):
    for name in [k for k in OPS if OPS[k].random]:
        m.step(forked(run_random, name, case["before"]))
        m.state("random", name)


SPACES = [
    Space("random generator", "4 kinds of synthesis after each of the other operations, with 2 generator states",
          lambda tier: ({"before": b} for b in [None] + FAST), check_random, chunk=4),
    Space("variants", "each of 109 operations: every ordered pair of 6 data/option variants and 3 sizes in a process of its own; results overwritten in between", variants, check_variants, chunk=2),
    Space("one change", "each operation x every argument: one element (5 positions x 2 sizes of change), one scalar, one optional argument changed between two calls, both orders",
          lambda tier: ({"op": k} for k in FAST + ["BattjesGroenendijk"]), check_change, chunk=1),
    Space("in place", "each operation: every ordered pair of variants passed in the same array objects", lambda tier: ({"op": k} for k in OPS), check_inplace, chunk=1),
    Space("related operations", "every ordered pair of operations within 5 groups that share helpers x 3 x 3 variants, each in a process of its own (thorough: all pairs)", clusters, check_two, chunk=2),
    Space("objects", "every method x 6 pairs of two live objects of one class", objects, check_objects, chunk=1),
    Space("rejected calls", "every operation with each argument replaced by 2..8 invalid values, followed by itself and by all others", lambda tier: ({"op": k} for k in OPS), check_bad, chunk=1),
    Space("all pairs", "every ordered pair of 109 operations (a, b, a) in one long history per first operation; earlier results compared after every call", chains, check_chain, chunk=1),
    Space("triples", "all histories of three operations within the groups (thorough: 100 x 51 x 100)", triples, check_triples, chunk=1),
]
