"""An interrupted computation leaves nothing behind: an exception is raised at every point where a call can fail, and
everything asked afterwards is compared with a fresh process."""
import numpy as np
from mc import api, ref, sched
from mc.api import OPS, PM, SM
from mc.checks.c28 import CLUSTERS, FAST, forked, match, outcome, rng, same_world, world
from mc.core import Space
from mc.ref import need

from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = ["failures strike on source lines of the package that call, compute or index something, not inside clean-up code (except, finally, with headers)",
               "one failure per history; a line executed many times fails at its first (two) and its last execution; failures within a constructor are explored once per class",
               "no drawing (an interrupted plot leaves its unfinished figure); an interrupted query of an object may keep what it computed, but no query may answer differently"]
N = 8
ERRORS = {"interrupt": KeyboardInterrupt, "memory": MemoryError}
_fresh = {}


def fresh(name, v=0, n=N):
    k = (name, v, n)
    if k not in _fresh:
        _fresh[k] = forked(lambda: outcome(name, OPS[name].args(n, v))[:2])
    return _fresh[k]


def failing_points(call, limit=2):
    """The failing points of a call (see ASSUMPTIONS) and how many it passes in all."""
    seen = {}
    n = [0]

    def at(i, frame):
        if sched.can_fail(frame):
            seen.setdefault((frame.f_code, frame.f_lineno), []).append(n[0])
            n[0] += 1

    sched.outcome(lambda: sched.traced(call, at))
    return sorted({k for ks in seen.values() for k in (*ks[:limit], ks[-1])}), n[0]


def held(x):
    return [api.snapshot(v) for v in x]


def after(name, v, n, what):
    before = rng()
    np.random.seed(12345)
    got = outcome(name, OPS[name].args(n, v))[:2]
    match(got, _fresh[(name, v, n)], what)
    return before


def run_points(a, v, n, limit):
    args = OPS[a].args(n, v)
    before = held(args)
    np.random.seed(777)
    ks, _ = failing_points(lambda: OPS[a].call(*args), limit)
    need(held(args) == before, f"{a} changed its arguments")
    return ks


FIRST = {"WaveHeights": ("WaveHeights.", WaveHeights), "Series": ("Series.max", Series), "Spectrum": ("Spectrum.", Spectrum)}


def run_prefix(a, v, n):
    """Failing points of the construction: the same history for every method of a class, explored for one of them."""
    cls = a.split(".")[0]
    if OPS[a].kind != "object" or a == "Spectrum.2D" or FIRST[cls][0] == a:
        return 0
    args = OPS[a].args(n, v)
    return failing_points(lambda: FIRST[cls][1](*args))[1]


def run_calls(a, v, n, mates, error, k):
    """In a process of its own: the first call fails at its k-th point."""
    args = OPS[a].args(n, v)
    before = held(args)
    w = world()
    np.random.seed(777)
    state = rng()
    r, place = sched.interrupt(lambda: OPS[a].call(*args), k, ERRORS[error])
    what = f"{a} variant {v}, {ERRORS[error].__name__} at {place}"
    need(held(args) == before, f"{what}: an argument is left changed")
    same_world(w, what)
    if not OPS[a].random:
        need(rng() == state, f"{what}: the global random generator is left changed")
    match(outcome(a, args)[:2], _fresh[(a, v, n)], f"{what}: the same call again")
    count = 1
    for b, vb in mates:  # again, now with everything in place that a complete call may leave, and another call in between
        args = OPS[a].args(n, v)
        np.random.seed(777)
        r, place = sched.interrupt(lambda: OPS[a].call(*args), k, ERRORS[error])
        match(outcome(b, OPS[b].args(n, vb))[:2], _fresh[(b, vb, n)], f"{what}: {b} variant {vb} afterwards")
        if b == a:
            match(outcome(a, args)[:2], _fresh[(a, v, n)], f"{what}, variant {vb}: the same call again")
        count += 1
    return count


def check_calls(case, m):
    a, v, n = case["a"], case["v"], case.get("n", N)
    fresh(a, v, n)
    for b, vb in case["then"]:
        fresh(b, vb, n)
    start = forked(run_prefix, a, v, n)
    for i, k in enumerate(k for k in forked(run_points, a, v, n, case.get("limit", 2)) if k >= start):
        if i % case.get("parts", 1) == case.get("part", 0):
            m.step(forked(run_calls, a, v, n, case["then"], case["error"], k))
            m.notes["failure points"] += 1
    m.state(a, v, n, case["error"])


def mates(a):
    out = [(a, 1), (a, 4)]
    for c in CLUSTERS:
        if a in c:
            out += [(b, 0) for b in c if b != a]
    return out


def calls(tier):
    def parts(d, n=4):
        return ({**d, "parts": n, "part": i} for i in range(n))

    for a in FAST:
        yield from parts({"a": a, "v": 0, "error": "interrupt", "then": mates(a)})
        yield from parts({"a": a, "v": 3, "error": "memory", "then": [(a, 1)], "limit": 1}, 2)
        yield from parts({"a": a, "v": 1, "n": 60, "error": "interrupt", "then": [(a, 4)], "limit": 1}, 2)
    yield from parts({"a": "BattjesGroenendijk", "v": 0, "error": "interrupt", "then": [("BattjesGroenendijk", 1)], "limit": 1})
    if tier != "quick":
        for a in FAST:
            for v in range(api.VARIANTS):
                for e in ERRORS:
                    yield from parts({"a": a, "v": v, "error": e, "then": [(b, 0) for b in FAST]}, 8)
            yield from parts({"a": a, "v": 1, "n": 61, "error": "memory", "then": mates(a)})


# ---------------------------------------------------------------- objects: a query fails, all queries are asked
QUERIES = {
    "Series": (Series, {k: f for k, f in SM.items() if not k.startswith("waves")}),
    "Spectrum": (Spectrum, {k: f for k, f in PM.items() if k}),
}


def values(r):
    return api.norm(r)


def run_object(cls, q, v, n, error):
    C, methods = QUERIES[cls]
    def args():
        a = OPS[f"{cls}.{q}"].args(n, 0 if v == "zero" else v)
        if v == "zero":  # an axis from zero, the first sample or density not zero
            a[0] = np.arange(n) * (0.4 / n)
        return a

    def own(o):
        return [np.array(getattr(o, k)) for k in ("time", "xTime", "f", "sVarDens") if hasattr(o, k)]

    want = {}
    for x in methods:
        o = C(*args())
        want[x] = forked(lambda: values(methods[x](o)))
    a0 = args()
    o = C(*a0)
    np.random.seed(777)
    ks, _ = failing_points(lambda: methods[q](o))
    count = 0
    for k in ks:
        arrays = args()
        keep = held(arrays)
        o = C(*arrays)
        r, place = sched.interrupt(lambda: methods[q](o), k, ERRORS[error])
        what = f"{cls}.{q} variant {v}, {ERRORS[error].__name__} at {place}"
        need(held(arrays) == keep, f"{what}: the object's own data are left changed")
        need(all(np.array_equal(x, y) for x, y in zip(own(o), own(C(*args())))), f"{what}: the record or spectrum of the object is left changed")
        api.same(values(methods[q](o)), want[q], f"{what}: the same query again")
        for x in methods:
            api.same(values(methods[x](o)), want[x], f"{what}: {x} afterwards")
            count += 1
        # and asked before any other
        for x in methods:
            o = C(*args())
            sched.interrupt(lambda: methods[q](o), k, ERRORS[error])
            api.same(values(methods[x](o)), want[x], f"{what}: {x} right afterwards")
            count += 1
        # an object that has been asked already
        o = C(*args())
        for x in methods:
            methods[x](o)
        sched.interrupt(lambda: methods[q](o), k, ERRORS[error])
        for x in methods:
            api.same(values(methods[x](o)), want[x], f"{what}: {x} of an object that had answered everything")
            count += 1
    return count, len(ks)


def check_object(case, m):
    c, k = forked(run_object, case["cls"], case["q"], case["v"], case["n"], case["error"])
    m.step(c)
    m.notes["failure points"] += k
    m.state(case["cls"], case["q"], case["v"], case["error"])


def object_cases(tier):
    for cls, (_, methods) in QUERIES.items():
        for q in methods:
            for v in (0, "zero") if tier == "quick" else (0, 1, 3, 4, "zero"):
                for e in ("interrupt",) if tier == "quick" else ERRORS:
                    yield {"cls": cls, "q": q, "v": v, "n": 24, "error": e}


# ---------------------------------------------------------------- construction fails
def run_construct(cls, v, n, error):
    C, methods = QUERIES[cls]
    q = next(iter(methods))
    args = OPS[f"{cls}.{q}"].args(n, v)
    keep = held(args)
    want = {x: values(methods[x](C(*args))) for x in methods}
    ks, _ = failing_points(lambda: C(*args))
    for k in ks:
        r, place = sched.interrupt(lambda: C(*args), k, ERRORS[error])
        what = f"{cls}(...) variant {v}, {ERRORS[error].__name__} at {place}"
        need(held(args) == keep, f"{what}: an argument is left changed")
        o = C(*args)
        for x in methods:
            api.same(values(methods[x](o)), want[x], f"{what}: {x} of the next object")
    return len(ks) * len(methods), len(ks)


def check_construct(case, m):
    c, k = forked(run_construct, case["cls"], case["v"], case["n"], case["error"])
    m.step(c)
    m.state(case["cls"], case["v"], case["n"], case["error"])


SPACES = [
    Space("calls", "every operation (8 and 60 samples, two kinds of error) x every failing point (lines that call, compute or index), each in a process of its own: arguments, settings, generator; "
          "the same call, two variants and all of its group again (thorough: 6 variants x 2 errors x all operations afterwards)", calls, check_calls, chunk=1, slow=5),
    Space("objects", "every query of Series and Spectrum (axes from zero and not) x every failing point x the data held and every query afterwards (in sequence, first, on an object that had answered)", object_cases, check_object, chunk=1, slow=5),
    Space("construction", "Series and Spectrum, 6 variants, 2 sizes, 2 errors: construction fails at every point", lambda tier: ({"cls": c, "v": v, "n": n, "error": e} for c in QUERIES for v in range(6) for n in (24, 50) for e in ERRORS),
          check_construct, chunk=1, slow=5),
]
