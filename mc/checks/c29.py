"""Concurrent computations do not interfere: every schedule of two threads with one or two preemptions, the threads
working on the same argument arrays, against the result of each call on its own in a fresh process."""
import itertools
import random
import threading

import numpy as np
from mc import api, sched
from mc.api import OPS
from mc.checks.c28 import CLUSTERS, FAST, forked, frozen, still
from mc.core import Space
from mc.ref import need

from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = ["threads are switched at source lines of the package (thorough: also between bytecodes), not inside numpy or scipy",
               "two threads, at most two preemptions; no drawing (pyplot has global state) and no random synthesis in the preempting thread",
               "a line executed many times (loops) is a preemption point at its first execution, in some spaces also at its second and its last (thorough: first three and last)",
               "objects are not shared between the threads, arrays are"]
N = 8
RANDOM = [k for k in OPS if OPS[k].random]
CALM = [k for k in FAST if k not in RANDOM]
# one operation of every kind for the long preempting program
PROGRAM = [k for k in CALM if "." not in k] + ["WaveHeights.Hs", "WaveHeights.exc", "Series.down", "Series.spec", "Series.raw", "Series.band", "Series.skew", "Series.asym",
                                                "Series.WHs", "Series.waves_cut", "Spectrum.Hm0", "Spectrum.Tps", "Spectrum.Tp", "Spectrum.Tm02", "Spectrum.Tmm10_HF", "Spectrum.2D"]


def alone(name, args):
    np.random.seed(12345)
    ok, r = sched.outcome(lambda: OPS[name].call(*args))
    return ok, api.norm(r)


_fresh = {}


def fresh(name, v=0, n=N):
    key = (name, v, n)
    if key not in _fresh:
        _fresh[key] = forked(lambda: alone(name, OPS[name].args(n, v)))
    return _fresh[key]


def agree(got, want, what):
    need(got[0] == want[0], lambda: f"{what}: {'answered' if got[0] else 'rejected: ' + str(got[1])}, on its own {'answered' if want[0] else 'rejected: ' + str(want[1])}")
    api.same(api.norm(got[1]), want[1], what)


def key(x):
    return (x.dtype.str, x.shape, x.tobytes())


def share(mine, theirs):
    """`mine` with every array (or record) that `theirs` holds too replaced by that very object."""
    known = {key(x): x for x in theirs if isinstance(x, np.ndarray) and x.size > 1}
    out = []
    for x in mine:
        if isinstance(x, np.ndarray):
            x = known.get(key(x), x)
        elif isinstance(x, list):
            for y in theirs:
                if isinstance(y, list) and len(x) == len(y) and all(isinstance(p, Series) and key(p.xTime) == key(q.xTime) for p, q in zip(x, y)):
                    x = y
        out.append(x)
    return out


def points(call, opcodes=False, limit=(3, 1)):
    """The steps at which a thread is preempted."""
    seen = {}
    n = [0]

    def at(k, frame):
        n[0] = k + 1
        seen.setdefault((frame.f_code, frame.f_lasti if opcodes else frame.f_lineno), []).append(k)

    sched.outcome(lambda: sched.traced(call, at, opcodes))
    first, last = limit
    return sorted({k for ks in seen.values() for k in (*ks[:first], *ks[len(ks) - last:])}), n[0]


def prepare(a, va, na, b, vb, nb):
    x = OPS[a].args(na, va)
    y = share(OPS[b].args(nb, vb), x)
    return x, y, (lambda: OPS[a].call(*x)), (lambda: OPS[b].call(*y))


def judge(oa, ob, wa, wb, what):
    agree(oa, wa, f"{what}: the preempted call")
    agree(ob, wb, f"{what}: the preempting call")


def held(x):
    return [api.snapshot(v) for v in x]


FIRST = {"WaveHeights": ("WaveHeights.", WaveHeights), "Series": ("Series.max", Series), "Spectrum": ("Spectrum.", Spectrum)}


def run_prefix(a, v, n):
    """Steps of the construction: preempted there by the same call, every method of a class is the same schedule."""
    cls = a.split(".")[0]
    if OPS[a].kind != "object" or a == "Spectrum.2D" or FIRST[cls][0] == a:
        return 0
    return points(lambda: FIRST[cls][1](*OPS[a].args(n, v)))[1]


# ---------------------------------------------------------------- one preemption, by one call of every kind
def run_program(a, va, n, program, limit, start):
    count = 0
    py = random.getstate()
    x = OPS[a].args(n, va)
    before = held(x)
    ks, total = points(lambda: OPS[a].call(*x), limit=limit)
    ks = [k for k in ks if k >= start]
    need(held(x) == before, f"{a} changed its arguments")
    for k in ks:
        calls = [(b, share(OPS[b].args(n, 0), x)) for b in program]
        res = []

        def body():
            for b, y in calls:
                res.append(sched.outcome(lambda: OPS[b].call(*y)))

        np.random.seed(12345)
        ra, _, _ = sched.schedule(lambda: OPS[a].call(*x), body, k)
        what = f"{a} variant {va}, preempted before step {k} of {total}"
        agree(ra, _fresh[(a, va, n)], what + f" by {len(program)} other calls")
        need(len(res) == len(program), f"{what}: the preempting thread did not end")
        for (b, _), r in zip(calls, res):
            agree(r, _fresh[(b, 0, n)], f"{b}, run while another thread was at step {k} of {total} of {a} variant {va}")
        need(held(x) == before, f"{what}: an argument changed")
        count += len(program) + 1
    need(random.getstate() == py, f"{a}: python's random state changed")
    return count, len(ks)


def check_program(case, m):
    a, v, n = case["a"], case["v"], case.get("n", N)
    fresh(a, v, n)
    program = [b for b in PROGRAM if not (OPS[a].random and OPS[b].random)]
    program = program[:: -1] if case["reverse"] else program
    for b in program:
        fresh(b, 0, n)
    c, k = forked(run_program, a, v, n, program, case["limit"], forked(run_prefix, a, v, n))
    m.step(c)
    m.notes["preemption points"] += k
    m.state("program", a, v, n, case["reverse"])


def programs(tier):
    for a in FAST:
        for v in (0,) if tier == "quick" else (0, 3):
            for reverse in (False,) if tier == "quick" else (False, True):
                yield {"a": a, "v": v, "reverse": reverse, "limit": (1, 0) if tier == "quick" else (3, 1)}
    if tier != "quick":
        for a in FAST:
            yield {"a": a, "v": 1, "n": 24, "reverse": False, "limit": (1, 1)}


# ---------------------------------------------------------------- one and two preemptions, pairs of calls
def run_pair(a, va, na, b, vb, nb, two, opcodes, limit, most=None):
    x, y, fa, fb = prepare(a, va, na, b, vb, nb)
    wa, wb = _fresh[(a, va, na)], _fresh[(b, vb, nb)]
    before = held(x), held(y)
    if opcodes:
        sched.steps(fa, True), sched.steps(fb, True)  # the first bytecode trace of a function is not complete
    ka, ta = points(fa, opcodes, limit)
    kb = [None]
    if two:
        kb = points(fb, opcodes, limit)[0]
    if most and len(ka) * len(kb) > most:
        return 0
    n = waits = 0
    for k, j in itertools.product(ka, kb):
        np.random.seed(12345)
        ra, rb, blocked = sched.schedule(fa, fb, k, j, opcodes)
        what = f"{a} variant {va} n={na} / {b} variant {vb} n={nb}, {'bytecode' if opcodes else 'line'} schedule: {k} of {ta} steps, {'all' if j is None else j} of the other"
        judge(ra, rb, wa, wb, what)
        need((held(x), held(y)) == before, f"{what}: an argument changed")
        n += 1
        waits += blocked
        if waits > 3:  # the code waits by itself: the schedules left are its own choice
            break
    # both results at hand while the same calls are made again
    oa, ob = sched.outcome(fa), sched.outcome(fb)
    fr = frozen(oa[1]) + frozen(ob[1])
    sched.outcome(lambda: OPS[a].call(*OPS[a].args(na, 1)))
    sched.outcome(lambda: OPS[b].call(*OPS[b].args(nb, 1)))
    still(fr, f"results of {a} and {b}")
    need(threading.active_count() == 1 or waits, "threads are left behind")
    return n


def check_pair(case, m):
    a, b = case["pair"]
    for (va, na), (vb, nb) in case["with"]:
        fresh(a, va, na), fresh(b, vb, nb)
        n = forked(run_pair, a, va, na, b, vb, nb, case["two"], case.get("opcodes", False), case.get("limit", (3, 1)), case.get("most"))
        m.step(n)
        m.notes["schedules" if n else "pairs with too many schedules"] += n or 1
        m.state(a, va, na, b, vb, nb, case["two"])


def calm_pairs(group):
    for a, b in itertools.product(group, repeat=2):
        if b in CALM and a != b:
            yield a, b


def one(tier):
    every = [((p, N), (q, N)) for p in range(api.VARIANTS) for q in range(api.VARIANTS)]
    some = [((0, N), (v, N)) for v in range(api.VARIANTS)] + [((v, N), (0, N)) for v in (1, 3)]
    some += [((0, N), (0, N + 1)), ((0, N + 1), (0, N)), ((0, 24), (1, 50)), ((0, 50), (2, 8))]
    for a in CALM:
        limit = (2, 1) if OPS[a].kind == "function" else (1, 1)
        for w in every + some[-4:] if tier != "quick" else some:
            yield {"pair": [a, a], "two": False, "with": [w], "limit": (3, 1) if tier != "quick" else limit}
    for c in CLUSTERS:
        for a, b in calm_pairs(c):
            for w in ([((0, N), (0, N)), ((3, N), (1, N))] if tier == "quick" else every[:24]):
                yield {"pair": [a, b], "two": False, "with": [w], "limit": (1, 1) if tier == "quick" else (3, 1)}


OBJECTS = ["WaveHeights.Hs", "WaveHeights.exc", "Series.raw", "Series.skew", "Series.WHs", "Spectrum.Hm0lim", "Spectrum.Tps", "Spectrum.Tp"]


def two(tier):
    for a in CALM:
        if OPS[a].kind == "function" or a in OBJECTS or tier != "quick":
            for w in [((0, N), (1, N)), ((3, N), (0, N))] + ([((0, N), (0, N)), ((0, N), (4, N + 1))] if tier != "quick" else []):
                yield {"pair": [a, a], "two": True, "most": 2000 if tier == "quick" else None, "with": [w], "limit": (1, 0) if tier == "quick" or OPS[a].kind == "object" else (2, 1)}
    for c in CLUSTERS:
        for a, b in calm_pairs([x for x in c if "." not in x and "default" not in x and "limits" not in x] if tier == "quick" else c):
            yield {"pair": [a, b], "two": True, "most": 2000 if tier == "quick" else None, "with": [((0, N), (1, N))], "limit": (1, 0)}


def large(tier):
    for a in CALM:
        n = 300 if "decompose" in a else 1500
        for w in ((0, n), (1, n)), ((1, n), (5, 700)):
            if OPS[a].kind == "function" or a in OBJECTS or tier != "quick":
                yield {"pair": [a, a], "two": False, "with": [w], "limit": (1, 0)}
    yield {"pair": ["BattjesGroenendijk"] * 2, "two": False, "with": [((0, N), (1, N)), ((1, N), (3, N)), ((3, N), (3, N))], "limit": (1, 1)}
    if tier != "quick":
        yield {"pair": ["BattjesGroenendijk"] * 2, "two": False, "with": [((0, N), (1, N))], "limit": (5, 5)}


def bytecode(tier):
    for a in CALM:
        if OPS[a].kind == "function":
            yield {"pair": [a, a], "two": False, "opcodes": True, "with": [((0, N), (1, N))] + ([((1, N), (1, N)), ((3, N), (0, N))] if tier != "quick" else []), "limit": (1, 0) if tier == "quick" else (3, 1)}
    if tier != "quick":
        for c in CLUSTERS:
            for a, b in calm_pairs(c):
                yield {"pair": [a, b], "two": False, "opcodes": True, "with": [((0, N), (1, N))], "limit": (1, 0)}


# ---------------------------------------------------------------- every schedule in a process that did nothing before
def run_points(a, va, na):
    return points(lambda: OPS[a].call(*OPS[a].args(na, va)), limit=(1, 1))[0]


def run_cold(a, va, b, vb, k):
    x, y, fa, fb = prepare(a, va, N, b, vb, N)
    np.random.seed(12345)
    ra, rb, _ = sched.schedule(fa, fb, k)
    judge(ra, rb, _fresh[(a, va, N)], _fresh[(b, vb, N)], f"first call {a} variant {va}, stopped before step {k} by {b} variant {vb}")
    judge(sched.outcome(fa), sched.outcome(fb), _fresh[(a, va, N)], _fresh[(b, vb, N)], f"{a} and {b} again after a schedule of their first calls")
    return 4


def check_cold(case, m):
    a, b = case["pair"]
    va, vb = case["with"]
    fresh(a, va), fresh(b, vb)
    for k in forked(run_points, a, va, N):
        m.step(forked(run_cold, a, va, b, vb, k))
        m.notes["schedules"] += 1
    m.state("cold", a, va, b, vb)


def cold(tier):
    for a in CALM:
        for w in ((0, 0), (0, 1)) if OPS[a].kind == "function" else ((0, 1),):
            yield {"pair": [a, a], "with": w}
    if tier != "quick":
        for c in CLUSTERS:
            for a, b in calm_pairs(c):
                for w in ((0, 0), (3, 1)):
                    yield {"pair": [a, b], "with": w}


SPACES = [
    Space("first calls", "every operation with itself (thorough: with its group): one preemption before every line, every schedule in a process that never called the library", cold, check_cold, chunk=1, slow=5),
    Space("one preemption, same or related calls", "every operation x itself x 8 pairs of variants (thorough: 36) and 4 of sizes, every ordered pair within 5 groups that share helpers x 2 (24): "
          "the other thread runs completely before every step", one, check_pair, chunk=4, slow=5),
    Space("one preemption by all", "every operation stopped before every line it executes; a second thread then runs one call of each of 58 operations", programs, check_program, chunk=1, slow=5),
    Space("two preemptions", "functions and 8 methods x themselves x 2, functions of 5 groups pairwise: A stops before any line, B before any line, A ends, B ends (quick: pairs with up to 2000 such schedules)", two, check_pair, chunk=2, slow=5),
    Space("large inputs", "functions and 8 methods (thorough: all) on records and spectra of 1500 (decomposition: 300) and 700 values, the Battjes-Groenendijk distribution: one preemption before every line", large, check_pair, chunk=1, slow=5),
    Space("bytecode", "47 functions x themselves: one preemption before every bytecode instruction (thorough: all pairs in the groups)", bytecode, check_pair, chunk=1, slow=5),
]
