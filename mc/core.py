"""Exhaustive exploration engine.

A check is a list of Spaces.  A Space is a finite, deterministically ordered set of cases (input points, call
sequences, initial objects of a breadth-first search, ...) together with a function that replays one case on the
real code in /repo and compares every observation with a reference model.  The engine enumerates *every* case of
every space (sharded over processes), never samples, and reports how many states, transitions and traces that was.
"""
import collections
import concurrent.futures
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_PROCS") or min(8, os.cpu_count() or 1))
CASE_SECONDS = float(os.environ.get("VERIF_CASE_SECONDS") or 60)
MAX_VIOLATIONS = 3  # per worker: enough to choose the simplest one


class Violation(Exception):
    """The code under test disagrees with the reference model."""


class CaseTimeout(BaseException):
    """The code under test did not return (BaseException: the code under test cannot swallow it by accident)."""


def _alarm(*_):
    raise CaseTimeout()


class Space:
    """name, bound: what is enumerated and up to where (text for the evidence file).
    cases(tier): iterable of JSON-able cases, simplest first.   check(case, m): replay + compare (m: Meter)."""

    def __init__(self, name, bound, cases, check, chunk=16, slow=1):
        self.name, self.bound, self.cases, self.check, self.chunk = name, bound, cases, check, chunk
        self.slow = slow  # a case may take this many times longer than usual before it counts as hanging


class Meter:
    """Counts what a run covers."""

    __slots__ = ("states", "transitions", "traces", "notes")

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.notes = collections.Counter()

    def state(self, *key):
        """A reference-model state (or model outcome) reached; distinct ones are counted."""
        self.states.add(hash64(key))

    def step(self, n=1):
        """A transition: one call of the real code whose result was compared with the model."""
        self.transitions += n


def hash64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
        return jsonable(x.item())
    if hasattr(x, "tolist"):
        return jsonable(x.tolist())
    return repr(x)


def run_case(space, case, meter):
    """None, or (kind, message) when the case violates the property."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS * space.slow)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            space.check(case, meter)
        meter.traces += 1
        return None
    except Violation as e:
        return ("disagreement", str(e))
    except CaseTimeout:
        return ("no-termination", f"no answer within {CASE_SECONDS * space.slow:g} s")
    except Exception as e:  # the property demands an answer here, the code raised (or returned nonsense)
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-4:]))
        return ("exception", f"{type(e).__name__}: {e} [{where}]")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _limit_memory(gb=3):
    """Code under test that runs away on a small input gets a MemoryError here instead of ending the sandbox."""
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


_SPACES = []  # inherited by the forked workers


def _worker(args):
    tier, shard, nshard, deadline = args
    _limit_memory()
    out = []
    hung = False
    for si, space in enumerate(_SPACES):
        if hung:  # the code under test does not return: one witness is enough
            break
        meter = Meter()
        viol = []
        n = 0
        done = True
        samples = []
        c = space.chunk
        for i, case in enumerate(space.cases(tier)):
            n = i + 1
            if (i // c) % nshard != shard:
                continue
            if time.time() > deadline:
                done = False
                break
            r = run_case(space, case, meter)
            if r is not None:
                viol.append((i, jsonable(case), r[0], r[1]))
                hung = r[0] == "no-termination"
                if hung or len(viol) >= MAX_VIOLATIONS:
                    break
            if len(samples) < 2 and i % 7 == shard % 7:
                samples.append(jsonable(case))
        out.append((si, n, done, meter.states, meter.transitions, meter.traces, meter.notes, viol, samples))
    return out


def load_known(prop):
    """Known findings of this property: list of (space, canonical case)."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                d = json.loads(line)
                if d["property"] == prop:
                    found.append(d)
    return found


def canon(case):
    return json.dumps(jsonable(case), sort_keys=True)


def short(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def run(prop, spaces, tier, assumptions, budget):
    t0 = time.time()
    deadline = t0 + budget
    seed = int(os.environ.get("VERIF_SEED") or 1)
    nproc = NPROC
    # every property starts from a fresh, single-threaded process: fork the workers from it
    global _SPACES, CASE_SECONDS
    _SPACES = spaces
    if tier == "thorough":
        CASE_SECONDS *= 10
    with concurrent.futures.ProcessPoolExecutor(nproc, mp_context=mp.get_context("fork")) as pool:
        parts = list(pool.map(_worker, [(tier, k, nproc, deadline) for k in range(nproc)], chunksize=1))
    merged = []
    for si, space in enumerate(spaces):
        row = dict(space=space.name, bound=space.bound, cases=0, states=set(), transitions=0, traces=0,
                   notes=collections.Counter(), viol=[], samples=[], complete=True)
        for part in parts:
            for (sj, n, done, st, tr, tc, notes, viol, samples) in part:
                if sj == si:
                    row["cases"] = max(row["cases"], n)
                    row["states"] |= st
                    row["transitions"] += tr
                    row["traces"] += tc
                    row["notes"].update(notes)
                    row["viol"] += viol
                    row["samples"] += samples
                    row["complete"] &= done
        row["viol"].sort(key=lambda v: v[0])
        merged.append(row)

    known = load_known(prop)
    seen_known = set()
    violations = []
    for row in merged:
        for (i, case, kind, msg) in row["viol"]:
            hit = next((k for k in known if k["space"] == row["space"] and canon(k["case"]) == canon(case)), None)
            if hit:
                seen_known.add(hit["what"])
            else:
                violations.append((row["space"], i, case, kind, msg))

    # A listed finding is replayed on its own, so that its line is printed on every run of the unchanged tree.
    for k in known:
        sp = next((s for s in spaces if s.name == k["space"]), None)
        if sp is not None and k["what"] not in seen_known:
            if run_case(sp, k["case"], Meter()) is not None:
                seen_known.add(k["what"])
    for what in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {what}")

    # The engine owns its nondeterminism: replay the first cases of each space twice, observations must agree.
    replays = 0
    for space in spaces:
        for case in itertools.islice(space.cases(tier), 2):
            a, b = Meter(), Meter()
            ra, rb = run_case(space, case, a), run_case(space, case, b)
            replays += 2
            if (a.states, a.transitions) != (b.states, b.transitions) or (ra is None) != (rb is None):
                if not violations:
                    violations.append((space.name, 0, jsonable(case), "disagreement",
                                       "the same case, replayed twice in one process, gave different observations"))

    states = len(set().union(*[{(i, s) for s in r["states"]} for i, r in enumerate(merged)])) if merged else 0
    complete = all(r["complete"] for r in merged)
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": sum(r["transitions"] for r in merged),
            "traces_validated_against_impl": sum(r["traces"] for r in merged),
            "evaluations": sum(r["cases"] for r in merged),
            "determinism_replays": replays,
            "exhaustive": complete and not violations,
            "rule": "every case of every listed space is replayed on the code in /repo and compared with the "
                    "reference model; states are distinct model outcomes, transitions are compared calls",
            "spaces": [{"space": r["space"], "bound": r["bound"], "cases": r["cases"], "states": len(r["states"]),
                        "transitions": r["transitions"], "traces": r["traces"], "complete": r["complete"],
                        "notes": dict(r["notes"])} for r in merged],
            "samples": [{"space": r["space"], "case": short(s)} for r in merged for s in r["samples"][:2]],
        },
        "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for r in merged:
        print(f"  {prop}/{r['space']}: cases={r['cases']} states={len(r['states'])} transitions={r['transitions']} "
              f"traces={r['traces']}{'' if r['complete'] else ' INCOMPLETE'} {dict(r['notes']) or ''}")
    if violations:
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        sp, i, case, kind, msg = violations[0]
        path = os.path.join(rd, f"{prop}-{hash64((sp, canon(case))):016x}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "space": sp, "tier": tier, "index": i, "case": case, "kind": kind,
                       "message": msg, "others": [list(v[:2]) + list(v[3:]) for v in violations[1:6]]}, fh, indent=1)
        print(f"  {sp} case {short(case)}\n  {kind}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"OK property={prop} states={states} transitions={ev['coverage']['transitions']} "
          f"traces={ev['coverage']['traces_validated_against_impl']} wall={wall:.1f}s")
    if not complete:  # nothing was violated, but the stated bound was not reached: an error of the check
        print(f"ERROR property={prop}: time budget {budget} s was hit before the spaces were exhausted")
        return 2 if tier == "quick" else 0
    return 0
