"""Copies of objects: every way of copying at every moment of a history, both sides asked everything afterwards."""
import copy
import gc
import itertools
import os
import pickle
import subprocess
import sys

import matplotlib.pyplot as plt
import numpy as np
from mc import ref
from mc.checks import c04, c05
from mc.core import Space
from mc.ref import close, need

from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = [
    "after copy.copy only the answers of both sides are compared, not their independence (it shares the arrays by definition)",
    "queries that have no answer on a fresh object are left out",
]
METHODS = {"copy": copy.copy, "deepcopy": copy.deepcopy}
for _p in range(pickle.HIGHEST_PROTOCOL + 1):
    METHODS[f"pickle{_p}"] = lambda o, p=_p: pickle.loads(pickle.dumps(o, p))
METHODS["twice"] = lambda o: copy.deepcopy(pickle.loads(pickle.dumps(copy.deepcopy(o))))
METHODS["in a list"] = lambda o: copy.deepcopy([o, {"k": o}])[1]["k"]
SPEC_AFTER = [k for k in c05.OPS if k.endswith(("()", "(ab)", "(b)", "(g)"))]


def make(case):
    return Spectrum(*c05.spec(case["kind"])) if "kind" in case else c04.make(case)


def queries(case):
    if "kind" in case:
        return {k: (lambda o, k=k: np.asarray(c05.ask(o, k))) for k in SPEC_AFTER}
    ops, plots = c04.ops_of(case)
    return {**ops, **plots} if case.get("plots") else dict(ops)


_fresh = {}


def fresh(case, sel=None):
    key = (repr(sorted((k, v) for k, v in case.items() if k in ("kind", "rec", "n", "h", "plots"))), sel)
    if key not in _fresh:
        out = {}
        for k, f in queries(case).items():
            o = make(case)
            if sel and k not in c04.RECORD:
                o._determine_individual_waves(**c04.SELS[sel])
            try:
                out[k] = c04.norm(f(o))
            except Exception:
                pass
        _fresh[key] = out
    return _fresh[key]


def data(o):
    """What the object holds, as far as users read it."""
    out = {}
    for k in ("time", "xTime", "f", "sVarDens", "hwave", "twave", "tCross", "nwave", "nt", "nf", "dt", "spec") + tuple(c05.NAMES):
        v = getattr(o, k, None)
        if v is not None:
            out[k] = np.array(v, copy=True) if not isinstance(v, str) else v
    return out


def same_data(a, b, what):
    need(set(a) == set(b), lambda: f"{what}: holds {sorted(a)}, expected {sorted(b)}")
    for k, v in b.items():
        if isinstance(v, str):
            need(a[k] == v, f"{what}: {k}")
        else:
            close(ref.flat(a[k]), ref.flat(v), f"{what}: {k}", rtol=0.0)


def ask_all(o, qs, want, what, m):
    for k, w in want.items():
        c04.same(c04.norm(qs[k](o)), w, f"{k} of {what}")
        m.step()
    plt.close("all")


def act(o, a, qs, want):
    """One step of a history; returns the selection it made, if any."""
    if a.startswith("sel:"):
        o._determine_individual_waves(**c04.SELS[a[4:]])
        return a[4:]
    if a == "overwrite":
        for k in ("time", "xTime", "f", "sVarDens", "hwave", "twave", "tCross"):
            v = getattr(o, k, None)
            if isinstance(v, np.ndarray) and v.size:
                if not v.flags.writeable:
                    continue
                v[...] = np.arange(v.size).reshape(v.shape) * 0.125 + 3.0
    elif a in want:
        qs[a](o)
    return None


def check(case, m):
    qs = queries(case)
    for name in case.get("methods", METHODS):
        for later in case["later"]:
            if later == "overwrite" and name == "copy":
                continue
            o, sel = make(case), None
            for a in case["seq"]:
                sel = act(o, a, qs, fresh(case, sel)) or sel
            want = fresh(case, sel)
            held = data(o)
            c = METHODS[name](o)
            what = f"a {name} made after {case['seq']}"
            need(type(c) is type(o), f"{what}: is a {type(c).__name__}")
            same_data(data(c), held, what)
            same_data(data(o), held, what + " (the original)")
            for side, other, w in ((o, c, "the copy"), (c, o, "the original")):
                if side is c:  # start again, acting on the copy
                    o2 = make(case)
                    for a in case["seq"]:
                        act(o2, a, qs, want)
                    other = o2
                    side = METHODS[name](o2)
                if later:
                    act(side, later, qs, want)
                if name == "copy" and later and (later.startswith("sel:") or later == "sort"):
                    continue
                if later:
                    same_data(data(other), held, f"{w}, after {later} on the other side of {what}")
                ask_all(other, qs, want, f"{w} ({what}, then {later} on the other)", m)
            m.state(name, type(o).__name__, sel, later)
    m.state(tuple(case["seq"]))


def copy_cases(tier):
    deep = tier != "quick"
    core = ["sort", "Hs", "exc40", "hi60"]
    for h in ([], [2.0], [1.0, 3.0, 2.0], [2.0, 1.0, 2.0, 2.0, 1.0], [float(1 + (i * 7) % 5) for i in range(23)]):
        for r in (0, 1, 2):
            for seq in itertools.product(list(c04.WOPS) if r < 2 or deep else core, repeat=r):
                yield {"h": h, "seq": list(seq), "later": [None, "sort", "overwrite", "hi10"], "plots": r == 0}
    for rec, n in (("waves", 61), ("ties", 72), ("one", 9)):
        ops = list(c04.SOPS)
        sels = ["sel:" + s for s in c04.SELS] if rec != "one" else []
        for a in [None] + ops + sels:
            yield {"rec": rec, "n": n, "seq": [a] if a else [], "later": [None, "sort", "overwrite", "Hs", "up"] + sels[1:4], "plots": a is None or a in sels,
                   **({} if deep or a is None else {"methods": ["copy", "deepcopy", "pickle2", "pickle5", "in a list"]})}
        for a, b in itertools.product(sels + ["sort", "Hs"], sels + ["sort", "Hs", "hi60", "up"]):
            if deep or rec == "waves":
                yield {"rec": rec, "n": n, "seq": [a, b], "later": [None, "sort", "overwrite"] + sels[:1],
                       **({} if deep else {"methods": ["deepcopy", "pickle4"]})}
    for kind in ("jonswap", "zero", "double", "ties"):
        for a in [None] + list(c05.OPS):
            if a is None or deep or kind in ("double", "ties") and a in c05.CORE or kind == "zero" and a.endswith(("(b)", "(inf)")):
                yield {"kind": kind, "seq": [a] if a else [], "later": [None, "overwrite", "Tmm10(ab)", "Hm0_HF()"],
                       **({} if deep or a is None else {"methods": ["copy", "deepcopy", "pickle2", "pickle5"]})}
        for a, b in itertools.product(["Tmm10()", "Hm0(ab)", "Tps(ab)", "smm10_HF()", "Hm0_LF()"], repeat=2):
            if deep or kind == "double":
                yield {"kind": kind, "seq": [a, b], "later": [None, "overwrite"], "methods": ["deepcopy", "pickle4"]}


CHILD = """
import os, pickle, sys
sys.path[:0] = pickle.loads(bytes.fromhex(sys.argv[1]))
import matplotlib
matplotlib.use("Agg")
o = pickle.load(sys.stdin.buffer)
from mc.checks import c04, c31
case, objs = o["case"], o["objs"]
from mc import core
out = []
for sel, blob in objs:
    x = pickle.loads(blob)
    row, held = {}, c31.data(x)
    qs = c31.queries(case)
    for k in o["ask"]:
        try:
            row[k] = c04.norm(qs[k](x))
        except Exception as e:
            row[k] = (repr(e),)
    out.append((held, row))
sys.stdout.buffer.write(b"ANSWER" + pickle.dumps(out))
"""


def check_process(case, m):
    """Objects pickled in one process and asked in another that has seen nothing else."""
    qs = queries(case)
    objs, wants, helds = [], [], []
    for seq in case["seqs"]:
        o, sel = make(case), None
        for a in seq:
            sel = act(o, a, qs, fresh(case, sel)) or sel
        objs.append((sel, pickle.dumps(o)))
        wants.append(fresh(case, sel))
        helds.append(data(o))
    ask = [k for k in qs if all(k in w for w in wants)]
    payload = pickle.dumps({"case": case, "objs": objs, "ask": ask})
    r = subprocess.run([sys.executable, "-c", CHILD, pickle.dumps(sys.path).hex()], input=payload, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=dict(os.environ), timeout=50)
    at = r.stdout.find(b"ANSWER")
    need(at >= 0, lambda: f"no answer from the other process: {r.stderr.decode(errors='replace')[-300:]}")
    for (held, row), w, h, seq in zip(pickle.loads(r.stdout[at + 6:]), wants, helds, case["seqs"]):
        same_data(held, h, f"object saved after {seq}")
        for k in ask:
            c04.same(row[k], w[k], f"{k} in another process, saved after {seq}")
            m.step()
        m.state(tuple(seq))


def process_cases(tier):
    for h in ([2.0, 1.0, 2.0, 2.0, 1.0], [float(1 + (i * 7) % 5) for i in range(23)]):
        yield {"h": h, "seqs": [[]] + [[a] for a in c04.WOPS]}
    for rec, n in (("waves", 61), ("ties", 72)):
        yield {"rec": rec, "n": n, "seqs": [[]] + [[a] for a in c04.SOPS] + [["sel:" + s] for s in c04.SELS] + [["Hs", "sel:" + s, "Hs"] for s in c04.SELS]}
    for kind in ("jonswap", "zero", "double", "ties"):
        yield {"kind": kind, "seqs": [[]] + [[a] for a in SPEC_AFTER]}


def check_successors(case, m):
    """Objects that come and go: a new object at the place of a dropped one, or of a dropped copy, starts from its own data."""
    mk = {"W": lambda j: WaveHeights(np.array([1.0 + ((i + j) * 7) % 5 for i in range(12)]), np.array([4.0 + ((i * (j + 2)) % 9) for i in range(12)])),
          "S": lambda j: Series(ref.axis(48, 0.0, 0.5), ref.waves_like(48, seed=3 + j)),
          "F": lambda j: Spectrum(0.02 + np.arange(40) * 0.0125, ref.jonswap(0.02 + np.arange(40) * 0.0125, 0.1 + 0.03 * j, 1.0 + j, 3.3, False))}[case["cls"]]
    base = {"W": {"h": []}, "S": {"rec": "waves", "n": 1}, "F": {"kind": "zero"}}[case["cls"]]
    qs = queries(base)
    names = [k for k in qs if k == case["op"]] + ([case["op2"]] if case.get("op2") else [])
    want = [[c04.norm(qs[k](mk(j))) for k in names] for j in range(4)]
    keep = [mk(j) for j in range(4)]  # objects at places of their own, asked in between
    for rnd in range(6):
        for j in (0, 1, 2, 3, 1, 0):
            o = mk(j)
            if rnd % 3 == 1:
                o = copy.deepcopy(o)
            elif rnd % 3 == 2:
                o = pickle.loads(pickle.dumps(o))
            for k, w in zip(names, want[j]):
                c04.same(c04.norm(qs[k](o)), w, f"{k} of object {j}, round {rnd}")
                m.step()
            del o
            i = (j + rnd) % 4
            for k, w in zip(names, want[i]):
                c04.same(c04.norm(qs[k](keep[i])), w, f"{k} of the kept object {i}, round {rnd}")
                m.step()
        if rnd == 3:
            gc.collect()
    m.state(case["cls"], case["op"])


def successor_cases(tier):
    for cls, base in (("W", {"h": []}), ("S", {"rec": "waves", "n": 1}), ("F", {"kind": "zero"})):
        for k in queries(base):
            yield {"cls": cls, "op": k}
            for k2 in {"W": ["Hs"], "S": ["Hs", "spec"], "F": ["Tmm10()", "smm10_HF()"]}[cls]:
                yield {"cls": cls, "op": k, "op2": k2}


SPACES = [
    Space("copies", "5 wave lists, 3 records and 4 spectra x histories of 0..2 queries and selections x 10 ways of copying (copy, deepcopy, all pickle protocols, "
          "copies of copies, inside containers) x what one side does next (query, sort, selection, overwriting its arrays): the data held and every query of the other side",
          copy_cases, check, chunk=2),
    Space("other process", "8 objects, saved after each query and selection, loaded and asked everything in a new interpreter", process_cases, check_process, chunk=1, slow=2),
    Space("successors", "every query (alone and with one that others depend on): 36 short-lived objects and copies of 4 data sets, one after another, between long-lived ones",
          successor_cases, check_successors, chunk=4),
]
