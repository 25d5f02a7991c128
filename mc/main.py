"""python -m mc.main <property> <tier>"""
import importlib
import json
import os
import sys

# third-party modules first (with their cached bytecode) ...
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot  # noqa
import numpy  # noqa
import scipy.integrate  # noqa
import scipy.signal  # noqa
import scipy.special  # noqa
import scipy.stats  # noqa

# ... then the code under test, always compiled from the current source (no cached bytecode is read or written)
sys.pycache_prefix = os.path.join(os.environ.get("VERIF_SCRATCH", "/nonexistent"), "pyc")
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))


def main(argv):
    prop, tier = argv[1], (argv[2] if len(argv) > 2 else "quick")
    import deltares_wave_toolbox as dwt

    root = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    if not os.path.realpath(dwt.__file__).startswith(root + os.sep):
        print(f"ERROR: imported {dwt.__file__}, not the tree in {root}")
        return 3
    from mc import core

    if prop == "replay":
        rec = json.load(open(os.environ["VERIF_REPLAY"]))
        mod = importlib.import_module("mc.checks." + rec["property"].lower())
        space = next(s for s in mod.SPACES if s.name == rec["space"])
        r = core.run_case(space, rec["case"], core.Meter())
        print("replay:", rec["property"], rec["space"], core.short(rec["case"]))
        print("holds on this case alone" if r is None else f"{r[0]}: {r[1]}")
        return 0 if r is None else 1
    mod = importlib.import_module("mc.checks." + prop.lower())
    budget = 780 if tier == "quick" else 3600 * 3
    return core.run(prop, mod.SPACES, tier, mod.ASSUMPTIONS, budget)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
