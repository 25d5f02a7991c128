"""Plots: every history of queries followed by plots, every option, against the arrays the object holds."""
import itertools
import math
import os
import shutil
import tempfile

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from mc import api, ref
from mc.checks.c05 import spec
from mc.core import Space
from mc.ref import close, fail, need

from deltares_wave_toolbox.cores.core_wavefunctions import compute_BattjesGroenendijk_wave_height_distribution as bg
from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

ASSUMPTIONS = ["a period that another query computed on the way (steepness, default cutoff) may, but need not, have a marker",
               "the probability axis of the plain exceedance plot is only required to rise within [0, 1]",
               "colours, legends, ticks, grid and figure size are free"]


def curves(fig, what):
    need(isinstance(fig, matplotlib.figure.Figure), f"{what}: returned a {type(fig).__name__}, not a figure")
    need(len(fig.axes) == 1, f"{what}: {len(fig.axes)} axes")
    return [(np.array(c.get_xdata(), dtype=float), np.array(c.get_ydata(), dtype=float)) for c in fig.axes[0].lines]


def content(fig):
    return [[(c.get_xydata().tobytes(), c.get_label()) for c in a.lines] + [tuple(p.get_bbox().bounds) for p in a.patches]
            + [a.get_xlabel(), a.get_ylabel(), a.get_title()] for a in fig.axes]


_mine = None


class Desk:
    """The user's open figures: none of them may change, and each plot must bring a new one."""

    def __init__(self):
        global _mine
        self.rc = dict(plt.rcParams)
        if _mine is None or not plt.fignum_exists(_mine.number):
            _mine = plt.figure()
            plt.plot([1.0, 2.0, 3.0], [4.0, 5.0, 7.0])
        plt.figure(_mine.number)
        self.figs = [(_mine, content(_mine))]

    def add(self, fig, what):
        need(isinstance(fig, matplotlib.figure.Figure), f"{what}: returned a {type(fig).__name__}, not a figure")
        for old, c in self.figs:
            need(old is not fig, f"{what}: not a new figure")
            need(content(old) == c, f"{what}: an earlier figure changed")
        self.figs.append((fig, content(fig)))
        return fig

    def done(self, what):
        for i, (old, c) in enumerate(self.figs):
            need(content(old) == c, f"{what}: figure {i} changed afterwards")
        rc = dict(plt.rcParams)
        need(rc == self.rc, f"{what}: matplotlib settings changed: {[k for k in rc if rc[k] != self.rc.get(k)]}")
        for i in plt.get_fignums():
            if i != _mine.number:
                plt.close(i)


def state(o):
    return {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in vars(o).items()}


def unchanged(o, before, what, free=()):
    now = state(o)
    for k, v in before.items():
        if k not in free:
            need(k in now, f"{what}: attribute {k} is gone")
            close(ref.flat(now[k]), ref.flat(v), f"{what}: attribute {k}", rtol=0.0) if isinstance(v, (np.ndarray, float, int)) and not isinstance(v, bool) else \
                need(now[k] == v, f"{what}: attribute {k}")
    extra = set(now) - set(before)
    need(not {k for k in extra if k in ("Tps", "Tmm10", "Tm02", "Hm0", "Tp", "Tm01")}, f"{what}: the plot stored {extra}")


# ---------------------------------------------------------------- spectra
LIM = {"fmin": 0.072, "fmax": 0.331}
PERIODS = ("Tps", "Tmm10", "Tm02")
ASK = {f"{p}{s}": (p, k) for p in PERIODS for s, k in (("()", {}), ("(ab)", LIM))}
ASK.update({"Tp()": ("Tp", {}), "Tm01(ab)": ("Tm01", LIM), "Hm0()": ("Hm0", {}), "s0p(ab)": ("s0p", LIM), "smm10(ab)": ("smm10", LIM),
            "Hm0_HF()": ("Hm0_HF", {}), "Tmm10_LF(a)": ("Tmm10_LF", {"fmin": 0.03}), "smm10_HF()": ("smm10_HF", {})})
INDIRECT = {"s0p(ab)": ("Tps", LIM), "smm10(ab)": ("Tmm10", LIM), "Hm0_HF()": ("Tmm10", {}), "Tmm10_LF(a)": ("Tmm10", {}), "smm10_HF()": ("Tmm10", {})}


def period(f, s, p, kw):
    lo, hi = kw.get("fmin", float(f[0])), kw.get("fmax", float(f[-1]))
    if p == "Tps":
        idx = ref.peak_range(f, s, lo, hi)
        r = ref.tps([f[i] for i in idx], [s[i] for i in idx])
        return None if isinstance(r, tuple) else r
    mom = [ref.moment(f, s, k, lo, hi) for k in (-1, 0, 2)]
    return mom[0] / mom[1] if p == "Tmm10" else math.sqrt(mom[1] / mom[2])


_periods = {}


def want_period(kind, p, kw):
    key = (kind, p, tuple(sorted(kw.items())))
    if key not in _periods:
        f, s = spec(kind)
        v = period(f, s, p, kw)
        _periods[key] = float(getattr(Spectrum(f, s), "get_" + p)(**kw)) if v is None else v
    return _periods[key]


def spectrum_curves(fig, kind, marks, what, on=True):
    f, s = spec(kind)
    lines = curves(fig, what)
    data = [c for c in lines if len(c[0]) == len(f)]
    need(len(data) == 1, f"{what}: {len(data)} density curves")
    close(data[0][0], f, what + ": frequencies", rtol=1e-14)
    close(data[0][1], s, what + ": densities", rtol=1e-14)
    got = []
    for x, y in lines:
        if len(x) != len(f):
            need(len(x) == 2 and x[0] == x[1] and min(y) == 0 and max(y) == max(s), f"{what}: marker {x} {y}")
            got.append(float(x[0]))
    label = {c.get_label(): float(c.get_xdata()[0]) for c in fig.axes[0].lines if len(c.get_xdata()) == 2}
    for p in PERIODS:
        allowed = marks[p] if on else {None}
        here = label.get(p)
        need(any((here is None) if a is None else (here is not None and abs(here * a - 1) < 1e-9) for a in allowed),
             f"{what}: marker {p} at {here}, expected one of {[None if a is None else 1 / a for a in allowed]}")
    need(len(got) == len(label) and set(label) <= set(PERIODS), f"{what}: {len(got)} markers {label}")


def ask(o, kind, op, marks):
    p, kw = ASK[op]
    v = getattr(o, "get_" + p)(**kw)
    if p in PERIODS:
        marks[p] = {want_period(kind, p, kw)}
    elif op in INDIRECT:
        q, kw2 = INDIRECT[op]
        marks[q] = marks[q] | {want_period(kind, q, kw2)}
    return v


def check_history(case, m):
    kind = case["kind"]
    f, s = spec(kind)
    for last in case["last"]:
        desk = Desk()
        o = Spectrum(f, s)
        marks = {p: {None} for p in PERIODS}
        seq = list(case["seq"]) + [last]
        what = f"{kind} {seq}"
        for op in seq:
            if op == "plot":
                before = state(o)
                spectrum_curves(desk.add(o.plot(), what), kind, marks, what)
                unchanged(o, before, what)
            elif op == "other":
                q = Spectrum(f, s * 2)
                q.get_Tmm10(), q.get_Tps()
                desk.add(q.plot(), what)
            else:
                ask(o, kind, op, marks)
        before = state(o)
        spectrum_curves(desk.add(o.plot(), what), kind, marks, what)
        unchanged(o, before, what)
        if len(seq) < 2 or kind == "zero":
            spectrum_curves(desk.add(o.plot(plot_periods=False), what), kind, marks, what + " without periods", False)
        ref.rel(ask(o, kind, "Tps()", marks), want_period(kind, "Tps", {}), what + " Tps afterwards")
        close(o.f, f, what, rtol=0.0), close(o.sVarDens, s, what, rtol=0.0)
        desk.done(what)
        m.step()
        m.state(kind, tuple(sorted((p, tuple(sorted(map(str, v)))) for p, v in marks.items())))


def histories(tier):
    ops = list(ASK) + ["plot", "other"]
    for kind in ("jonswap", "zero") if tier == "quick" else ("jonswap", "zero", "double", "ties"):
        for a in [[]] + [[x] for x in ops]:
            yield {"kind": kind, "seq": a, "last": ops}
    for a, b in itertools.product(ops, repeat=2):
        for kind in ("double",) if tier == "quick" else ("double", "jonswap", "zero"):
            yield {"kind": kind, "seq": [a, b], "last": ops if tier != "quick" else ["Tps()", "Tmm10()", "Tm02()"]}


def check_options(case, m):
    kind = case["kind"]
    f, s = spec(kind)
    before_dir = _scratch()
    try:
        desk = Desk()
        for periods, xlim, lab, save in itertools.product([case["periods"]], (None, [0.0, 0.5], (0.1, 0.3)), (None, "x", "y", "xy"), (None, "a.png", "sub/b.pdf")):
            if save and lab not in (None, "xy"):
                continue
            o = Spectrum(f, s)
            marks = {p: {None} for p in PERIODS}
            ask(o, kind, "Tmm10()", marks), ask(o, kind, "Tps(ab)", marks)
            kw = {}
            if periods is not None:
                kw["plot_periods"] = periods
            if xlim is not None:
                kw["xlim"] = xlim
            if lab and "x" in lab:
                kw["xlabel"] = "my frequency"
            if lab and "y" in lab:
                kw["ylabel"] = "my density"
            if save:
                kw["savepath"] = save
            what = f"{kind} plot({kw})"
            before = state(o)
            with _Folder(before_dir, save, what):
                fig = desk.add(o.plot(**kw), what)
            spectrum_curves(fig, kind, marks, what, periods is not False)
            unchanged(o, before, what)
            ax = fig.axes[0]
            need(ax.get_xlabel() == kw.get("xlabel", "f [$Hz$]") and ax.get_ylabel() == kw.get("ylabel", "S [$m^2/Hz$]"),
                 f"{what}: labels {ax.get_xlabel()!r}, {ax.get_ylabel()!r}")
            if xlim is not None:
                close(ax.get_xlim(), xlim, what + ": extent of the frequency axis")
            else:
                need(ax.get_xlim()[0] <= f[0] and ax.get_xlim()[1] >= f[-1], f"{what}: part of the frequencies is hidden")
            if len(desk.figs) > 12:
                desk.done(what)
                desk = Desk()
            m.step()
        fig = Spectrum(f, s).plot("", False, [0.0, 0.2], "a", "b")
        need((fig.axes[0].get_xlabel(), fig.axes[0].get_ylabel()) == ("a", "b"), "positional labels")
        close(fig.axes[0].get_xlim(), [0.0, 0.2], "positional extent")
        desk.done(kind)
        m.state(kind)
    finally:
        _clean(before_dir)


# ---------------------------------------------------------------- files
def _scratch():
    d = tempfile.mkdtemp(prefix="plots-", dir=os.environ.get("VERIF_SCRATCH"))
    os.makedirs(os.path.join(d, "cwd", "sub"))
    return d


def _clean(d):
    shutil.rmtree(d)


def listing(d):
    return {os.path.relpath(os.path.join(r, x), d): os.path.getsize(os.path.join(r, x)) for r, _, xs in os.walk(d) for x in xs}


class _Folder:
    """Run inside a scratch folder; afterwards exactly the requested file is there (new or replaced)."""

    def __init__(self, d, save, what):
        self.d, self.save, self.what = os.path.join(d, "cwd"), save, what

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)
        if self.save and os.path.exists(self.save):
            open(self.save, "w").write("old")
        self.before = listing(self.d)

    def __exit__(self, *exc):
        after = listing(self.d)
        os.chdir(self.old)
        if exc[0] is None:
            want = set(self.before) | ({os.path.normpath(self.save)} if self.save else set())
            need(set(after) == want, f"{self.what}: files {sorted(after)}, expected {sorted(want)}")
            if self.save:
                need(after[os.path.normpath(self.save)] > 500, f"{self.what}: the file was not written")
                head = open(os.path.join(self.d, self.save), "rb").read(5)
                magic = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml"}[self.save[-3:]]
                need(head.startswith(magic), f"{self.what}: not a {self.save[-3:]} file")
            for k, v in after.items():
                if not self.save or k != os.path.normpath(self.save):
                    need(self.before[k] == v, f"{self.what}: changed {k}")


# ---------------------------------------------------------------- waves
def waves(kind, n):
    h = {"distinct": lambda: 0.2 + np.abs(ref.lcg(n, 4)), "ties": lambda: np.array([1.0 + (i * 5) % 3 for i in range(n)]),
         "zeros": lambda: np.array([float(i * 3 % 4 if i % 3 else 0) for i in range(n)]), "sorted": lambda: np.arange(n, 0, -1.0), "rising": lambda: np.arange(n) + 1.0}[kind]()
    return h, 3.0 + np.abs(ref.lcg(n, 5))


WOPS = {**{k: v for k, v in api.WM.items() if k}}
RAYLEIGH = [dict(normalize=nm, **b) for nm in (False, True) for b in
            ({}, {"plot_BG": True, "water_depth": 1.2, "cota_slope": 60.0, "hm0": 1.0}, {"plot_BG": True, "water_depth": 30.0, "hm0": 2.0},
             {"plot_BG": False, "hm0": 1.0})]


def desc(h):
    return np.array(sorted(h, reverse=True), dtype=float)


def exceedance(fig, h, what):
    c = curves(fig, what)
    need(len(c) == 1, f"{what}: {len(c)} curves")
    close(c[0][0], desc(h), what + ": wave heights", rtol=1e-14)
    p = c[0][1]
    need(len(p) == len(h) and all(np.diff(p) > 0) and (len(p) == 0 or (p[0] >= 0 and p[-1] <= 1)), f"{what}: probabilities {p[:3]}..")


def histogram(fig, h, what):
    need(len(fig.axes) == 1, what)
    bars = [(p.get_x(), p.get_width(), p.get_height()) for p in fig.axes[0].patches]
    need(len(bars) > 0 and abs(sum(b[2] for b in bars) - len(h)) < 1e-9, f"{what}: the bars hold {sum(b[2] for b in bars)} of {len(h)} waves")
    if len(h):
        lo, hi = bars[0][0], bars[-1][0] + bars[-1][1]
        need(lo <= min(h) + 1e-9 and hi >= max(h) - 1e-9, f"{what}: bars over {lo}..{hi}")
        for i, (x, w, c) in enumerate(bars):
            eps = 1e-9 * (hi - lo)
            inside = sum(1 for v in h if x + eps < v < x + w - eps)
            near = sum(1 for v in h if x - eps <= v <= x + w + eps)
            need(inside <= c <= near, f"{what}: bar {i} counts {c} waves, expected {inside}..{near}")


def rayleigh(fig, h, kw, what):
    n = len(h)
    lines = {c.get_label(): (np.array(c.get_xdata(), float), np.array(c.get_ydata(), float)) for c in fig.axes[0].lines}
    hb, pb = bg(kw["hm0"], n, kw["water_depth"], cota_slope=kw.get("cota_slope", 250.0)) if kw.get("plot_BG") else ((), ())
    need(len(fig.axes[0].lines) == len(lines), f"{what}: curves {sorted(lines)}")
    need(len(lines) in ((2, 3) if np.size(hb) == 0 and kw.get("plot_BG") else (3,) if np.size(hb) else (2,)), f"{what}: curves {sorted(lines)}")
    hs = float(np.mean(desc(h)[:max(int(math.floor(n / 3 + 1e-9)), 1)])) if n else 0.0
    hs_obj = float(WaveHeights(np.array(h), np.ones(n)).get_Hs()[0])
    if n >= 3:
        ref.rel(hs_obj, hs, what + " Hs")
    div = hs_obj if kw.get("normalize") else 1.0
    axisx = np.array([math.sqrt(abs(math.log((i + 1) / n))) for i in range(n)])
    x, y = lines["Wave height distribution"]
    close(y, desc(h) / div, what + ": wave heights", rtol=1e-12)
    close(x, axisx, what + ": exceedance axis", rtol=1e-9)
    x, y = lines["Theoretical Rayleigh distribution"]
    h2 = hs_obj * math.sqrt(-math.log(0.02) / 2)
    close(y, np.array([h2 * math.sqrt(math.log((i + 1) / (n + 1)) / math.log(0.02)) for i in range(n)]) / div, what + ": Rayleigh", rtol=1e-9)
    close(x, axisx, what + ": exceedance axis", rtol=1e-9)
    if np.size(hb):  # far from the bottom the distribution is Rayleigh's and there is no other curve
        x, y = lines["Battjes & Groenendijk (2000) distribution"]
        close(y, np.asarray(hb) / div, what + ": Battjes-Groenendijk", rtol=1e-9)
        close(x, [math.sqrt(abs(math.log(p))) for p in pb], what + ": Battjes-Groenendijk axis", rtol=1e-6, atol=1e-6)


WP = ["plot_exc", "plot_hist", "plot_R0", "plot_R1", "plot_Rbad"]


def wave_plot(o, h, op, desk, what, files=None):
    before = state(o)
    if op == "plot_exc":
        exceedance(desk.add(o.plot_exceedance_waveheight(), what), h, what)
    elif op == "plot_hist":
        histogram(desk.add(o.plot_hist_waveheight(), what), h, what)
    elif op == "plot_Rbad":
        try:
            o.plot_exceedance_waveheight_Rayleigh(plot_BG=True, water_depth=2.0)
        except ValueError:
            pass
        else:
            fail(f"{what}: Battjes-Groenendijk plotted without Hm0")
    else:
        kw = RAYLEIGH[int(op[6:])]
        rayleigh(desk.add(o.plot_exceedance_waveheight_Rayleigh(**kw), what), h, kw, what)
    unchanged(o, before, what, ("hwave", "twave"))


def pairs_of(o):
    return sorted(zip(np.asarray(o.hwave).tolist(), np.asarray(o.twave).tolist()))


def check_waves(case, m):
    n = case["n"]
    h, T = waves(case["kind"], n)
    t, x = ref.axis(max(n, 4) * 6, 0.0, 0.5), ref.waves_like(max(n, 4) * 6, seed=n)
    for cls in case["cls"]:
        for last in case["last"]:
            desk = Desk()
            o = WaveHeights(h, T) if cls == "WaveHeights" else Series(t, x)
            hh = np.array(o.hwave)
            if len(hh) < 3:
                continue
            start = pairs_of(o)
            seq = case["seq"] + [last]
            what = f"{cls} {case['kind']} n={n} {seq}"
            for op in seq:
                if op in WP or op.startswith("plot_R"):
                    wave_plot(o, hh, op, desk, what)
                elif op == "plot":
                    if cls == "Series":
                        series_curves(desk.add(o.plot(plot_crossing=True), what), t, x, ref.crossings(t, x, True), what)
                else:
                    WOPS[op](o)
            close(np.array(pairs_of(o)), np.array(start), what + ": waves after plots", rtol=0.0)
            hs = ref.scalar(o.get_Hs()[0], what)
            ref.rel(hs, float(np.mean(desc(hh)[:len(hh) // 3])), what + " Hs afterwards")
            ref.rel(o.get_Hmax(), float(max(hh)), what + " Hmax afterwards")
            desk.done(what)
            m.step()
        m.state(case["kind"], n, cls, len(case["seq"]))


def wave_cases(tier):
    allp = ["plot_exc", "plot_hist", "plot_Rbad", "plot"] + [f"plot_R{i}" for i in range(len(RAYLEIGH))]
    some = ["plot_exc", "plot_hist", "plot_R0", "plot_R1", "plot_R5", "plot_Rbad", "plot"]
    for n in (3, 4, 5, 9, 10, 29, 30, 31, 100) + (() if tier == "quick" else (6, 7, 8, 11, 12, 50, 101, 333)):
        for kind in ("distinct", "ties", "sorted", "rising", "zeros"):
            for a in [[]] + ([[p] for p in some] if n == 5 or tier != "quick" else []):
                yield {"n": n, "kind": kind, "seq": a, "last": allp, "cls": ["WaveHeights"]}
    for n in (8, 25) + (() if tier == "quick" else (60,)):
        for a in [[]] + [[p] for p in some + ["sort", "Hs", "exc", "highest"]]:
            yield {"n": n, "kind": "distinct", "seq": a, "last": allp, "cls": ["Series", "WaveHeights"]}
    few = ["plot_exc", "plot_hist", "plot_R0", "plot_R5"]
    for a, b in itertools.product(few + ["sort", "Hs"], repeat=2):
        yield {"n": 7, "kind": "distinct", "seq": [a, b], "last": few, "cls": ["WaveHeights"]}


# ---------------------------------------------------------------- series
def series_curves(fig, t, x, tc, what):
    c = curves(fig, what)
    need(len(c) == (1 if tc is None else 2), f"{what}: {len(c)} curves")
    close(c[0][0], t, what + ": times", rtol=1e-14), close(c[0][1], x, what + ": samples", rtol=1e-14)
    if tc is not None:
        close(ref.flat(c[1][0]), np.array(tc), what + ": crossings", rtol=1e-9)
        close(ref.flat(c[1][1]), np.zeros(len(tc)), what + ": crossings are at zero", rtol=0.0)


def check_series(case, m):
    n, t0 = case["n"], case["t0"]
    t = ref.axis(n, t0, 0.5)
    x = {"waves": lambda: ref.waves_like(n), "none": lambda: 3.0 + ref.lcg(n, 2), "one": lambda: np.where(np.arange(n) < n // 2, 1.0, -1.0),
         "steps": lambda: np.array([[1.0, 1.0, -1.0, 0.0, -2.0][i % 5] for i in range(n)])}[case["kind"]]()
    d = _scratch()
    try:
        desk = Desk()
        down, up = ref.crossings(t, x, True), ref.crossings(t, x, False)
        for seq in ([], ["down"], ["up"], ["waves_up"], ["waves_up", "up", "down"], ["spec"], ["band"], ["Wsort"], ["down", "waves_up"]):
            for kw in ({}, {"plot_crossing": True}, {"plot_crossing": False}, {"savepath": "s.png"} if not seq else {}, {"savepath": "sub/s.svg", "plot_crossing": True} if seq == ["up"] else {}):
                o = Series(t, x)
                tc = down
                for op in seq:
                    try:
                        {**api.SM, "Wsort": api.WM["sort"]}[op](o)
                    except Exception:
                        pass  # the record is too short for this query
                    if op == "waves_up":
                        tc = up
                what = f"{case['kind']} n={n} {seq} plot({kw})"
                before = state(o)
                with _Folder(d, kw.get("savepath"), what):
                    fig = desk.add(o.plot(**kw), what)
                series_curves(fig, t, x, tc if kw.get("plot_crossing") else None, what)
                unchanged(o, before, what)
                m.step()
        desk.done(case["kind"])
        m.state(n, case["kind"], t0)
    finally:
        _clean(d)


def check_files(case, m):
    h, T = waves("distinct", 20)
    d = _scratch()
    try:
        for ext in [case["ext"]]:
            for path in (f"a.{ext}", f"sub/b c.{ext}", os.path.join(d, "cwd", f"abs.{ext}")):
                rel = os.path.relpath(path, os.path.join(d, "cwd")) if os.path.isabs(path) else path
                for what, call in (("exceedance", lambda p: WaveHeights(h, T).plot_exceedance_waveheight(p)),
                                   ("Rayleigh", lambda p: WaveHeights(h, T).plot_exceedance_waveheight_Rayleigh(p, True)),
                                   ("histogram", lambda p: WaveHeights(h, T).plot_hist_waveheight(savepath=p)),
                                   ("series", lambda p: Series(np.arange(50) * 0.5, ref.waves_like(50)).plot(p, True)),
                                   ("spectrum", lambda p: Spectrum(*spec("jonswap")).plot(p))):
                    for save in (rel, None):
                        with _Folder(d, save, f"{what} plot saved as {save}"):
                            plt.close(call(path) if save else call(""))
                        m.step()
        m.state("files")
    finally:
        _clean(d)


def series_cases(tier):
    for n in (4, 17, 60, 1025, 12001) if tier == "quick" else (4, 5, 6, 7, 8, 9, 17, 33, 60, 200, 1025, 12001, 100001):
        for k in ("waves", "none", "one", "steps"):
            for t0 in (0.0, -7.0):
                yield {"n": n, "kind": k, "t0": t0}


SPACES = [
    Space("files", "5 plots x 3 formats x 3 kinds of path: exactly the requested file", lambda tier: [{"ext": e} for e in ("png", "pdf", "svg")], check_files, chunk=1),
    Space("spectrum histories", "all sequences of 1 and 2 of 16 operations (period queries with and without limits, indirect queries, plots of this and another object) on 2 "
          "spectra, of 3 on one spectrum; then the plot with and without periods", histories, check_history, chunk=1),
    Space("spectrum options", "3 x 3 x 4 x 3 plot options on 4 spectra", lambda tier: ({"kind": k, "periods": p} for k in ("jonswap", "zero", "double", "ties") for p in (None, True, False)), check_options, chunk=1),
    Space("wave plots", "9 numbers of waves x 4 lists x 12 plots, all pairs and triples of plots and queries on WaveHeights and Series", wave_cases, check_waves, chunk=2),
    Space("series plots", "records of 4..60 samples x 4 kinds x 2 origins x 9 histories x options", series_cases, check_series, chunk=1),
]
