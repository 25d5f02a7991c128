"""Segment-averaged spectrum against an independent implementation, all small segmentations, short records, windows."""
import itertools

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import Violation, close, need

from deltares_wave_toolbox.cores.core_spectral import compute_spectrum_welch_wrapper
from deltares_wave_toolbox.series import Series

ASSUMPTIONS = ["half a segment of odd length may be rounded either way (by the Series method)",
               "desired resolutions give a segment length at least 0.1 sample away from a rounding boundary"]
AXES = [(0.0, 1.0), (0.0, 0.1), (-5.0, 0.25), (1e4, 0.5), (0.0, 3600.0), (2.0, 1 / 3), (0.0, 0.0007)]


def rec(n, kind):
    return {"lcg": lambda: ref.lcg(n, 7), "waves": lambda: ref.waves_like(n), "offset": lambda: ref.waves_like(n) + 50.0,
            "step": lambda: np.where(np.arange(n) < n // 2, 1.0, -2.0)}[kind]()


def judge(got, want, what, x):
    close(got[0], want[0], what + ": frequencies", rtol=1e-7)
    sc = np.max(want[1]) if len(want[1]) else 0.0
    close(got[1], want[1], what + ": density", rtol=1e-7, scale=sc + 1e-13 * float(np.max(np.abs(x))) ** 2)
    need((np.asarray(got[1]) >= 0).all(), what + ": negative density")


def either(got, wants, what, x):
    err = None
    for w in wants:
        try:
            return judge(got, w, what, x)
        except Violation as e:
            err = err or e
    raise err


def check_opts(case, m):
    n, ax = case["n"], case["ax"]
    x = rec(n, case["kind"])
    t = ref.axis(n, *ax)
    dt = ax[1]
    for (p, o, nf, win) in options(n, case["full"]):
        pe = p or min(256, n)
        oe = o or pe // 2
        want = ref.welch(x, dt, pe, oe, nf or pe, win)
        what = f"nperseg={p} noverlap={o} nfft={nf} {win}"
        judge(compute_spectrum_welch_wrapper(x, dt, p, o, nf, win), want, what, x)
        s = Series(t, x).get_spectrum(nperseg=p, noverlap=o, nfft=nf, windows_type=win, use_dfDesired=False)
        judge((s.f, s.sVarDens), want, "Series " + what, x)
        m.step(2)
        m.state(n, p, o, nf, win)
    # the mean does not matter
    a, b = compute_spectrum_welch_wrapper(x, dt, min(n, 8)), compute_spectrum_welch_wrapper(x + 3.0, dt, min(n, 8))
    close(b[1], a[1], "density after adding a mean", rtol=1e-9, scale=float(np.max(a[1])) + 1e-9)
    judge(compute_spectrum_welch_wrapper(x, dt), ref.welch(x, dt, min(256, n), min(256, n) // 2, min(256, n), "hann"), "defaults", x)
    m.step(3)


def options(n, full):
    ps = range(2, n + 1) if full else sorted({p for p in (2, 3, 8, 15, 16, 50, 64, 101, 256, n // 2, n - 1, n) if 2 <= p <= n})
    for p in ps:
        for o in range(0, p) if full and n <= 8 else sorted({o for o in (0, 1, p // 3, p // 2, p - 1) if 0 <= o < p}):
            yield p, o, 0, "hann"
        for nf in (p, p + 1, 2 * p, 2 * p + 3):
            yield p, 0, nf, "hann"
        for win in ("hamming", "boxcar", "blackman"):
            yield p, min(1, p - 1), 0, win
    yield 0, 0, 0, "hann"
    yield 0, 0, 0, "boxcar"


def opt_cases(tier):
    for n in range(4, 17 if tier == "quick" else 33):
        for kind in ("lcg", "offset"):
            yield {"n": n, "kind": kind, "ax": AXES[n % len(AXES)], "full": True}
    for n in (33, 64, 100, 101, 255, 256, 257, 300, 600, 1000, 1025) + (() if tier == "quick" else (2000, 4099)):
        for kind in ("lcg", "waves", "offset", "step"):
            yield {"n": n, "kind": kind, "ax": AXES[n % len(AXES)], "full": False}


def check_df(case, m):
    n, ax, df = case["n"], case["ax"], case["df"]
    x = rec(n, case["kind"])
    t = ref.axis(n, *ax)
    dt = ax[1]
    raw = 1 / dt / df
    if abs(raw - np.floor(raw) - 0.5) < 0.1 or round(raw) < 2:
        return
    p = min(int(round(raw)), n)
    kw = {} if df == 0.01 else {"dfDesired": df}
    for nf in (0, p + 5):
        for win in ("hann", "boxcar"):
            s = Series(t, x).get_spectrum(nfft=nf, windows_type=win, **kw) if (nf, win) != (0, "hann") else Series(t, x).get_spectrum(**kw)
            wants = [ref.welch(x, dt, p, o, nf or p, win) for o in ({p // 2, (p + 1) // 2} if p > 1 else {0}) if o < p]
            either((s.f, s.sVarDens), wants, f"n={n} df={df} nfft={nf} {win} (segments of {p})", x)
            m.step()
    # the other segment options have no effect when the resolution is given
    s = Series(t, x).get_spectrum(nperseg=5, noverlap=1, dfDesired=df)
    either((s.f, s.sVarDens), [ref.welch(x, dt, p, o, p, "hann") for o in {p // 2, (p + 1) // 2} if o < p], f"df={df} overrides", x)
    m.step()
    m.state(n, p)


def df_cases(tier):
    for n in list(range(2, 31)) + [50, 99, 100, 101, 150, 199, 200, 201, 500, 1000, 1001, 1500, 2500, 5000]:
        for ax in AXES:
            for df in (0.01, 0.05, 0.1, 0.02, 0.013, 0.4):
                for kind in ("lcg", "offset"):
                    yield {"n": n, "kind": kind, "ax": ax, "df": df}


def check_whole(case, m):
    """A finer resolution than the record allows: one segment, the whole record, whatever its length; and the default segment."""
    n, ax = case["n"], case["ax"]
    x = rec(n, case["kind"])
    s = Series(ref.axis(n, *ax), x)
    for df in (min(1e-7, 0.1 / (n * ax[1])), 0.5 / (n * ax[1]), 0.9 / (n * ax[1])):
        got = s.get_spectrum(dfDesired=df)
        either((got.f, got.sVarDens), [ref.welch(x, ax[1], n, o, n, "hann") for o in {n // 2, (n + 1) // 2}], f"n={n} df={df} (whole record)", x)
        m.step()
    if n >= 256:
        got = s.get_spectrum(use_dfDesired=False)
        judge((got.f, got.sVarDens), ref.welch(x, ax[1], 256, 128, 256, "hann"), f"n={n}: default segments", x)
        m.step()
    m.state(n)


SPACES = [
    Space("whole record", "resolutions finer than 1/T: lengths 4..40 and to 50001, 2 kinds; default segments of 256",
          lambda tier: ({"n": n, "kind": k, "ax": AXES[n % len(AXES)]} for n in list(range(4, 41)) + [255, 256, 257, 999, 1000, 2047, 4001, 4097, 8191, 10001, 20000, 30011, 50001] for k in ("lcg", "offset")),
          check_whole, chunk=1),
    Space("segments", "every segment length, overlap, transform length and 4 windows for records of 4..16 samples (thorough 32), selected to 1025 (4099)",
          opt_cases, check_opts, chunk=1),
    Space("resolution", "desired resolution: 6 values x 7 axes x record lengths 2..30 and to 5000", df_cases, check_df, chunk=4),
]
