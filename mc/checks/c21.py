"""Coherence: every pair of small complex signals, and long ones, against the definition; bounds, symmetry, scaling."""
import itertools

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, need

from deltares_wave_toolbox.cores.core_spectral import coherence

ASSUMPTIONS = ["band energies between 1e-11 and 1e-9 (around the floor of 1e-10) are not compared with the formula"]
LETTERS = [0, 1, 1j, -2, 1 + 1j, 0.5 - 2j]


def judge(f, X, Y, nb, what, df=None):
    k = len(X) // nb
    fc, c = coherence(f, X, Y) if df is None else coherence(f, X, Y, df)
    close(ref.flat(fc), ref.block_mean(np.asarray(f), nb), what + ": frequencies", rtol=1e-9)
    need(len(c) == k and not np.iscomplexobj(c) and np.isfinite(c).all(), what + ": finite real values")
    c = np.asarray(c)
    need((c >= 0).all() and (c <= 1 + 1e-9).all(), f"{what}: outside [0, 1]: {c[(c < 0) | (c > 1 + 1e-9)]}")
    a = ref.block_mean(np.abs(X) ** 2, nb)
    b = ref.block_mean(np.abs(Y) ** 2, nb)
    x = ref.block_mean(np.abs(X) * np.abs(Y), nb)
    ok = (a > 1e-9) & (b > 1e-9)
    close(c[ok], x[ok] ** 2 / (a[ok] * b[ok]), what, rtol=1e-9, atol=1e-12)
    return c, ok


def check(case, m):
    X = np.array([complex(*v) if isinstance(v, (list, tuple)) else v for v in case["X"]], dtype=complex)
    Y = np.array([complex(*v) if isinstance(v, (list, tuple)) else v for v in case["Y"]], dtype=complex)
    run(X, Y, ref.axis(len(X), 0.0, 0.01), range(1, len(X) + 1), m)


def run(X, Y, f, blocks, m):
    df = f[1] - f[0]
    for nb in blocks:
        what = f"{nb} bins"
        c, ok = judge(f, X, Y, nb, what, nb * df)
        d, _ = judge(f, Y, X, nb, what + " exchanged", nb * df)
        close(d, c, what + ": symmetry", rtol=1e-9, atol=1e-12)
        for z in (3.0, -0.5, 2j, 1e3 - 1e3j, 40.0):
            e, ok2 = judge(f, z * X, Y, nb, what + f" scaled by {z}", nb * df)
            both = ok & ok2
            close(e[both], c[both], what + f": scaled by {z}", rtol=1e-9, atol=1e-12)
            p, okp = judge(f, X, z * X, nb, what + " proportional", nb * df)
            close(p[okp], np.ones(okp.sum()), what + ": proportional signals", rtol=1e-9)
        m.step(12)
        m.state(tuple(np.round(c, 9).tolist())[:8])
    judge(f, X, Y, 1, "default band width")


def words(tier):
    for n in (2, 3):
        L = LETTERS if n == 2 or tier != "quick" else LETTERS[:4]
        for X in itertools.product(L, repeat=n):
            for Y in itertools.product(L, repeat=n):
                yield {"X": [(complex(v).real, complex(v).imag) for v in X], "Y": [(complex(v).real, complex(v).imag) for v in Y]}


def check_long(case, m):
    n = case["n"]
    r = ref.lcg(4 * n, 3)
    X = (r[:n] + 1j * r[n:2 * n]) * case["ax_amp"][0]
    Y = (r[2 * n:3 * n] + 1j * r[3 * n:]) * case["ax_amp"][1]
    if case["gap"]:
        X[n // 4:n // 2] = 0.0
        Y[n // 3:2 * n // 3] = 0.0
    run(X, Y, ref.axis(n, case["f0"], case["df"]), sorted({1, 2, 5, n // 7 + 1, n // 2, n}), m)


SPACES = [
    Space("words", "all pairs of complex signals over 6 letters of length 2, 4 (thorough 6) letters of length 3, every band width, 5 scalings", words, check, chunk=16),
    Space("long", "irregular signals x lengths to 4097 x scales 1e-3..1e6 x bands without energy",
          lambda tier: ({"n": n, "ax_amp": a, "gap": g, "f0": f0, "df": df} for n in (10, 51, 129, 500, 1025, 4097) for a in ((1.0, 1.0), (1e-3, 1e3), (1e6, 1e6), (1e-7, 1.0), (0.0, 1.0))
                        for g in (False, True) for f0, df in ((0.0, 0.01), (0.1, 0.002))), check_long, chunk=1),
]
