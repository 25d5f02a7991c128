"""Variance conservation: density against Fourier moduli, trapezoid sum against mean square, both routes, averaging."""
import itertools

import numpy as np
from mc import ref
from mc.checks.c06 import AXES, KINDS, ftol, rec
from mc.core import Space
from mc.ref import close, need

from deltares_wave_toolbox.cores import core_spectral as cs
from deltares_wave_toolbox.series import Series

ASSUMPTIONS = ["desired resolutions are a whole number of bins +- 0.3 bin, so that rounding is unambiguous",
               "densities are compared to 1e-9 of the largest density of the record"]


def check(case, m):
    x = rec(case)
    n = len(x)
    dt = case["ax"][1]
    t = ref.axis(n, *case["ax"])
    rt = 1e-9 + 10 * ftol(t)
    f0, S0 = ref.density(x, dt)
    top = 2 * dt * np.sum(x * x) + 1e-300  # bound on any density: 2 dt/n |X|^2 <= 2 dt sum x^2
    top = max(np.max(S0), 1e-13 * top)
    f, S = cs.compute_spectrum_time_series(t, x)
    close(f, f0, "frequencies", rtol=rt)
    close(S, S0, "density", rtol=rt, scale=top)
    need(not np.iscomplexobj(S) and (np.asarray(S) >= 0).all(), "negative (or complex) density")
    # variance: zero and Nyquist frequency count half
    w = np.full(len(S), 1.0)
    w[0] = 0.5
    if n % 2 == 0:
        w[-1] = 0.5
    ms = float(np.mean(x * x))
    need(abs(np.sum(w * S) / (n * dt) - ms) <= rt * ms + 1e-300,
         lambda: f"variance of the spectrum {np.sum(w * S) / (n * dt)!r}, mean square of the record {ms!r}")
    m.step()
    X = ref.dft(x)[:ref.nfold(n)]
    g, Q = cs.compute_spectrum_freq_series(f0, X, n)
    close(g, f0, "frequencies (from components)", rtol=rt)
    close(Q, S0, "density (from components)", rtol=rt, scale=top)
    m.step()
    for nb in case["blocks"]:
        for off in (0.0, -0.3, 0.3):
            df = (nb + (off if nb > 1 or off > -0.3 else 0.0)) / (n * dt)
            fb, Sb = ref.block_mean(f0, nb), ref.block_mean(S0, nb)
            for what, (a, b) in (("time route", cs.compute_spectrum_time_series(t, x, df)),
                                 ("component route", cs.compute_spectrum_freq_series(f0, X, n, df))):
                close(a, fb, f"{what}: averaged frequencies, {nb} bins", rtol=rt)
                close(b, Sb, f"{what}: averaged density, {nb} bins", rtol=rt, scale=top)
                m.step()
            if n >= 3 and len(fb) >= 2:
                s = Series(t, x).get_spectrum_raw(df)
                close(s.f, fb, f"Series.get_spectrum_raw: frequencies, {nb} bins", rtol=rt)
                close(s.sVarDens, Sb, f"Series.get_spectrum_raw: density, {nb} bins", rtol=rt, scale=top)
                m.step()
    m.state(n, str(case.get("kind", case.get("x"))))


def small(tier):
    for n in range(2, 25 if tier == "quick" else 61):
        for j in range(n):
            yield {"n": n, "kind": j, "ax": AXES[(n + j) % 7], "blocks": list(range(1, ref.nfold(n) + 1))[:: 1 if n < 14 else 3]}
    for n in range(2, 7 if tier == "quick" else 9):
        for w in itertools.product((-1.0, 0.0, 2.0), repeat=n):
            yield {"n": n, "x": list(w), "ax": AXES[n % 3], "blocks": [1, 2]}


def lengths(tier):
    for n in list(range(2, 101 if tier == "quick" else 515)):
        for k in KINDS:
            yield {"n": n, "kind": k, "ax": AXES[n % 7], "blocks": sorted({1, 2, 3, 1 + n // 8, 1 + n // 3, ref.nfold(n)})}
    for n in (256, 257, 500, 601, 1000, 1001, 1024, 2000, 4096, 4099, 10007):
        for k in ("lcg", "waves", "offset"):
            for ax in AXES[:5] if n < 1500 else AXES[1:3]:
                yield {"n": n, "kind": k, "ax": ax, "blocks": [1, 2, 7, 10]}
    for n in (16, 101):
        for amp in (1e-9, 1e-5, 1e6):
            for ax in AXES:
                yield {"n": n, "kind": "lcg", "amp": amp, "ax": ax, "blocks": [1, 4]}


def check_part(case, m):
    """Densities of a part of the Fourier components (a low-passed or band-passed set): N is that of the record."""
    x = rec(case)
    n = len(x)
    dt = case["ax"][1]
    f0, S0 = ref.density(x, dt)
    X = ref.dft(x)[:ref.nfold(n)]
    top = max(np.max(S0), 2e-13 * dt * np.sum(x * x) + 1e-300)
    k = len(f0)
    for a in case["lo"]:
        for b in range(a + 2, k + 1, max(1, k // 12)):
            g, Q = cs.compute_spectrum_freq_series(f0[a:b], X[a:b], n)
            close(g, f0[a:b], f"frequencies {a}..{b}", rtol=1e-9)
            close(Q, S0[a:b], f"density from components {a}..{b} of {k}", rtol=1e-9, scale=top)
            m.step()
    m.state(n, case["kind"])


def check_range(case, m):
    """A large component and very small ones: the small ones keep their own density."""
    n, dt, a = case["n"], case["dt"], case["a"]
    i = np.arange(n)
    top = (n - 1) // 2
    for big in case["big"]:
        small = sorted({1, 2, top // 2, top - 1, top} - {big, 0})
        x = 3.0 * np.cos(2 * np.pi * ((big * i) % n) / n + 0.4)
        amp = np.zeros(ref.nfold(n))
        amp[big] = 3.0
        for j, k in enumerate(small):
            x = x + a * (j + 1) * np.cos(2 * np.pi * ((k * i) % n) / n - 0.3 * j)
            amp[k] = a * (j + 1)
        t = ref.axis(n, case["t0"], dt)
        want = amp * np.sqrt(n * dt / 2)
        for nb in (1, 2):
            for what, (f, S) in (("record", cs.compute_spectrum_time_series(t, x, nb / (n * dt))),
                                 ("components", cs.compute_spectrum_freq_series(np.arange(ref.nfold(n)) / (n * dt), np.fft.fft(x)[:ref.nfold(n)], n, nb / (n * dt)))):
                w = np.sqrt(ref.block_mean(want**2, nb))
                close(np.sqrt(S), w, f"root of the density from the {what}, {nb} bins, components {a:g} below {big}", rtol=1e-9, atol=2e-13 * float(np.max(want)))
                m.step()
    m.state(n, a)


SPACES = [
    Space("dynamic range", "one large component at 4 places and five others 1e-2, 1e-6, 1e-10 times as large; 10 lengths, density from the record and from the components",
          lambda tier: ({"n": n, "dt": dt, "a": a, "t0": t0, "big": sorted({1, 3, n // 4, (n - 1) // 2})} for n in (16, 17, 30, 64, 101, 256, 500, 1001, 2048, 4097)
                        for a in (1e-2, 1e-6, 1e-10) for dt, t0 in ((0.1, 0.0), (1.0, -20.0))), check_range, chunk=2),
    Space("part of the components", "3 record kinds x every length 4..40 and 100, 101, 500 x every part of the Fourier axis from its first, "
          "second, third and middle frequency", lambda tier: ({"n": n, "kind": k, "ax": AXES[n % 3], "lo": sorted({0, 1, 2, ref.nfold(n) // 2 - 1} - {-1})}
          for n in list(range(4, 41)) + [100, 101, 500] for k in ("lcg", "waves", "offset")), check_part, chunk=4),
    Space("basis and words", "every unit impulse of every length 2..24 (thorough 60) x block sizes; all records over {-1,0,2} of length 2..6 (8)", small, check),
    Space("lengths", "7 record kinds x every length 2..100 (thorough 514) and 11 up to 10007 x 3-6 block sizes x rounding of the resolution", lengths, check, chunk=2),
]
