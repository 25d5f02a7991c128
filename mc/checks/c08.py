"""Band averaging against exact block means, on every basis density, block size and length."""
import itertools

import numpy as np
from mc import ref
from mc.core import Space
from mc.ref import close, need

from deltares_wave_toolbox.cores import core_spectral as cs

ASSUMPTIONS = ["the ratio of desired resolution and spacing is a whole number +- 0.4, so that rounding is unambiguous"]
FAX = [(0.0, 0.01), (0.05, 0.01), (0.0, 1 / 3), (2.0, 0.125), (0.0, 1e-4), (1e3, 5.0)]


def check(case, m):
    n, nb = case["n"], case["nb"]
    f = ref.axis(n, *case["ax"])
    df = case["ax"][1]
    if "s" in case:
        s = np.array(case["s"], dtype=case.get("dtype", "float64"))
    elif isinstance(case["kind"], int):
        s = np.zeros(n)
        s[case["kind"]] = 1.0
    else:
        s = {"lcg": lambda: np.abs(ref.lcg(n, 2)), "big": lambda: 1e9 * (1 + ref.lcg(n, 3)), "small": lambda: 1e-12 * (1.5 + ref.lcg(n, 4)),
             "ramp": lambda: np.arange(n) * 1.0, "int": lambda: (np.arange(n) * 7) % 10, "neg": lambda: ref.lcg(n, 6)}[case["kind"]]()
    fw, sw = ref.block_mean(f, nb), ref.block_mean(s.astype(float), nb)
    sc = float(np.max(np.abs(s.astype(float)))) + 1e-300
    fs = float(np.max(np.abs(f)))
    wanted = [nb * df] + ([(nb - 0.4) * df] if nb > 1 else [0.05 * df, 0.6 * df]) + [(nb + 0.4) * df] + ([None, 0.0] if nb == 1 else [])
    for d in wanted:
        a, b = cs.frequency_averaging(f, s) if d is None else cs.frequency_averaging(f, s, d)
        close(ref.flat(a), fw, f"frequencies for {nb} bins (desired {d})", rtol=1e-10, scale=fs)
        close(ref.flat(b), sw, f"densities for {nb} bins (desired {d})", rtol=1e-6 if s.dtype == np.float32 else 1e-10, scale=sc)
        if len(sw):
            need(np.min(b) >= np.min(s) - 1e-6 * sc and np.max(b) <= np.max(s) + 1e-6 * sc, "averages outside the range of the input")
            e = float(np.sum(s[:len(sw) * nb].astype(float)))
            need(abs(float(np.sum(b)) * nb - e) <= (1e-6 if s.dtype == np.float32 else 1e-9) * sc * n, "energy of the complete blocks not conserved")
        m.step()
    m.state(n, nb)


def small(tier):
    for n in range(2, 14 if tier == "quick" else 25):
        for nb in range(1, n + 2):
            for j in range(n):
                yield {"n": n, "nb": nb, "kind": j, "ax": FAX[(n + nb) % 6]}
    for n in range(2, 6):
        for w in itertools.product((0, 1, 3), repeat=n):
            for nb in range(1, n + 1):
                for dtype in ("float64", "int64", "float32"):
                    yield {"n": n, "nb": nb, "s": list(w), "ax": FAX[nb % 6], "dtype": dtype}


def lengths(tier):
    for n in list(range(2, 66 if tier == "quick" else 200)) + [100, 101, 127, 128, 255, 256, 500, 1000, 1023, 1024, 4096, 5000, 10007, 65536, 70001]:
        nbs = range(1, n + 2) if n < (34 if tier == "quick" else 130) else sorted({1, 2, 3, 5, 10, 16, 64, 100, n // 3, n // 2 - 1, n // 2, n // 2 + 1, n - 1, n, n + 1})
        for nb in nbs:
            for i, k in enumerate(("lcg", "big", "small", "ramp", "int", "neg")):
                if nb > 0:
                    yield {"n": n, "nb": nb, "kind": k, "ax": FAX[(n + i) % 6]}


def check_complex(case, m):
    """Cross-spectra: the same averages of real and imaginary part."""
    n, nb = case["n"], case["nb"]
    f = ref.axis(n, *case["ax"])
    s = ref.lcg(n, 8) + 1j * ref.lcg(n, 9)
    a, b = cs.frequency_averaging(f, s, nb * case["ax"][1])
    close(ref.flat(a), ref.block_mean(f, nb), f"frequencies for {nb} bins", rtol=1e-10, scale=float(np.max(np.abs(f))))
    close(np.real(b), ref.block_mean(s.real, nb), f"real part for {nb} bins", rtol=1e-10, scale=1.0)
    close(np.imag(b), ref.block_mean(s.imag, nb), f"imaginary part for {nb} bins", rtol=1e-10, scale=1.0)
    m.step()
    m.state(n, nb)


SPACES = [
    Space("complex", "complex densities (cross-spectra) x every length 2..40 x every block size",
          lambda tier: ({"n": n, "nb": nb, "ax": FAX[n % 6]} for n in range(2, 41) for nb in range(1, n + 1)), check_complex, chunk=16),
    Space("basis", "every unit density of every length 2..13 (thorough 24) x every block size up to n+1; all integer/float densities over {0,1,3} of length 2..5",
          small, check),
    Space("lengths", "6 density kinds x lengths 2..65 and selected up to 70001 x block sizes x 6 axes x rounding of the resolution", lengths, check, chunk=8),
]
