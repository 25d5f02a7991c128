"""Reference models: written from the properties, sharing no code with /repo (plain loops, closed forms, or numpy
primitives used differently from the implementation)."""
import bisect
import math

import numpy as np
from mc.core import Violation

G = 9.81


# ---------------------------------------------------------------- comparisons
def fail(msg):
    raise Violation(msg)


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(got, want, what, rtol=1e-9, atol=0.0, scale=None):
    """Compare arrays/numbers to a tolerance relative to the largest wanted magnitude (or to `scale`)."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    if g.size == 0:
        return
    if g.dtype == object:
        raise Violation(f"{what}: not a numeric result ({type(got).__name__})")
    if g.dtype == bool:
        g = g.astype(int)
    if w.dtype == bool:
        w = w.astype(int)
    gn, wn = np.isnan(g), np.isnan(w)
    if (gn != wn).any():
        i = int(np.flatnonzero((gn != wn).ravel())[0])
        raise Violation(f"{what}: element {i} is {g.ravel()[i]!r}, expected {w.ravel()[i]!r}")
    ok = ~wn
    inf = ok & np.isinf(w)
    if (g[inf] != w[inf]).any():
        raise Violation(f"{what}: infinite values differ")
    ok &= ~inf
    if not ok.any():
        return
    s = float(np.max(np.abs(w[ok]))) if scale is None else float(scale)
    d = np.abs(g - w)
    d = np.where(ok, d, 0)
    tol = atol + rtol * s
    if not (d <= tol).all():
        i = int(np.argmax(np.where(d <= tol, -1, d).ravel()))
        raise Violation(f"{what}: element {i} is {g.ravel()[i]!r}, expected {w.ravel()[i]!r} (tolerance {tol:.3g})")


def scalar(x, what):
    """The result must be one number."""
    a = np.asarray(x)
    if a.size != 1:
        raise Violation(f"{what}: expected one number, got shape {a.shape}")
    return a.ravel()[0]


def rel(got, want, what, rtol=1e-9, atol=0.0):
    g = scalar(got, what)
    if isinstance(want, float) and math.isnan(want):
        need(np.isnan(g), lambda: f"{what}: got {g!r}, expected nan")
        return
    if math.isinf(want):
        need(g == want, lambda: f"{what}: got {g!r}, expected {want!r}")
        return
    if not (abs(g - want) <= rtol * abs(want) + atol):
        raise Violation(f"{what}: got {g!r}, expected {want!r}")


def flat(x):
    """1D view of a result ('no waves' may come as an array of shape (0, 0))."""
    a = np.asarray(x)
    return a.reshape(-1) if a.size == 0 else a


# ---------------------------------------------------------------- signals
def lcg(n, seed=1):
    """A fixed, aperiodic, deterministic sequence in [-1, 1)."""
    x = (seed * 2654435761 + 12345) % (1 << 32)
    out = np.empty(n)
    for i in range(n):
        x = (1664525 * x + 1013904223) % (1 << 32)
        out[i] = x / 2.0**31 - 1.0
    return out


def axis(n, t0=0.0, dt=1.0):
    return t0 + np.arange(n) * dt


def debruijn(alphabet, order):
    """de Bruijn sequence: contains every word of length `order` exactly once (linearised)."""
    k = len(alphabet)
    a = [0] * k * order
    seq = []

    def db(t, p):
        if t > order:
            if order % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    seq += seq[:order - 1]
    return np.array([alphabet[i] for i in seq], dtype=float)


def waves_like(n, dt=1.0, seed=3):
    """A record that looks like waves: a fixed sum of incommensurate cosines plus a small aperiodic part."""
    t = np.arange(n) * dt
    x = np.zeros(n)
    for j, (p, a) in enumerate([(7.3, 1.0), (11.1, 0.6), (4.7, 0.35), (23.9, 0.2)]):
        x += a * np.cos(2 * np.pi * t / (p * dt) + 0.7 * j + 0.1 * seed)
    return x + 0.05 * lcg(n, seed)


# ---------------------------------------------------------------- zero crossings and waves
def crossings(t, x, down):
    """Two-state automaton over the samples."""
    out = []
    for i in range(len(x) - 1):
        a, b = float(x[i]), float(x[i + 1])
        if not down:
            a, b = -a, -b
        if a >= 0.0 and b < 0.0:
            out.append(float(t[i]) + (float(t[i + 1]) - float(t[i])) * (a / (a - b)))
    return out


def individual(tc, t, x):
    """Waves by definition: samples with tc[i] <= t <= tc[i+1]."""
    rows = []
    tl = [float(v) for v in t]  # increasing
    for i in range(len(tc) - 1):
        best = None
        for j in range(bisect.bisect_left(tl, tc[i]), bisect.bisect_right(tl, tc[i + 1])):
            tt, xx = t[j], x[j]
            if best is None:
                best = [xx, tt, xx, tt]
            else:
                if xx > best[0]:
                    best[0], best[1] = xx, tt
                if xx < best[2]:
                    best[2], best[3] = xx, tt
        rows.append((best[0] - best[2], tc[i + 1] - tc[i], best[0], best[2], best[1], best[3]))
    return rows


# ---------------------------------------------------------------- Fourier
def dft(x):
    n = len(x)
    if n <= 700:
        k = np.arange(n)
        ang = (k[:, None] * k[None, :]) % n
        w = np.exp(-2j * np.pi * k / n)
        return w[ang] @ np.asarray(x, dtype=complex)
    return np.fft.fft(np.asarray(x, dtype=complex))


def freqs(n, dt):
    return np.arange(n) / (n * dt)


def nfold(n):
    return n // 2 + 1


def density(x, dt):
    """Twice the squared Fourier modulus over df N^2, on the folded axis."""
    n = len(x)
    X = dft(x)[:nfold(n)]
    return freqs(n, dt)[:nfold(n)], 2 * np.abs(X) ** 2 * (dt / n)


def block_mean(v, n):
    return np.array([sum(v[i * n:(i + 1) * n]) / n for i in range(len(v) // n)])


def bandpass(x, dt, flow, fhigh, f=None):
    """Components with flow <= f < fhigh (and never f = 0), by direct synthesis."""
    n = len(x)
    X = dft(x)
    f = freqs(n, dt) if f is None else f
    keep = np.zeros(n)
    for k in range(1, nfold(n)):
        if flow <= f[k] < fhigh:
            keep[k] = 1
            keep[(n - k) % n] = 1
    Y = X * keep
    return np.real(np.conj(dft(np.conj(Y)))) / n


# ---------------------------------------------------------------- moments
def simpson(y, x):
    """Simpson on a uniform axis; an odd number of intervals ends with the parabola through the last three points;
    two points: trapezoid; one point: zero."""
    n = len(y)
    if n < 2:
        return 0.0
    h = (x[-1] - x[0]) / (n - 1)
    if n == 2:
        return h * (y[0] + y[1]) / 2
    if n > 40:  # same weights, as one dot product
        w = np.zeros(n)
        m = n if n % 2 == 1 else n - 1
        w[0:m - 2:2] += h / 3
        w[1:m - 1:2] += 4 * h / 3
        w[2:m:2] += h / 3
        if n % 2 == 0:
            w[-1] += 5 * h / 12
            w[-2] += 8 * h / 12
            w[-3] -= h / 12
        return float(np.dot(w, np.asarray(y, dtype=float)))
    tot = 0.0
    m = n if n % 2 == 1 else n - 1
    for i in range(0, m - 2, 2):
        tot += h / 3 * (y[i] + 4 * y[i + 1] + y[i + 2])
    if n % 2 == 0:
        tot += h * (5 * y[-1] + 8 * y[-2] - y[-3]) / 12
    return float(tot)


def nearest(v, x):
    if len(v) > 40:
        return int(np.argmin(np.abs(np.asarray(v) - x)))
    best = 0
    for i in range(len(v)):
        if abs(v[i] - x) < abs(v[best] - x):
            best = i
    return best


def moment(f, s, m, fmin=None, fmax=None):
    f = [float(v) for v in f]
    s = [float(v) for v in s]
    if m < 0 and f[0] == 0:
        f, s = f[1:], s[1:]
    lo = 0 if fmin is None else nearest(f, fmin)
    tail = 0.0
    if fmax is None:
        hi = len(f) - 1
    elif fmax > f[-1]:
        hi = len(f) - 1
        p = m - 5 + 1
        fe = f[-1]
        tail = s[-1] * fe**5 / p * ((0.0 if math.isinf(fmax) else fmax**p) - fe**p)
    else:
        hi = nearest(f, fmax)
    if hi - lo > 40:
        y = np.array(f[lo:hi + 1]) ** float(m) * np.array(s[lo:hi + 1])
    else:
        y = [f[i] ** m * s[i] for i in range(lo, hi + 1)]
    return simpson(y, f[lo:hi + 1]) + tail


def peak_range(f, s, fmin=None, fmax=None):
    """Indices inside the range (inclusive)."""
    idx = [i for i in range(len(f)) if (fmin is None or f[i] >= fmin) and (fmax is None or f[i] <= fmax)]
    return idx


def tp(f, s, fmin=None, fmax=None):
    idx = peak_range(f, s, fmin, fmax)
    top = max(s[i] for i in idx)
    return 1.0 / max(f[i] for i in idx if s[i] == top)


def tps(f, s):
    """Smoothed peak period, or a set-valued answer (tuple of (lo, hi) period bounds) where several are acceptable."""
    n = len(f)
    top = max(s)
    if top < 1e-10:
        return -999.0
    im = [i for i in range(n) if s[i] == top]
    if len(im) == 1 and 0 < im[0] < n - 1:
        i = im[0]
        h = f[i + 1] - f[i]
        a, b, c = s[i - 1], s[i], s[i + 1]
        return 1.0 / (f[i] + 0.5 * h * (a - c) / (a - 2 * b + c))
    if len(im) == 2 and im[1] == im[0] + 1:
        return 1.0 / (0.5 * (f[im[0]] + f[im[1]]))
    lo, hi = f[0], f[-1]
    return (1.0 / hi, 1.0 / lo if lo > 0 else math.inf)


# ---------------------------------------------------------------- JONSWAP
def jonswap(f, fp, hm0, gamma, tail):
    s = []
    for fi in f:
        fi = float(fi)
        if fi <= 1e-15:
            s.append(0.0)
            continue
        nu = fi / fp
        sg = 0.07 if fi < fp else 0.09
        s.append(fi**-5 * math.exp(-1.25 * nu**-4) * gamma ** math.exp(-(nu - 1) ** 2 / (2 * sg * sg)))
    m0 = moment(f, s, 0, float(f[0]), math.inf if tail else float(f[-1]))
    if m0 <= 1e-280:
        return np.full(len(s), np.nan)
    return np.array(s) * (hm0 / (4 * math.sqrt(m0))) ** 2


# ---------------------------------------------------------------- dispersion
def wavenumber(w, h, g=G):
    """Bisection on kh tanh(kh) = w^2 h / g (monotone), in floating point to the last bit or so."""
    if w == 0:
        return 0.0
    if math.isinf(h):  # deep water
        return w * w / g
    if h < 0:  # shallow water of depth |h|
        return w / math.sqrt(g * -h)
    y = w * w * h / g
    lo, hi = 0.0, max(2.0, 2 * y, 2 * math.sqrt(y))
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if mid * math.tanh(mid) < y:
            lo = mid
        else:
            hi = mid
    q = 0.5 * (lo + hi)
    # a Newton step removes the last rounding of the bisection
    th = math.tanh(q)
    q -= (q * th - y) / (th + q * (1 - th * th))
    return math.copysign(q / h, w)


# ---------------------------------------------------------------- Welch
def window(name, n):
    k = np.arange(n)
    if n == 1:
        return np.ones(1)
    if name == "hann":
        return 0.5 - 0.5 * np.cos(2 * np.pi * k / n)
    if name == "hamming":
        return 0.54 - 0.46 * np.cos(2 * np.pi * k / n)
    if name == "boxcar":
        return np.ones(n)
    if name == "blackman":
        return 0.42 - 0.5 * np.cos(2 * np.pi * k / n) + 0.08 * np.cos(4 * np.pi * k / n)
    raise KeyError(name)


def welch(x, dt, nperseg, noverlap, nfft, win):
    x = np.asarray(x, dtype=float)
    w = window(win, nperseg)
    step = nperseg - noverlap
    nseg = (len(x) - noverlap) // step
    acc = np.zeros(nfold(nfft))
    for s in range(nseg):
        seg = x[s * step:s * step + nperseg]
        seg = (seg - np.mean(seg)) * w
        X = dft(np.concatenate([seg, np.zeros(nfft - nperseg)]))[:nfold(nfft)]
        p = np.abs(X) ** 2 * dt / np.sum(w**2)
        p[1:] *= 2
        if nfft % 2 == 0:
            p[-1] /= 2
        acc += p
    return np.arange(nfold(nfft)) / (nfft * dt), acc / nseg


# ---------------------------------------------------------------- Hilbert
def hilbert_imag(x):
    n = len(x)
    X = dft(x)
    Y = np.zeros(n, dtype=complex)
    for k in range(1, (n + 1) // 2):
        Y[k] = -1j * X[k]
        Y[n - k] = 1j * X[n - k]
    return np.real(np.conj(dft(np.conj(Y)))) / n


def de_mean(x):
    return sum(float(v) for v in x) / len(x)


# ---------------------------------------------------------------- incident/reflected separation
def zs(t, x, h, xloc, wloc, det_lim, k=None):
    """Weighted least squares per frequency: unknown complex amplitudes at the first gauge."""
    n, m = x.shape
    dt = (t[-1] - t[0]) / (n - 1)
    X = np.array([dft(x[:, j]) for j in range(m)]).T
    fin = np.zeros(n, dtype=complex)
    fre = np.zeros(n, dtype=complex)
    dets = []
    for i in range(nfold(n)):
        kk = wavenumber(2 * math.pi * i / (n * dt), h) if k is None else k[i]
        d = np.asarray(xloc, dtype=float) - xloc[0]
        E = np.stack([np.exp(-1j * kk * d), np.exp(1j * kk * d)], axis=1)
        W = np.asarray(wloc, dtype=float)
        A = np.conj(E).T @ (W[:, None] * E)
        b = np.conj(E).T @ (W * X[i])
        det = abs(0.25 * (A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]))
        dets.append(det)
        if det > det_lim:
            s = np.linalg.solve(A, b)
            fin[i], fre[i] = s
            if i > 0:
                fin[(n - i) % n] = np.conj(s[0])
                fre[(n - i) % n] = np.conj(s[1])
    inv = lambda Y: np.real(np.conj(dft(np.conj(Y)))) / n  # noqa: E731
    return inv(fin), inv(fre), np.array(dets)
