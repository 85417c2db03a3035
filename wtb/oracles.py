"""Reference computations, written independently of the code under test (plain formulas)."""
import math
from fractions import Fraction

import numpy as np


def dft_at(x, ks):
    """Discrete Fourier transform at the bins ks, by its defining sum (phases reduced exactly)."""
    n = len(x)
    i = np.arange(n, dtype=np.int64)
    out = np.empty(len(ks), dtype=complex)
    for j, k in enumerate(ks):
        ph = (i * int(k)) % n
        out[j] = np.sum(x * np.exp(-2j * np.pi * ph / n))
    return out


def band_counts(df_desired, df, n):
    """The acceptable numbers of bins per band: round(ratio), both neighbours in case of a tie."""
    if df_desired == 0.0:
        return [1]
    r = df_desired / df
    qs = {max(1, int(math.floor(r + 0.5 + e))) for e in (-1e-7 * max(1, r), 0.0, 1e-7 * max(1, r))}
    return sorted(qs)


def bands_used(qs, f, got):
    """Of the acceptable numbers of bins per band, the one the frequencies of the bands point to."""
    if len(got) == 0 or len(qs) < 2:
        return qs
    return sorted(qs, key=lambda q: abs(float(np.mean(f[:q])) - float(got[0])))


def band_average(f, s, q):
    m = len(f) // q
    return (
        np.array([np.sum(f[i * q : (i + 1) * q]) / q for i in range(m)]),
        np.array([np.sum(s[i * q : (i + 1) * q]) / q for i in range(m)], dtype=np.result_type(s, float)),
    )


def simpson(y, h):
    """Composite Simpson rule on equidistant points; for an even number of points the last interval
    is integrated with the parabola through the last three points (two points: trapezium)."""
    n = len(y)
    if n == 1:
        return 0.0
    if n == 2:
        return h * (y[0] + y[1]) / 2.0
    m = n if n % 2 else n - 1
    v = y[:m]
    s = h / 3.0 * (v[0] + v[-1] + 4.0 * math.fsum(v[1:-1:2]) + 2.0 * math.fsum(v[2:-1:2]))
    if n % 2 == 0:
        s += h * (5.0 * y[-1] + 8.0 * y[-2] - y[-3]) / 12.0
    return float(s)


def nearest(f, v):
    """Index of the value nearest to v (smallest index in case of a tie)."""
    best = 0
    for i in range(len(f)):
        if abs(f[i] - v) < abs(f[best] - v):
            best = i
    return best


def moment(f, S, m, fmin=None, fmax=None):
    """Spectral moment: Simpson over the bins nearest to the limits, f^-5 tail beyond the axis."""
    f, S = np.asarray(f, float), np.asarray(S, float)
    h = (f[-1] - f[0]) / (len(f) - 1)
    if m < 0 and f[0] == 0.0:
        f, S = f[1:], S[1:]
    lo = 0 if fmin is None else int(np.argmin(np.abs(f - fmin)))
    hi = len(f) - 1 if fmax is None or fmax >= f[-1] else int(np.argmin(np.abs(f - fmax)))
    r = simpson(f[lo : hi + 1] ** float(m) * S[lo : hi + 1], h)
    if fmax is not None and fmax > f[-1]:
        fe, Se = f[-1], S[-1]
        p = m - 4
        if Se == 0.0:
            return r
        if p >= 0 and math.isinf(fmax):
            return math.inf
        if p == 0:
            return r + Se * fe ** (m + 1) * math.log(fmax / fe)
        upper = 0.0 if math.isinf(fmax) else (fmax / fe) ** p
        r += Se * fe ** (m + 1) / p * (upper - 1.0)
    return r


def crossings(t, x, kind):
    """Zero crossings by their definition; kind is "down" or "up"."""
    out = []
    for i in range(len(x) - 1):
        a, b = float(x[i]), float(x[i + 1])
        hit = (a >= 0 and b < 0) if kind == "down" else (a <= 0 and b > 0)
        if hit:
            out.append(float(t[i]) + (float(t[i + 1]) - float(t[i])) * (a / (a - b)))
    return np.array(out)


def jonswap_shape(f, fp, gamma):
    """Unscaled JONSWAP density."""
    out = np.zeros(len(f))
    for i, fi in enumerate(f):
        if fi <= 0:
            continue
        nu = fi / fp
        sig = 0.07 if fi < fp else 0.09
        r = math.exp(-((nu - 1.0) ** 2) / (2 * sig * sig))
        e = -1.25 * nu**-4.0 if nu > 1e-60 else -math.inf
        out[i] = nu**-5.0 * math.exp(e) * gamma**r if e > -700 else 0.0
    return out


def fraction_counts(n, p):
    """floor(n * p) in floating point (the documented definition)."""
    return {int(math.floor(n * p))}


def percentage_counts(n, perc):
    """floor(n * perc / 100). When n * perc is an exact multiple of 100 there is one answer; otherwise
    rounding may decide, and the two orders in which it can reasonably be evaluated are both accepted."""
    q = n * Fraction(perc) / 100
    if q.denominator == 1:
        return {int(q)}
    return {int(math.floor(n * perc / 100.0)), int(math.floor(n * (perc / 100.0)))}


def wavenumber(w, h, g=9.81):
    """Positive root k of w^2 = g k tanh(k h), by Newton iteration on y tanh(y) = w^2 h / g."""
    if w == 0:
        return 0.0
    a = w * w * h / g
    y = a / math.sqrt(math.tanh(a)) if a > 1e-8 else math.sqrt(a)
    if a < 1e-8:
        return math.sqrt(a) * (1 + a / 6.0) / h
    for _ in range(60):
        th = math.tanh(y)
        step = (y * th - a) / (th + y * (1.0 - th * th))
        y -= step
        if abs(step) <= 1e-16 * y:
            break
    return y / h


def scaled_determinant(kd, w):
    """|det| / 4 of the weighted two-wave least-squares system, for phases kd = k * distance."""
    w = np.asarray(w, float)
    return abs(abs(np.sum(w * np.exp(-2j * kd))) ** 2 - np.sum(w) ** 2) / 4.0


def two_wave_fit(X, kd, w):
    """Weighted least-squares fit of A exp(-i kd) + B exp(i kd) to X, by QR of the design matrix."""
    sw = np.sqrt(np.asarray(w, float))
    M = np.stack([np.exp(-1j * kd), np.exp(1j * kd)], axis=1) * sw[:, None]
    q, r = np.linalg.qr(M)
    return np.linalg.solve(r, q.conj().T @ (sw * X))
