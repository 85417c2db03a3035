import math

from hypothesis import strategies as st

from wtb.core import close, expect, info, num, scale_of, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import Series

info(
    "C23",
    "Records of 2..400 (or up to 4999) samples, even and odd, with offsets up to 1e4 times and scales 1e-6..1e5."
    " Reference: direct sums, and the Hilbert transform by its analytic-signal definition. Non-trivial: a variance of"
    " at least 1e-6 of the squared offset.",
)


def hilbert(x):
    """Imaginary part of the analytic signal (negative frequencies removed, positive ones doubled)."""
    n = len(x)
    X = np.fft.fft(x)
    k = np.fft.fftfreq(n) * n
    w = np.where(k > 0, 2.0, 0.0)
    w[0] = 1.0
    if n % 2 == 0:
        w[n // 2] = 1.0
    return np.imag(np.fft.ifft(X * w))


def reference(x):
    n = len(x)
    m = math.fsum(x) / n
    d = x - m
    v = math.fsum(d * d) / n
    s = v**1.5
    return dict(mean=m, var=v, skew=math.fsum(d**3) / n / s if s > 0 else math.nan, asym=math.fsum(hilbert(d) ** 3) / n / s if s > 0 else math.nan)


def _stats(t, x):
    s = Series(t, x)
    return num(s.get_skewness(), "get_skewness"), num(s.get_asymmetry(), "get_asymmetry"), s


def _conditioned(x):
    v = np.var(x)
    return v > 1e-6 * np.mean(x) ** 2 and v > 0


def _tol(x):
    n = len(x)
    # rounding of the mean-free record, relative to its standard deviation; the cube of a peak grows as sqrt(n)
    eps = 2e-15 * (scale_of(x) / np.std(x)) * 10
    peak = scale_of(x - np.mean(x)) / np.std(x)
    return 1e-10 + 50 * eps * max(1.0, peak) ** 2


KINDS = ("list", "alpha", "sines", "noise", "waves", "spike")


@sub("C23", st.fixed_dictionaries(dict(r=records(2, 400, HUGE, kinds=KINDS), off=st.one_of(st.just(0.0), floats(-100.0, 100.0)))), 2500)
def definitions(c):
    t, x = build_record(c["r"])
    x = x + c["off"] * np.std(x)
    a = scale_of(x)
    s = Series(t, x.copy())
    close(num(s.max()), max(x.tolist()), 0.0, 0.0, "maximum")
    close(num(s.min()), min(x.tolist()), 0.0, 0.0, "minimum")
    close(num(s.mean()), math.fsum(x) / len(x), 1e-12, 1e-14 * a * len(x) ** 0.5, "mean")
    m = math.fsum(x) / len(x)
    v = math.fsum((x - m) ** 2) / len(x)
    close(num(s.var()), v, 1e-10, 1e-25 * a * a * len(x), "variance")
    if not _conditioned(x):
        return False, ["constant"]
    w = reference(x)
    g1, g2, _ = _stats(t, x.copy())
    close(g1, w["skew"], 1e-9, _tol(x), "skewness")
    close(g2, w["asym"], 1e-9, _tol(x), "asymmetry")
    return True, ["odd" if len(x) % 2 else "even", c["r"]["x"]["kind"]]


@sub("C23", st.fixed_dictionaries(dict(r=records(3, 400, HUGE, kinds=KINDS), off=floats(-100.0, 100.0), a=logfloats(1e-4, 1e4))), 1200)
def relations(c):
    t, x = build_record(c["r"])
    if not _conditioned(x):
        return False, []
    g1, g2, _ = _stats(t, x)
    sd = np.std(x)
    y = x + c["off"] * sd
    tol = _tol(x) + _tol(y) + 1e-8 * 0
    for z, f1, f2, what in (
        (y, 1, 1, "record with another mean"),
        (c["a"] * x, 1, 1, "scaled record"),
        (-x, -1, -1, "record upside down"),
        (x[::-1].copy(), 1, -1, "record reversed in time"),
    ):
        h1, h2, _ = _stats(t, z)
        close(h1, f1 * g1, 1e-9, tol, "skewness of the " + what)
        close(h2, f2 * g2, 1e-9, tol, "asymmetry of the " + what)
    return abs(g1) > 1e-6 and abs(g2) > 1e-6, []


@sub("C23", st.fixed_dictionaries(dict(a=axes(8, 400, HUGE), k=ints(1, 10**6), ph=floats(0.0, 6.283), amp=logfloats(1e-3, 1e3), off=floats(-3.0, 3.0))), 800)
def pure_sine(c):
    n = c["a"]["n"]
    k = 1 + c["k"] % ((n - 1) // 3)
    if 3 * k == n or 3 * k % n == 0:
        return False, []
    t = build_axis(c["a"])
    x = c["amp"] * (np.cos(2 * np.pi * ((np.arange(n) * k) % n) / n + c["ph"]) + c["off"])
    g1, g2, _ = _stats(t, x)
    close(g1, 0.0, 0.0, _tol(x), "skewness of a sine")
    close(g2, 0.0, 0.0, _tol(x), "asymmetry of a sine")
    return True, []
