"""Generators of cases, and the functions that build arrays from a case.

A case is a JSON-serialisable description; all randomness is drawn by Hypothesis (long noise records
are a pure function of a drawn integer), so that cases shrink and replay.
"""
import math

import numpy as np
from hypothesis import strategies as st

# ---------------------------------------------------------------- numbers


def floats(lo, hi, digits=6):
    """Floats of limited precision: they print and shrink well, and lose nothing for these checks."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(
        lambda v: min(max(0.0 if abs(v) < 1e-9 else float(f"%.{digits}g" % v), lo), hi)
    )


def logfloats(lo, hi, digits=5):
    """Floats spread evenly over the orders of magnitude between lo and hi."""
    return st.floats(math.log10(lo), math.log10(hi), allow_nan=False).map(
        lambda v: min(max(float(f"%.{digits}g" % (10.0**v)), lo), hi)
    )


def ints(lo, hi):
    """Integers spread evenly (no preference for the ends), shrinking towards lo."""
    return st.sampled_from(range(lo, hi + 1))


def sizes(lo=2, hi=400, big=()):
    """Numbers of samples: small and large ones, both parities, powers of two and primes."""
    opts = []
    for a, b in ((lo, 9), (10, 40), (41, 130), (131, hi)):
        a, b = max(a, lo), min(b, hi)
        if a <= b:
            opts.append(ints(a, b))
    special = [n for n in (2, 3, 4, 5, 8, 16, 31, 32, 33, 64, 97, 100, 127, 128, 255, 256, 257) if lo <= n <= hi]
    if special:
        opts.append(st.sampled_from(special))
    if big:
        opts.append(st.sampled_from(list(big)))
    return st.one_of(*opts)


BIG = (1000, 1023, 1024, 1025, 2047, 2500, 4096, 4999)
# the same with, now and then, a really long one
HUGE = BIG * 4 + (7001, 10007, 16385, 20000, 30011)
# (a Series looks for the waves of a record in quadratic time: these are for the plain functions)
GIANT = BIG * 4 + (7001, 16385, 30011, 50021, 65536, 70001, 100003, 131072)

# ---------------------------------------------------------------- time axes

DTS = (0.1, 0.05, 0.2, 0.25, 0.5, 1.0, 2.0, 0.01, 0.04, 1.0 / 3.0, 0.7, 3600.0)
T0S = (0.0, 0.0, -3.7, 100.0, -50.25, 12345.678, 1.0e6, 1.7e9)


def dts():
    # (the usual ones three times: extreme units are the exception)
    u = [st.sampled_from(DTS), logfloats(1e-3, 100.0)]
    return st.one_of(*u, *u, *u, logfloats(1e-9, 1e7))


@st.composite
def axes(draw, lo=2, hi=400, big=(), dt=None, t0=True):
    d = draw(dt if dt is not None else dts())
    start = 0.0
    if t0:
        start = draw(st.one_of(st.sampled_from(T0S), floats(-1000.0, 1000.0)))
        if abs(start) > 1e5 and d < 0.05:
            start = start / 1e5
        if d < 1e-3:
            # the axis can still be told from one with unequal steps
            start = float("%.6g" % (start * d))
    return dict(
        n=draw(sizes(lo, hi, big)), dt=d, t0=start, how=draw(st.sampled_from(["arange", "linspace", "sum"]))
    )


def build_axis(a):
    n, dt, t0 = a["n"], a["dt"], a["t0"]
    if a.get("how") == "linspace":
        return np.linspace(t0, t0 + (n - 1) * dt, n)
    if a.get("how") == "sum" and n <= 500:
        t = np.full(n, dt)
        t[0] = t0
        return np.cumsum(t)
    return t0 + np.arange(n) * dt


def time_noise(t):
    """Size of the rounding noise in a time step of the axis (a few units in the last place)."""
    return 4.0 * float(np.spacing(np.max(np.abs(t))))


def near_sample(x, eps):
    """Is any crossing closer than eps steps to a sample, without being on it? Rounding then decides to which wave it belongs."""
    a, b = x[:-1], x[1:]
    k = ((a >= 0) & (b < 0)) | ((a <= 0) & (b > 0))
    d = np.abs(a[k] - b[k])
    return bool(np.any(((a[k] != 0) & (np.abs(a[k]) < eps * d)) | (np.abs(b[k]) < eps * d)))


# ---------------------------------------------------------------- records


def _alphabets():
    return st.sampled_from(
        [
            [-1.0, 0.0, 1.0],
            [-2.0, -1.0, 0.0, 1.0, 2.0],
            [-1.0, 1.0],
            [0.0, -1.0],
            [0.0, 1.0],
            [-0.5, -0.25, 0.125, 0.75, 3.0],
        ]
    )


@st.composite
def signals(draw, n, scales=True, list_max=40, kinds=("list", "alpha", "sines", "noise", "waves", "spike", "wide", "tone")):
    """A record of n samples."""
    ks = [k for k in kinds if n <= list_max or k not in ("list", "alpha")]
    k = draw(st.sampled_from(ks))
    s = dict(kind=k)
    if k == "list":
        s["v"] = draw(st.lists(floats(-10.0, 10.0), min_size=n, max_size=n))
    elif k == "alpha":
        s["v"] = draw(_alphabets().flatmap(lambda a: st.lists(st.sampled_from(a), min_size=n, max_size=n)))
    elif k == "sines":
        s["c"] = draw(
            st.lists(
                st.tuples(
                    floats(0.1, 3.0),
                    st.one_of(floats(0.3, max(0.5, n / 2.0)), st.integers(1, max(1, n // 2)).map(float)),
                    floats(0.0, 6.283),
                ).map(list),
                min_size=1,
                max_size=4,
            )
        )
    elif k == "spike":
        s["at"] = draw(st.integers(0, n - 1))
    elif k == "steps":
        s["len"] = draw(ints(1, 120))
        s["salt"] = draw(st.integers(0, 2**31))
    elif k == "tone":
        s["k"] = draw(st.integers(0, n // 2))
        s["e"] = draw(st.integers(2, 10))
        s["salt"] = draw(st.integers(0, 2**31))
    else:
        s["salt"] = draw(st.integers(0, 2**31))
    if scales:
        s["scale"] = draw(st.one_of(st.just(1.0), st.just(1.0), logfloats(1e-6, 1e5)))
        s["offset"] = draw(st.one_of(st.just(0.0), st.just(0.0), floats(-3.0, 3.0)))
    return s


def build_signal(s, n):
    k = s["kind"]
    if k in ("list", "alpha"):
        x = np.array(s["v"], dtype=float)
    elif k == "sines":
        i = np.arange(n)
        x = np.zeros(n)
        for a, cyc, ph in s["c"]:
            x = x + a * np.cos(2 * np.pi * cyc * i / n + ph)
    elif k == "spike":
        x = np.zeros(n)
        x[s["at"]] = 1.0
    elif k == "tone":
        # weak noise besides one loud component
        r = np.random.Generator(np.random.PCG64(s["salt"]))
        x = np.cos(2 * np.pi * ((s["k"] * np.arange(n)) % n) / n + 0.4) + r.standard_normal(n) * 10.0 ** -s["e"]
    elif k == "steps":
        # levels that are kept for a while: long waves with many equal extremes
        r = np.random.Generator(np.random.PCG64(s["salt"]))
        runs = 1 + r.geometric(1.0 / s["len"], n)
        x = np.repeat(r.integers(-2, 3, n).astype(float), runs)[:n]
    elif k == "wide":
        # samples of very different sizes
        r = np.random.Generator(np.random.PCG64(s["salt"]))
        x = np.sign(r.standard_normal(n)) * 10.0 ** r.uniform(-10.0 if s["salt"] % 2 else -18.0, 0.0, n)
    elif k == "waves":
        # irregular sea: narrow-banded sum with many zero crossings
        r = np.random.Generator(np.random.PCG64(s["salt"]))
        i = np.arange(n)
        x = np.zeros(n)
        for _ in range(12):
            x = x + r.normal() * np.cos(2 * np.pi * (r.uniform(0.03, 0.3) * i + r.uniform()))
    else:
        x = np.random.Generator(np.random.PCG64(s["salt"])).standard_normal(n)
    return (x + s.get("offset", 0.0)) * s.get("scale", 1.0)


@st.composite
def records(draw, lo=2, hi=400, big=(), dt=None, t0=True, scales=True, **kw):
    """Time axis and record."""
    a = draw(axes(lo, hi, big, dt, t0))
    return dict(axis=a, x=draw(signals(a["n"], scales, **kw)))


def build_record(c):
    t = build_axis(c["axis"])
    return t, build_signal(c["x"], c["axis"]["n"])


# ---------------------------------------------------------------- spectra

DFS = (0.01, 0.005, 0.02, 0.05, 0.1, 0.001, 1.0 / 128.0, 1.0 / 300.0)


def dfs(hi=0.2):
    """Frequency steps (like dts: other units of time are the exception)."""
    u = [st.sampled_from(DFS), logfloats(1e-3, hi)]
    return st.one_of(*u, *u, *u, logfloats(1e-8, 1e5))


@st.composite
def faxes(draw, lo=3, hi=300, big=(), zero=None):
    """Frequency axis, with or without f = 0."""
    df = draw(dfs())
    z = draw(st.booleans()) if zero is None else zero
    f0 = 0.0
    if not z:
        f0 = draw(st.one_of(st.just(1.0), floats(0.05, 20.0))) * df
    return dict(n=draw(sizes(lo, hi, big)), df=df, f0=f0)


def build_faxis(a):
    return a["f0"] + np.arange(a["n"]) * a["df"]


@st.composite
def densities(draw, n, scales=True, kinds=("list", "noise", "peak", "const", "int", "jonswap", "sparse", "wide"), list_max=25):
    ks = [k for k in kinds if n <= list_max or k not in ("list", "int")]
    k = draw(st.sampled_from(ks))
    s = dict(kind=k)
    if k == "list":
        s["v"] = draw(st.lists(floats(0.0, 10.0), min_size=n, max_size=n))
        if sum(s["v"]) == 0.0:
            s["v"][draw(st.integers(0, n - 1))] = 1.0
    elif k == "int":
        s["v"] = draw(st.lists(st.integers(0, 5).map(float), min_size=n, max_size=n))
        if sum(s["v"]) == 0.0:
            s["v"][draw(st.integers(0, n - 1))] = 1.0
    elif k in ("noise", "sparse", "wide"):
        s["salt"] = draw(st.integers(0, 2**31))
    elif k in ("peak", "jonswap"):
        s["c"] = draw(floats(0.05, 0.95))
        s["w"] = draw(floats(0.02, 0.5))
    if scales:
        s["scale"] = draw(st.one_of(st.just(1.0), logfloats(1e-5, 1e5)))
    return s


def build_density(s, n):
    k = s["kind"]
    if k in ("list", "int"):
        S = np.array(s["v"], dtype=float)
    elif k == "noise":
        S = np.random.Generator(np.random.PCG64(s["salt"])).uniform(0.05, 1.0, n)
    elif k == "wide":
        S = 10.0 ** np.random.Generator(np.random.PCG64(s["salt"])).uniform(-10.0 if s["salt"] % 2 else -18.0, 0.0, n)
    elif k == "sparse":
        r = np.random.Generator(np.random.PCG64(s["salt"]))
        S = r.uniform(0.05, 1.0, n) * (r.uniform(size=n) < 0.5)
        if not S.any():
            S[n // 2] = 1.0
    elif k == "peak":
        u = (np.arange(n) + 0.5) / n
        S = np.exp(-(((u - s["c"]) / s["w"]) ** 2)) + 0.01
    elif k == "jonswap":
        u = (np.arange(n) + 0.5) / n
        nu = u / s["c"]
        S = nu**-5.0 * np.exp(-1.25 * nu**-4.0) * 3.3 ** np.exp(-((nu - 1) ** 2) / (2 * 0.08**2))
        S = S + 1e-12
    else:
        S = np.ones(n)
    return S * s.get("scale", 1.0)


@st.composite
def spectra(draw, lo=3, hi=300, big=(), zero=None, scales=True, **kw):
    a = draw(faxes(lo, hi, big, zero))
    return dict(axis=a, S=draw(densities(a["n"], scales, **kw)))


def build_spectrum(c):
    return build_faxis(c["axis"]), build_density(c["S"], c["axis"]["n"])


def cnoise(salt, n):
    """Complex noise, a pure function of a drawn integer."""
    r = np.random.Generator(np.random.PCG64(salt))
    return r.standard_normal(n) + 1j * r.standard_normal(n)


def salts():
    return st.integers(0, 2**31)
