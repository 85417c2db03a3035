import math

from hypothesis import strategies as st

from wtb.core import close, expect, fail, info, pair, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import Series, Spectrum, core_spectral as cs

info(
    "C17",
    "Spectra of 3..200 bins (uniform axes, for the array route also irregular ones), series of 2..4999 samples with even"
    " and odd counts, end times on and off the time grid, start times up to 1.7e9, time steps 0.001..100 s, seeds from 0"
    " up, and unseeded calls, over the array, Series and Spectrum routes. Non-trivial: at least one component with"
    " energy below Nyquist.",
    ["Components within 1e-9 (relative) of an end of the spectrum are not judged: there the density may be zero or not.",
     "The component at Nyquist is only checked not to exceed its amplitude.",
     "For an odd number of samples the amplitudes are those over the record itself, or over the record with the one"
     " sample that completes it to a zero-mean even record.",
     "Uniformity and independence of phases are tested on a hundred or more components with a 6-sigma threshold."],
)


@st.composite
def grids(draw, lo=2, hi=400, big=HUGE, parity=None):
    """Requested time axis: start, end, step."""
    dt = draw(dts())
    n = draw(sizes(lo, hi, big))
    if parity is not None and n % 2 != parity:
        n += 1
    t0 = draw(st.one_of(st.sampled_from(T0S), floats(-1000.0, 1000.0)))
    if abs(t0) > 1e5 and dt < 0.05:
        t0 = t0 / 1e5
    frac = draw(st.one_of(st.just(0.0), st.just(0.0), floats(-0.45, 0.9)))
    return dict(n=n, dt=dt, t0=t0, frac=frac)


@st.composite
def shapes(draw, irregular=True):
    """A spectrum on an axis relative to the Nyquist frequency of the series."""
    n = draw(ints(3, 200))
    return dict(
        S=draw(densities(n)),
        n=n,
        lo=draw(st.one_of(st.just(0.0), floats(0.001, 0.5))),
        hi=draw(st.one_of(floats(0.1, 0.95), floats(0.9, 2.0), st.just(1.0))),
        irregular=draw(st.one_of(st.none(), st.none(), salts())) if irregular else None,
    )


def build_shape(c, g):
    fny = 0.5 / g["dt"]
    n = c["n"]
    lo, hi = min(c["lo"], c["hi"] * 0.9) * fny, c["hi"] * fny
    if c["irregular"] is None:
        f = lo + np.arange(n) * ((hi - lo) / (n - 1))
    else:
        steps = np.random.Generator(np.random.PCG64(c["irregular"])).uniform(0.2, 2.0, n)
        f = lo + (hi - lo) * np.cumsum(steps) / np.sum(steps)
    return f, build_density(c["S"], n)


def build_end(g):
    return g["t0"] + (g["n"] - 1 + g["frac"]) * g["dt"]


def interpolate(x, f, S):
    """Linear interpolation, zero outside; also the slope, and whether x is too near to an end."""
    out, slope, near = np.zeros(len(x)), np.zeros(len(x)), np.zeros(len(x), bool)
    for i, v in enumerate(x):
        near[i] = min(abs(v - f[0]), abs(v - f[-1])) <= 1e-9 * v
        if v < f[0] or v > f[-1]:
            continue
        j = min(max(int(np.searchsorted(f, v, side="right")) - 1, 0), len(f) - 2)
        slope[i] = max(
            abs((S[q + 1] - S[q]) / (f[q + 1] - f[q])) for q in (max(j - 1, 0), j, min(j + 1, len(f) - 2))
        )
        out[i] = S[j] + (S[j + 1] - S[j]) * (v - f[j]) / (f[j + 1] - f[j])
    return out, slope, near


def check_axis(t, g, what):
    t = vec(t, None, what)
    dt, t0, end = g["dt"], g["t0"], build_end(g)
    expect(len(t) >= 1, what + ": empty")
    tol = 1e-9 * dt + (len(t) + 2) * float(np.spacing(max(abs(t0), abs(end))))
    close(t, t0 + np.arange(len(t)) * dt, 0.0, tol, what)
    expect(abs(t[0] - t0) <= 1e-9 * dt + float(np.spacing(abs(t0))), f"{what}: starts at {t[0]!r} instead of {t0!r}")
    if g["frac"] == 0.0:
        expect(len(t) == g["n"], f"{what}: {len(t)} samples up to {t[-1]!r}, requested end {end!r} ({g['n']} samples)")
    else:
        expect(abs(t[-1] - end) < dt + tol, f"{what}: ends at {t[-1]!r}, requested {end!r}")
    return t


def _amplitudes(x, f, S, dt, what):
    """None when x has the right Fourier amplitudes, a message otherwise."""
    n = len(x)
    df = 1.0 / (n * dt)
    X = np.fft.fft(x) / n
    nb = (n + 1) // 2  # bins 0..nb-1 lie below Nyquist
    fk = np.arange(nb) * df
    Si, slope, near = interpolate(fk, f, S)
    total = math.sqrt(2 * df * float(np.sum(Si)) + 2 * df * float(np.max(S))) + 1e-300
    if abs(X[0]) > 1e-12 * n * total:
        return f"{what}: mean {X[0].real!r}", None, None
    got = (2 * np.abs(X[:nb])) ** 2
    want = 2 * Si * df
    tol = 1e-9 * want + 2 * df * slope * fk * 1e-9 + 4e-12 * np.sqrt(want) * total + (1e-12 * total) ** 2
    bad = (np.abs(got - want) > tol) & ~near
    bad[0] = False
    if np.any(bad):
        k = int(np.argmax(bad))
        return f"{what}: component {k} of {n} samples at {fk[k]!r} Hz has amplitude {math.sqrt(got[k])!r}, expected {math.sqrt(want[k])!r}", None, None
    if n % 2 == 0:
        Sn, sl, nr = interpolate(np.array([nb * df]), f, S)
        top = max(float(np.max(S)) if nr[0] else 0.0, Sn[0] * (1 + 1e-9) + sl[0] * nb * df * 1e-9)
        if abs(X[nb]) > math.sqrt(2 * top * df) * 1.000001 + 1e-12 * total:
            return f"{what}: component at Nyquist has amplitude {abs(X[nb])!r}, at most {math.sqrt(2 * top * df)!r} expected", None, None
    live = (Si > 1e-6 * np.max(S)) & ~near
    live[0] = False
    return None, X[:nb], live


def check_amplitudes(x, f, S, dt, what):
    if len(x) % 2 == 0:
        m, X, live = _amplitudes(x, f, S, dt, what)
        if m:
            fail(m)
        return X, live
    m, X, live = _amplitudes(np.append(x, -np.sum(x)), f, S, dt, what)
    if m and len(x) > 1:
        m2, X, live = _amplitudes(x, f, S, dt, what)
        if not m2:
            return X, live
    if m:
        fail(m + " (record completed to an even number of samples)")
    return X, live


def generate(route, f, S, g, seed):
    """(t, x) by one of the routes."""
    end = build_end(g)
    a = (g["t0"], end, g["dt"])
    if route == "spectrum":
        s = Spectrum(f, S).create_series(*a)
    elif route == "object":
        s = cs.spectrum2timeseries_object(f, S, *a) if seed is None else cs.spectrum2timeseries_object(f, S, *a, seed)
    else:
        r = cs.spectrum2timeseries(f, S, *a) if seed is None else cs.spectrum2timeseries(f, S, *a, seed)
        return pair(r, "spectrum2timeseries")
    expect(isinstance(s, Series), f"{route} route returned {type(s)}")
    return s.time, s.xTime


@st.composite
def _cases(draw):
    route = draw(st.sampled_from(["array", "array", "object", "spectrum"]))
    return dict(
        g=draw(grids(big=GIANT if route == "array" else HUGE)),
        s=draw(shapes(irregular=route != "spectrum")),
        route=route,
        seed=draw(st.one_of(st.just(0), ints(0, 1000), st.none(), st.just(2**32 - 1), ints(0, 2**32 - 1))),
    )


@sub("C17", _cases(), 1500)
def realises_spectrum(c):
    g = c["g"]
    if c["route"] != "array" and g["n"] < 3:
        g = dict(g, n=3, frac=0.0)
    f, S = build_shape(c["s"], g)
    seed = None if c["route"] == "spectrum" else c["seed"]
    t, x = generate(c["route"], f.copy(), S.copy(), g, seed)
    t = check_axis(t, g, "time axis")
    x = vec(x, len(t), "signal")
    X, live = check_amplitudes(x, f, S, g["dt"], "synthesised series")
    return bool(np.any(live)), [
        c["route"],
        "odd" if len(t) % 2 else "even",
        "end on the grid" if g["frac"] == 0 else "end off the grid",
        "no seed" if seed is None else "seed",
    ]


@sub("C17", st.fixed_dictionaries(dict(g=grids(3), s=shapes(irregular=False), seed=st.one_of(st.just(0), ints(0, 1000), st.just(2**32 - 1), ints(0, 2**32 - 1)), other=ints(0, 1000), between=st.sampled_from(["nothing", "unseeded", "numpy", "other"]))), 500)
def seeds(c):
    g, seed, other = c["g"], c["seed"], c["other"]
    if other == seed:
        other += 1
    f, S = build_shape(c["s"], g)
    _, x1 = generate("array", f, S, g, seed)
    X, live = check_amplitudes(vec(x1), f, S, g["dt"], "seeded series")
    if c["between"] == "unseeded":
        generate("spectrum", f, S, g, None)
    elif c["between"] == "numpy":
        np.random.seed(77)
    elif c["between"] == "other":
        generate("object", f, S, g, other)
    _, x2 = generate("array", f, S, g, seed)
    close(vec(x2), x1, 0.0, 0.0, f"second series of seed {seed}")
    _, x3 = generate("object", f, S, g, seed)
    close(vec(x3), x1, 0.0, 0.0, f"Series object of seed {seed}")
    if np.sum(live) == 0:
        return False, []
    scale = float(np.max(np.abs(x1)))
    _, x4 = generate("array", f, S, g, other)
    expect(np.max(np.abs(np.subtract(x4, x1))) > 1e-6 * scale, f"seeds {seed} and {other} give the same series")
    _, u1 = generate("array", f, S, g, None)
    _, u2 = generate("spectrum", f, S, g, None)
    _, u3 = generate("object", f, S, g, None)
    for i, (a, b) in enumerate(((u1, u2), (u2, u3), (u1, u3), (u1, x4))):
        expect(np.max(np.abs(np.subtract(a, b))) > 1e-6 * scale, f"two series without seed are the same ({i})")
    return True, [c["between"]]


@sub("C17", st.fixed_dictionaries(dict(n=st.one_of(ints(120, 400), st.sampled_from(HUGE)).map(lambda v: 2 * v), seed=ints(0, 10**6), other=ints(0, 10**6), peak=floats(0.1, 0.8), route=st.sampled_from(["seed", "seed", "none", "spectrum"]))), 400)
def phases(c):
    """Phases are uniform over the circle, independent per component and from one series to the next."""
    n = c["n"]
    g = dict(n=n, dt=0.5, t0=0.0, frac=0.0)
    f = np.arange(n // 2 + 1) / (n * 0.5)
    S = 1.0 + 3 * np.exp(-(((f - c["peak"]) / 0.1) ** 2))
    ph = []
    for seed in (c["seed"], c["seed"] + 1 + c["other"]):
        r, sd = ("array", seed) if c["route"] == "seed" else ("array" if c["route"] == "none" else "spectrum", None)
        _, x = generate(r, f, S, g, sd)
        X = np.fft.rfft(vec(x, n))[1 : n // 2]
        ph.append(X / np.abs(X))
    a, b = ph
    m = len(a)
    tests = {
        "phase": a,
        "twice the phase": a**2,
        "three times the phase": a**3,
        "four times the phase": a**4,
        "difference of adjacent components": a[1:] * np.conj(a[:-1]),
        "sum of adjacent components": a[1:] * a[:-1],
        "difference of components two apart": a[2:] * np.conj(a[:-2]),
        "difference of mirrored components": (a * np.conj(a[::-1]))[: m // 2],
        "sum of mirrored components": (a * a[::-1])[: m // 2],
        "difference of the two halves": a[: m // 2] * np.conj(a[m - m // 2 :]),
        "difference between two series": a * np.conj(b),
        "sum over two series": a * b,
    }
    for k, v in tests.items():
        r = abs(np.sum(v)) / math.sqrt(len(v))
        expect(r < 6.0, f"{k}: resultant of {len(v)} unit vectors is {r:.2f} times its expectation")
    for v in (a, b):
        u = len(np.unique(np.round(np.angle(v) / (2 * np.pi), 7)))
        expect(u > 0.95 * m, f"{u} different phases for {m} components")
    return True, [c["route"]]
