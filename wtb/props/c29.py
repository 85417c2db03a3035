from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import band_counts
from wtb.props.c04 import _edges, _mask
from wtb.props.c15 import _call, increasing
from wtb.props.c16 import _cases as _gauges, _setup
from wtb.sut import Series, core_spectral as cs

info(
    "C29",
    "Pairs of records of 2..300 or up to 20011 samples with arbitrary coefficients and circular shifts by any number of"
    " samples, through the Fourier transform, its folding and unfolding, the band filter, the raw and Welch densities"
    " and the wave decomposition (2..7 gauges, layouts, weights and thresholds as in C15); decompositions of the record"
    " run backwards, of a mirrored gauge array, of filtered and of shifted records. Non-trivial: both records vary"
    " (and, for decompositions, a frequency above the threshold).",
    ["Tolerances follow from rounding: of the sum for transforms, of the least-squares solution for decompositions.",
     "For shifts, mirrors and reversals the bins within rounding of the threshold are left out; the mirrored comparison"
     " leaves out the Nyquist bin, whose phase is not resolved."],
)


@st.composite
def _two(draw, lo=2, hi=300, big=BIG * 2 + (10007, 20011)):
    a = draw(axes(lo, hi, big))
    n = a["n"]
    return dict(
        axis=a,
        x=draw(signals(n, False)),
        y=draw(signals(n, False)),
        a=draw(st.one_of(st.just(1.0), floats(-5.0, 5.0))),
        b=draw(st.one_of(st.just(-1.0), st.just(1.0), floats(-5.0, 5.0))),
        m=draw(st.one_of(st.just(1), ints(0, n - 1))),
        off=draw(st.one_of(st.just(0.0), floats(-3.0, 3.0))),
    )


def _records(c):
    n = c["axis"]["n"]
    t = build_axis(c["axis"])
    x, y = build_signal(c["x"], n) + c["off"], build_signal(c["y"], n)
    return t, x, y


def _varies(*xs):
    return all(np.ptp(x) > 1e-9 for x in xs)


@sub("C29", _two(), 1500)
def transforms(c):
    t, x, y = _records(c)
    n, a, b, m = len(t), c["a"], c["b"], c["m"]
    size = (abs(a) * scale_of(x) + abs(b) * scale_of(y) + scale_of(x)) * n * 1e-13 + 1e-300
    for name, fun in (("time2freq", cs.time2freq), ("time2freq_nyquist", cs.time2freq_nyquist)):
        nf = n if name == "time2freq" else n // 2 + 1
        X, Y, Z, R = (vec(pair(fun(t, v), name, 2 if name == "time2freq" else 3)[1], nf, name, "c") for v in (x, y, a * x + b * y, np.roll(x, m)))
        close(Z, a * X + b * Y, 0.0, size, f"{name} of {a!r} x + {b!r} y")
        k = np.arange(nf)
        close(R, X * np.exp(-2j * np.pi * ((k * m) % n) / n), 0.0, size, f"{name} of the record shifted circularly by {m} samples")
    # inverse transforms
    X, Y = np.fft.fft(x), np.fft.fft(y)
    u, v, w = (vec(cs.freq2time(V), n, "freq2time") for V in (X, Y, a * X + b * Y))
    close(w, a * u + b * v, 0.0, size, f"freq2time of {a!r} X + {b!r} Y")
    f = np.arange(n // 2 + 1) / (n * c["axis"]["dt"])
    H, K = X[: len(f)], Y[: len(f)]
    U, V, W = (vec(pair(cs.unfold_spectrum(f, q, n % 2 == 1), "unfold_spectrum")[1], n, "unfold_spectrum", "c") for q in (H, K, a * H + b * K))
    close(W, a * U + b * V, 0.0, size, f"unfold_spectrum of {a!r} X + {b!r} Y")
    return _varies(x, y), ["odd" if n % 2 else "even", "long" if n > 4999 else "short"]


@st.composite
def _filters(draw):
    c = draw(_two())
    c["lo"], c["hi"] = draw(_edges(c["axis"]["n"]))
    return c


@sub("C29", _filters(), 1200)
def filters(c):
    t, x, y = _records(c)
    n, a, b, m = len(t), c["a"], c["b"], c["m"]
    df = 1.0 / (n * c["axis"]["dt"])
    lo, hi = c["lo"] * df, float("inf") if c["hi"] == "inf" else c["hi"] * df
    size = (abs(a) * scale_of(x) + abs(b) * scale_of(y) + scale_of(x)) * 1e-12 + 1e-300
    F = lambda v: vec(cs.bandpassfilter(t, v, lo, hi), n, "bandpassfilter")
    X, Y = F(x), F(y)
    close(F(a * x + b * y), a * X + b * Y, 0.0, size, f"band filter {lo!r}..{hi!r} of {a!r} x + {b!r} y")
    close(F(np.roll(x, m)), np.roll(X, m), 0.0, size, f"band filter of the record shifted circularly by {m} samples")
    if n >= 2:
        r = np.roll(x[::-1], 1)  # x[(-j) mod n]
        close(F(r), np.roll(X[::-1], 1), 0.0, size, "band filter of the record run backwards")
    # filter and remainder are orthogonal
    d = float(np.dot(X, x - X))
    if lo > 0:
        expect(abs(d) <= 1e-11 * n * scale_of(x) ** 2 + 1e-300, f"band-filtered record and remainder are not orthogonal: {d!r}")
    k = _mask(n, c["lo"], c["hi"])
    return _varies(x, y) and bool(np.any(k)), ["odd" if n % 2 else "even"]


@st.composite
def _dens(draw):
    c = draw(_two(4))
    n, dt = c["axis"]["n"], c["axis"]["dt"]
    c["q"] = draw(st.one_of(st.just(1), ints(1, max(1, n // 6))))
    c["res"] = draw(st.one_of(st.just(2.0), floats(1.0, max(1.5, n / 3.0))))
    return c


@sub("C29", _dens(), 1000)
def densities_are_quadratic(c):
    """S(x + y) + S(x - y) = 2 S(x) + 2 S(y) for every estimate of the density."""
    t, x, y = _records(c)
    n, m = len(t), c["m"]
    df = 1.0 / (n * c["axis"]["dt"])

    def raw(v, k=c["q"]):
        f, S = pair(cs.compute_spectrum_time_series(t, v, k * df), "compute_spectrum_time_series")
        return vec(S, None, "density")

    def welch(v):
        return vec(Series(t, v).get_spectrum(dfDesired=c["res"] * df).sVarDens, None, "Welch density")

    for name, fun in (("raw density", raw), ("Welch density", welch)):
        A, B, P, M = fun(x), fun(y), fun(x + y), fun(x - y)
        size = float(np.max(A) + np.max(B)) + (scale_of(x) + scale_of(y)) ** 2 / df * 1e-3
        close(P + M, 2 * A + 2 * B, 1e-10, 1e-10 * size, f"{name}: S(x+y) + S(x-y) against 2 S(x) + 2 S(y)")
        close(fun(-x), A, 1e-10, 1e-12 * size, f"{name} of -x")
        if name == "raw density":
            close(fun(np.roll(x, m)), A, 1e-10, 1e-12 * size, f"{name} of the record shifted circularly by {m} samples")
            close(fun(x[::-1]), A, 1e-10, 1e-12 * size, f"{name} of the record run backwards")
    return _varies(x, y), ["odd" if n % 2 else "even", "bands of one" if c["q"] == 1 else "wider bands"]


# ---------------------------------------------------------------- decompositions


@st.composite
def _wd(draw, two=False):
    c = draw(_gauges(5, 4))
    n = c["axis"]["n"]
    c["m"] = draw(ints(0, n - 1))
    if two:
        c["y"] = [draw(signals(n, False, list_max=12)) for _ in c["x"]]
        c["a"], c["b"] = draw(floats(-4.0, 4.0)), draw(st.one_of(st.just(1.0), floats(-4.0, 4.0)))
    return c


def _amp(c, phase, noise, x, lim):
    """Size of the rounding errors of the decomposed coefficients, per bin."""
    w = np.sum(np.array(c["lay"]["w"], float))
    return len(x) * (scale_of(x) + 1e-300) * (1e-12 + 20.0 * phase * (1e-14 + noise)) * (1.0 + (1 + w) ** 2 / lim)


def _coefs(c, t, x):
    return [np.fft.rfft(v) for v in _call(c, t, x)]


def _labels(c, det, lim):
    return [f"gauges: {len(c['lay']['x'])}", "odd" if c["axis"]["n"] % 2 else "even"] + (
        ["both sides of the threshold"] if 0 < np.sum(det[1:] > lim) < len(det) - 1 else []
    )


@sub("C29", _wd(True), 500)
def decomposition_is_linear(c):
    if not increasing(c["lay"]):
        return False, []
    t, x, d, k, det, lim, near, noise, phase = _setup(c)
    y = np.stack([build_signal(s, len(t)) for s in c["y"]], axis=1)
    X, Y = _coefs(c, t, x), _coefs(c, t, y)
    Z = _coefs(c, t, c["a"] * x + c["b"] * y)
    # same axis, same wave numbers: only the sums round differently
    tol = _amp(c, phase, 0.0, np.abs(x) * abs(c["a"]) + np.abs(y) * abs(c["b"]) + np.abs(x), lim)
    for z, u, v, what in zip(Z, X, Y, ("incident", "reflected")):
        close(z, c["a"] * u + c["b"] * v, 0.0, tol, f"{what} wave of {c['a']!r} x + {c['b']!r} y")
    off = _coefs(c, t, x + 7.5)
    for z, u, what in zip(off, X, ("incident", "reflected")):
        close(z, u, 0.0, tol + _amp(c, phase, 0.0, x + 7.5, lim), f"{what} wave with a constant added to all gauges")
    return bool(np.any(det[1:] > lim)) and _varies(*x.T), _labels(c, det, lim)


@sub("C29", _wd(), 500)
def decomposition_in_time(c):
    """Circular shifts and running backwards (which exchanges the directions)."""
    if not increasing(c["lay"]):
        return False, []
    t, x, d, k, det, lim, near, noise, phase = _setup(c)
    n, m = len(t), c["m"]
    tol = 2 * _amp(c, phase, 0.0, x, lim)
    inc, ref = _coefs(c, t, x)
    i = np.arange(len(k))
    turn = np.exp(-2j * np.pi * ((i * m) % n) / n)
    a, b = _coefs(c, t, np.roll(x, m, axis=0))
    ok = np.ones(len(k), bool)
    if n % 2 == 0:
        ok[-1] = False  # Nyquist: only its real part survives
    close(a[ok], (inc * turn)[ok], 0.0, tol[ok], f"incident wave of gauges shifted circularly by {m} samples")
    close(b[ok], (ref * turn)[ok], 0.0, tol[ok], f"reflected wave of gauges shifted circularly by {m} samples")
    a, b = _coefs(c, t, np.roll(x[::-1], 1, axis=0))
    ok = ~near
    close(a[ok], np.conj(ref)[ok], 0.0, tol[ok], "incident wave of the gauges run backwards, against the reflected wave")
    close(b[ok], np.conj(inc)[ok], 0.0, tol[ok], "reflected wave of the gauges run backwards, against the incident wave")
    return bool(np.any(det[1:] > lim)) and _varies(*x.T), _labels(c, det, lim)


@sub("C29", _wd(), 500)
def decomposition_mirrored(c):
    """The gauges mirrored in space: directions exchanged, the result refers to the other end."""
    if not increasing(c["lay"]):
        return False, []
    t, x, d, k, det, lim, near, noise, phase = _setup(c)
    lay = c["lay"]
    mir = dict(c, lay=dict(lay, x=[-v for v in lay["x"][::-1]], w=lay["w"][::-1]))
    if not increasing(mir["lay"]):
        return False, []
    inc, ref = _coefs(c, t, x)
    a, b = _coefs(mir, t, x[:, ::-1])
    span = lay["x"][-1] - lay["x"][0]
    ok = ~near
    ok[0] = True
    if len(t) % 2 == 0:
        ok[-1] = False
    tol = 4 * _amp(c, phase, noise, x, lim) + len(t) * scale_of(x) * 100.0 * k * (np.spacing(max(abs(lay["x"][0]), abs(lay["x"][-1]))))
    close(a[ok], (ref * np.exp(1j * k * span))[ok], 0.0, tol[ok], "incident wave of the mirrored gauges, against the reflected wave at the last gauge")
    close(b[ok], (inc * np.exp(-1j * k * span))[ok], 0.0, tol[ok], "reflected wave of the mirrored gauges, against the incident wave at the last gauge")
    return bool(np.any(det[1:] > lim)) and _varies(*x.T), _labels(c, det, lim)


@st.composite
def _wdf(draw):
    c = draw(_wd())
    c["lo"], c["hi"] = draw(_edges(c["axis"]["n"]))
    return c


@sub("C29", _wdf(), 500)
def decomposition_and_filter(c):
    """Filtering the gauges, or the separated waves, is the same."""
    if not increasing(c["lay"]):
        return False, []
    t, x, d, k, det, lim, near, noise, phase = _setup(c)
    n = len(t)
    df = 1.0 / (n * c["axis"]["dt"])
    lo, hi = c["lo"] * df, float("inf") if c["hi"] == "inf" else c["hi"] * df
    F = lambda v: vec(cs.bandpassfilter(t, v, lo, hi), n, "bandpassfilter")
    y = np.stack([F(v) for v in x.T], axis=1)
    inc, ref = _call(c, t, x)
    a, b = _call(c, t, y)
    tol = float(np.max(_amp(c, phase, 0.0, x, lim)))
    close(a, F(inc), 0.0, tol, "incident wave of filtered gauges, against the filtered incident wave")
    close(b, F(ref), 0.0, tol, "reflected wave of filtered gauges, against the filtered reflected wave")
    keep = _mask(n, c["lo"], c["hi"])
    return bool(np.any((det > lim) & keep)) and _varies(*x.T), _labels(c, det, lim)
