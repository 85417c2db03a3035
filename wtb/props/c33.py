from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.props.c04 import _edges
from wtb.props.c15 import _call, increasing, layouts
from wtb.props.c16 import _cases as _gauges, _setup
from wtb.sut import Series, core_spectral as cs

info(
    "C33",
    "Records of 2..200 or up to 4096 samples repeated 2..5 times, and the same records sampled 2..4 times as densely"
    " (by their own trigonometric polynomial), through transforms, densities, band filter, decomposition and the"
    " statistics of the record. Non-trivial: a record that is not constant.",
    ["Denser sampling is compared below the old Nyquist frequency; the component at Nyquist itself is removed first."],
)


@st.composite
def _cases(draw):
    a = draw(axes(2, 200, (512, 1000, 1024, 1025, 2048, 2500, 4096)))
    n = a["n"]
    c = dict(axis=a, x=draw(signals(n, False)), off=draw(st.one_of(st.just(0.0), floats(-3.0, 3.0))), r=draw(ints(2, 5)))
    c["lo"], c["hi"] = draw(_edges(n))
    return c


def _axis(c, n, dt):
    return build_axis(dict(c["axis"], n=n, dt=dt))


@sub("C33", _cases(), 1500)
def repeated_records(c):
    n, dt, r = c["axis"]["n"], c["axis"]["dt"], c["r"]
    x = build_signal(c["x"], n) + c["off"]
    N = n * r
    t, T, X = _axis(c, n, dt), _axis(c, N, dt), np.tile(x, r)
    size = scale_of(x) + 1e-300
    a = vec(pair(cs.time2freq(t, x), "time2freq")[1], n, "time2freq", "c")
    b = vec(pair(cs.time2freq(T, X), "time2freq")[1], N, "time2freq", "c")
    want = np.zeros(N, complex)
    want[::r] = a * r
    close(b, want, 0.0, 1e-12 * size * N, f"Fourier coefficients of the record repeated {r} times")
    df = 1.0 / (n * dt)
    f, S = pair(cs.compute_spectrum_time_series(t, x, 0.0), "compute_spectrum_time_series")
    F, V = pair(cs.compute_spectrum_time_series(T, X, 0.0), "compute_spectrum_time_series")
    S, V = vec(S, n // 2 + 1, "density"), vec(V, N // 2 + 1, "density")
    top = len(S) - 1 if n % 2 == 0 else len(S)  # the Nyquist bin counts differently
    want = np.zeros(N // 2 + 1)
    want[: r * (top - 1) + 1 : r] = r * S[:top]
    k = np.ones(len(V), bool)
    if n % 2 == 0:
        k[r * (n // 2) :] = False
    tol = 1e-11 * size**2 / df * r
    close(V[k], want[k], 1e-9, tol, f"density of the record repeated {r} times")
    lo, hi = c["lo"] * df, float("inf") if c["hi"] == "inf" else c["hi"] * df
    y = vec(cs.bandpassfilter(t, x, lo, hi), n, "bandpassfilter")
    if not (n % 2 == 0 and c["hi"] != "inf" and c["hi"] >= n // 2 - 0.5) and c["lo"] > 0:
        Y = vec(cs.bandpassfilter(T, X, lo, hi), N, "bandpassfilter")
        close(Y, np.tile(y, r), 0.0, 1e-11 * size, f"band filter {lo!r}..{hi!r} of the record repeated {r} times")
    s, q = Series(t, x), Series(T, X)
    close(num(q.mean()), num(s.mean()), 0.0, 1e-12 * size, "mean")
    close(num(q.var()), num(s.var()), 1e-9, 1e-12 * size**2, "variance")
    close(num(q.max()), num(s.max()), 0.0, 0.0, "maximum")
    close(num(q.min()), num(s.min()), 0.0, 0.0, "minimum")
    if np.ptp(x) > 1e-6 * size and np.ptp(x) > 0:
        for m in ("get_skewness", "get_asymmetry"):
            u, v = np.ravel(getattr(s, m)())[0], np.ravel(getattr(q, m)())[0]
            close(v, u, 1e-6, 1e-7, f"{m} of the record repeated {r} times")
    return np.ptp(x) > 1e-9, ["odd" if n % 2 else "even", f"{r} times"]


@sub("C33", _cases(), 700)
def waves_of_repeated_records(c):
    """Every repetition adds the same waves: those of the record closed into a ring."""
    n, dt = c["axis"]["n"], c["axis"]["dt"]
    x = build_signal(c["x"], n) + c["off"]
    t2, t3, t4 = (_axis(c, n * k, dt) for k in (2, 3, 4))
    a, b, d = Series(t2, np.tile(x, 2)), Series(t3, np.tile(x, 3)), Series(t4, np.tile(x, 4))
    m = b.nwave - a.nwave
    expect(d.nwave - b.nwave == m, f"{a.nwave}, {b.nwave} and {d.nwave} waves in 2, 3 and 4 repetitions")
    if a.nwave == 0 and m <= 1:
        # at most one crossing per repetition
        return False, ["no waves"]
    size = scale_of(x)
    tt = 20 * time_noise(t4) + 1e-9 * dt
    if near_sample(np.tile(x, 2), 1e-9 + time_noise(t4) / dt):
        return False, ["crossing next to a sample"]
    h, T = vec(b.hwave), vec(b.twave)
    H, U = vec(d.hwave), vec(d.twave)
    close(H[: len(h)], h, 1e-9, 1e-12 * size, "heights of the first waves with one more repetition")
    close(U[: len(h)], T, 0.0, tt, "periods of the first waves with one more repetition")
    close(H[m:], h, 1e-9, 1e-12 * size, "heights of the waves one repetition later")
    close(U[m:], T, 0.0, tt, "periods of the waves one repetition later")
    expect(abs(np.sum(U[-m:]) - n * dt) <= tt * max(m, 1) * 4, f"the {m} waves of one repetition last {np.sum(U[-m:])!r}, not {n * dt!r}")
    return m > 0, ["waves per repetition: " + ("1" if m == 1 else "2+")]


def _dense(x, q):
    """The trigonometric polynomial through x, sampled q times as densely (Nyquist component removed)."""
    n = len(x)
    X = np.fft.rfft(x)
    if n % 2 == 0:
        X[-1] = 0.0
    Y = np.zeros(n * q // 2 + 1, complex)
    Y[: len(X)] = X * q
    return np.fft.irfft(X, n), np.fft.irfft(Y, n * q)


@sub("C33", _cases(), 1200)
def denser_sampling(c):
    n, dt, q = c["axis"]["n"], c["axis"]["dt"], min(c["r"], 4)
    if n < 4:
        return False, []
    x, y = _dense(build_signal(c["x"], n) + c["off"], q)
    size = scale_of(x) + scale_of(y) + 1e-300
    t, T = _axis(c, n, dt), _axis(c, n * q, dt / q)
    df = 1.0 / (n * dt)
    k = n // 2 + 1
    # what the axes themselves resolve
    noise = (time_noise(t) + time_noise(T)) / (dt / q)
    if noise > 1e-5:
        return False, ["step below the resolution of the axis"]
    S = vec(pair(cs.compute_spectrum_time_series(t, x, 0.0), "compute_spectrum_time_series")[1], k, "density")
    V = vec(pair(cs.compute_spectrum_time_series(T, y, 0.0), "compute_spectrum_time_series")[1], n * q // 2 + 1, "density")
    tol = (1e-11 + 10 * noise) * size**2 / df
    close(V[:k], S, 1e-9 + 10 * noise, tol, f"density of the record sampled {q} times as densely")
    close(V[k:], np.zeros(len(V) - k), 0.0, tol, "density above the old Nyquist frequency")
    lo, hi = c["lo"] * df, float("inf") if c["hi"] == "inf" else c["hi"] * df
    if c["lo"] > 0 and noise * n < 0.01:
        a = vec(cs.bandpassfilter(t, x, lo, hi), n, "bandpassfilter")
        b = vec(cs.bandpassfilter(T, y, lo, hi), n * q, "bandpassfilter")
        close(b[::q], a, 0.0, 1e-11 * size, f"band filter {lo!r}..{hi!r} of the record sampled {q} times as densely")
    s, u = Series(t, x), Series(T, y)
    close(num(u.mean()), num(s.mean()), 0.0, 1e-11 * size, "mean")
    close(num(u.var()), num(s.var()), 1e-9, 1e-11 * size**2, "variance")
    expect(u.max() >= s.max() - 1e-11 * size and u.min() <= s.min() + 1e-11 * size, "extremes of the denser record are less extreme")
    return np.ptp(x) > 1e-9, ["odd" if n % 2 else "even", f"{q} times"]


@st.composite
def _wd(draw):
    c = draw(_gauges(4, 4))
    c["r"] = draw(ints(2, 3))
    return c


@sub("C33", _wd(), 400)
def decomposition_of_repeated_gauges(c):
    if not increasing(c["lay"]) or c["axis"]["n"] > 300:
        return False, []
    t, x, d, k, det, lim, near, noise, phase = _setup(c)
    n, r = len(t), c["r"]
    if noise > 1e-6 or np.any(near[1:]):
        return False, ["at the threshold"]
    if n % 2 == 0:
        X = np.fft.rfft(x, axis=0)
        X[-1] = 0.0
        x = np.fft.irfft(X, n, axis=0)
    T = build_axis(dict(c["axis"], n=n * r))
    a = _call(c, t, x)
    b = _call(dict(c, axis=dict(c["axis"], n=n * r)), T, np.tile(x, (r, 1)))
    w = np.sum(np.array(c["lay"]["w"], float))
    P = np.fft.rfft(x, axis=0)
    amp = scale_of(x) + 1e-300
    tol = amp * (1e-11 + 100.0 * float(np.max(phase)) * (1e-14 + noise)) * (1.0 + (1 + w) ** 2 / lim) * np.sqrt(n)
    for u, v, what in zip(a, b, ("incident", "reflected")):
        close(v, np.tile(u, r), 0.0, tol, f"{what} wave of gauges repeated {r} times")
    return bool(np.any(det[1:] > lim)) and scale_of(x) > 1e-9, [f"gauges: {len(d)}", "odd" if n % 2 else "even"]
