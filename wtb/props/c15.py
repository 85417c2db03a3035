from hypothesis import strategies as st

from wtb.core import close, expect, info, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import scaled_determinant, wavenumber
from wtb.sut import Series, core_wave_decomposition as cd

info(
    "C15",
    "Sums of one to six (or all) Fourier components travelling in both directions past 2..12 gauges (also standing waves with a node at a gauge) with random gaps"
    " (0.02..1.2 wave lengths of a drawn component), weights 0..1 (also exactly zero and one), depths from shallow to"
    " deep, thresholds 0.001..0.6 and the default, even and odd record lengths 8..400 (and up to 2500), start times up"
    " to 1.7e9. Non-trivial: a component above the threshold with both an incident and a reflected amplitude.",
    ["The component at the Nyquist frequency of an even record has no direction and is left out here (C16 covers it).",
     "Components within 1e-6 of the threshold are not generated as a judged case."],
)


@st.composite
def layouts(draw, n, dt, max_gauges=12):
    """Depth, gauges, weights and threshold for records of n samples."""
    T = n * dt
    kind = draw(st.sampled_from(["any", "shallow", "deep"]))
    ref = draw(ints(1, max(1, (n - 1) // 2)))
    w = 2 * np.pi * ref / T
    a = {"any": logfloats(0.05, 5.0), "shallow": logfloats(1e-3, 0.05), "deep": logfloats(5.0, 50.0)}[kind]
    h = float("%.5g" % (9.81 * draw(a) / w**2))
    L = 2 * np.pi / wavenumber(w, h)
    ng = draw(ints(2, max_gauges))
    gaps = draw(st.lists(logfloats(0.02, 1.2), min_size=ng - 1, max_size=ng - 1))
    x0 = draw(st.one_of(st.just(0.0), floats(-20.0, 20.0)))
    x = [float(x0)]
    for g in gaps:
        x.append(float("%.8g" % (x[-1] + g * L / (ng - 1))))
    wk = draw(st.sampled_from(["ones", "ones", "any", "zeros", "ints"]))
    if wk == "ones":
        wts = [1.0] * ng
    elif wk == "ints":
        wts = [1] * ng
    elif wk == "any":
        wts = draw(st.lists(floats(0.0, 1.0, 3), min_size=ng, max_size=ng))
    else:
        wts = draw(st.lists(st.sampled_from([0.0, 1.0, 0.5, 1.0]), min_size=ng, max_size=ng))
    if not sum(wts) > 1.001:
        wts[draw(ints(0, ng - 1))] = 1.0
        if not sum(wts) > 1.001:
            i = draw(ints(0, ng - 1))
            wts = [1.0 if v < 1.0 or j == i else v for j, v in enumerate(wts)]
    lim = draw(st.one_of(st.none(), st.none(), st.sampled_from([0.02, 0.25, 0.5]), logfloats(1e-3, 0.6), logfloats(1e-6, 1e-3)))
    return dict(h=h, x=x, w=wts, lim=lim)


def increasing(l):
    return bool(np.all(np.diff(l["x"]) > 0)) and sum(l["w"]) > 1.001


@st.composite
def _cases(draw, hi=400, big=(1024, 2500), series=False):
    a = draw(axes(8, hi, big))
    n, dt = a["n"], a["dt"]
    lay = draw(layouts(n, dt))
    top = (n - 1) // 2
    nc = draw(ints(1, 6))
    comp = []
    for _ in range(nc):
        comp.append(
            [
                draw(ints(1, top)),
                draw(st.one_of(st.just(0.0), floats(0.01, 3.0))),
                draw(floats(0.0, 6.283, 4)),
                draw(st.one_of(st.just(0.0), floats(0.01, 3.0), st.sampled_from([1e-3, 1e-6, 1e-8]))),
                draw(floats(0.0, 6.283, 4)),
            ]
        )
    return dict(
        axis=a,
        lay=lay,
        comp=comp,
        full=draw(st.one_of(st.none(), st.none(), salts())),
        node=draw(st.one_of(st.none(), st.none(), ints(0, 9))),
        mean=draw(st.one_of(st.just(0.0), floats(-2.0, 2.0))),
        as_list=draw(st.booleans()),
    )


def _components(c):
    """Complex amplitudes per bin of incident and reflected wave: x = sum Re(A exp(i w t))."""
    n = c["axis"]["n"]
    top = (n - 1) // 2
    A, B = np.zeros(top + 1, complex), np.zeros(top + 1, complex)
    if c["full"] is not None:
        A[1:] = cnoise(c["full"], 2 * top)[:top]
        B[1:] = cnoise(c["full"], 2 * top)[top:]
    else:
        for k, a, pa, b, pb in c["comp"]:
            A[k] += a * np.exp(1j * pa)
            B[k] += b * np.exp(1j * pb)
    return A, B


def _synth(A, n):
    """Record of n samples with complex amplitudes A at the bins 0.. (below Nyquist)."""
    X = np.zeros(n, complex)
    X[1 : len(A)] = A[1:] / 2 * n
    X[n - len(A) + 1 :] = np.conj(A[:0:-1]) / 2 * n
    return np.real(np.fft.ifft(X))


def _field(c):
    a, lay = c["axis"], c["lay"]
    n, T = a["n"], a["n"] * a["dt"]
    A, B = _components(c)
    k = np.array([wavenumber(2 * np.pi * j / T, lay["h"]) for j in range(len(A))])
    d = np.array(lay["x"]) - lay["x"][0]
    x = np.stack([_synth(A * np.exp(-1j * k * dd) + B * np.exp(1j * k * dd), n) for dd in d], axis=1) + c["mean"]
    if c.get("node") is not None:
        # standing waves with a node at one of the gauges
        B = -A * np.exp(-2j * k * d[c["node"] % len(d)])
        x = np.stack([_synth(A * np.exp(-1j * k * dd) + B * np.exp(1j * k * dd), n) for dd in d], axis=1) + c["mean"]
    det = np.array([scaled_determinant(kk * d, lay["w"]) for kk in k])
    return build_axis(a), x, A, B, k, d, det


def _call(c, t, x, series=False):
    lay = c["lay"]
    xl, wl = lay["x"], lay["w"]
    if not c["as_list"]:
        xl, wl = np.array(xl), np.array(wl)
    args = [lay["h"], xl, wl] + ([] if lay["lim"] is None else [lay["lim"]])
    if series:
        s = [Series(t, x[:, i]) for i in range(x.shape[1])]
        r = pair(cd.decompose_linear_ZS_series(s, *args), "decompose_linear_ZS_series")
        for o in r:
            expect(isinstance(o, Series), f"decompose_linear_ZS_series returned {type(o)}")
            close(vec(o.time, len(t), "time"), t, 0.0, 0.0, "time axis of the result")
        return [vec(o.xTime, len(t), "signal") for o in r]
    r = pair(cd.decompose_linear_ZS(t, x, *args), "decompose_linear_ZS")
    return [vec(np.ravel(o) if np.ndim(o) == 2 and 1 in np.shape(o) else o, len(t), "signal") for o in r]


def _tolerance(A, B, k, d, det, keep, t, dt):
    """Rounding of the signals and of the phases, amplified by the least-squares system."""
    amp = float(np.sum(np.abs(A)) + np.sum(np.abs(B)))
    m = float(np.min(det[keep])) if np.any(keep) else 1.0
    # the frequencies follow from the time axis: noise in its step is noise in the phases
    n = len(t)
    noise = (time_noise(t) / dt) if dt > 0 else 0.0
    phase = float(np.max(k) * d[-1]) + 1.0
    return amp * (1e-12 * n**0.5 + 20.0 * phase * (1e-14 + noise)) * max(1.0, 4.0 / m)


def _decomposed(c, series):
    if not increasing(c["lay"]):
        return False, []
    t, x, A, B, k, d, det = _field(c)
    lim = 0.125 if c["lay"]["lim"] is None else c["lay"]["lim"]
    live = np.abs(A) + np.abs(B) > 0
    if np.any(np.abs(det[live] - lim) < min(1e-6, 1e-3 * lim) + 1e-4 * time_noise(t) / c["axis"]["dt"]):
        return False, ["at the threshold"]
    keep = det > lim
    xin, xre = _call(c, t, x, series)
    n = len(t)
    tol = _tolerance(A, B, k, d, det, keep & live, t, c["axis"]["dt"]) + abs(c["mean"]) * 1e-12
    close(xin, _synth(A * keep, n), 0.0, tol, "incident wave at the first gauge")
    close(xre, _synth(B * keep, n), 0.0, tol, "reflected wave at the first gauge")
    both = keep & (np.abs(A) > 0) & (np.abs(B) > 0)
    labels = [f"gauges: {len(d)}", "odd" if n % 2 else "even", "threshold given" if c["lay"]["lim"] is not None else "default threshold"]
    labels.append("tolerance above 1e-6" if tol > 1e-6 * (scale_of(A) + scale_of(B)) else "tolerance below 1e-6")
    if np.any(live & ~keep):
        labels.append("some component below the threshold")
    return bool(np.any(both)), labels


@sub("C15", _cases(), 1500)
def recovers_both_waves(c):
    return _decomposed(c, False)


@sub("C15", _cases(150, ()), 500)
def series_variant(c):
    return _decomposed(c, True)


@sub("C15", _cases(150, ()), 400)
def one_direction(c):
    """A wave in one direction only appears in the matching result only; mirrored gauges exchange them."""
    if not increasing(c["lay"]):
        return False, []
    c = dict(c, mean=0.0)
    t, x, A, B, k, d, det = _field(c)
    lim = 0.125 if c["lay"]["lim"] is None else c["lay"]["lim"]
    live = np.abs(A) + np.abs(B) > 0
    if np.any(np.abs(det[live] - lim) < min(1e-6, 1e-3 * lim) + 1e-4 * time_noise(t) / c["axis"]["dt"]):
        return False, ["at the threshold"]
    keep = det > lim
    n = len(t)
    tol = _tolerance(A, B, k, d, det, keep & live, t, c["axis"]["dt"])
    for C, s in ((A, -1), (B, 1)):
        x = np.stack([_synth(C * np.exp(s * 1j * k * dd), n) for dd in d], axis=1)
        xin, xre = _call(c, t, x)
        mine, other = (xin, xre) if s < 0 else (xre, xin)
        close(mine, _synth(C * keep, n), 0.0, tol, "incident wave" if s < 0 else "reflected wave")
        close(other, np.zeros(n), 0.0, tol, "opposite wave")
    return bool(np.any(keep & live)), []
