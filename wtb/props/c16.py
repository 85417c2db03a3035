from hypothesis import strategies as st

from wtb.core import close, expect, info, scale_of, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import scaled_determinant, two_wave_fit, wavenumber
from wtb.props.c15 import _call, increasing, layouts

info(
    "C16",
    "Arbitrary signals (noise, lists, irregular seas, spikes, with mean) at 2..12 gauges, layouts, weights and thresholds"
    " as in C15, one component up to 1e10 times larger than the others, gauges that hardly move or not at all, record lengths 2..300, all bins including the Nyquist bin. Non-trivial: at least one frequency above"
    " and one (other than zero) at or below the threshold, or all above.",
    ["Frequencies whose scaled determinant is within 1e-6 (or a thousandth of it) of the threshold are left out of the comparison."],
)


@st.composite
def _cases(draw, gauges=12, lo=2):
    a = draw(axes(lo, 300, (1024,)))
    lay = draw(layouts(a["n"], a["dt"], gauges))
    return dict(
        axis=a,
        lay=lay,
        x=[draw(signals(a["n"], False, list_max=12)) for _ in lay["x"]],
        off=draw(st.one_of(st.just(0.0), floats(-3.0, 3.0))),
        as_list=draw(st.booleans()),
        series=draw(st.booleans()),
        gain=draw(st.one_of(st.none(), st.lists(st.sampled_from([1.0, 1.0, 1e-2, 1e-4, 1e-7, 0.0]), min_size=len(lay["x"]), max_size=len(lay["x"])))),
        loud=draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(ints(0, a["n"] // 2), ints(2, 10)).map(list))),
    )


def _setup(c):
    a, lay = c["axis"], c["lay"]
    n = a["n"]
    t = build_axis(a)
    x = np.stack([build_signal(s, n) for s in c["x"]], axis=1) + c["off"]
    if c.get("loud"):
        # one component much larger than all the others
        b, e = c["loud"]
        x = x * 10.0**-e + np.cos(2 * np.pi * ((b * np.arange(n)) % n) / n + 0.3)[:, None]
    if c.get("gain"):
        # some gauges hardly move (or not at all)
        x = x * np.array(c["gain"])[None, :]
    d = np.array(lay["x"]) - lay["x"][0]
    nf = n // 2 + 1
    k = np.array([wavenumber(2 * np.pi * j / (n * a["dt"]), lay["h"]) for j in range(nf)])
    det = np.array([scaled_determinant(kk * d, lay["w"]) for kk in k])
    lim = 0.125 if lay["lim"] is None else lay["lim"]
    noise = time_noise(t) / a["dt"]
    phase = k * d[-1] + 1.0
    near = np.abs(det - lim) <= min(1e-6, 1e-3 * lim) + 100.0 * phase * noise * (1 + np.sum(lay["w"])) ** 2
    return t, x, d, k, det, lim, near, noise, phase


@sub("C16", _cases(), 1500)
def least_squares(c):
    if not increasing(c["lay"]):
        return False, []
    t, x, d, k, det, lim, near, noise, phase = _setup(c)
    n = len(t)
    xin, xre = _call(c, t, x, c.get("series", False))
    X = np.fft.rfft(x, axis=0)
    gi, gr = np.fft.rfft(xin), np.fft.rfft(xre)
    wi, wr = np.zeros(len(k), complex), np.zeros(len(k), complex)
    w = np.array(c["lay"]["w"], float)
    for j in range(1, len(k)):
        if det[j] > lim:
            wi[j], wr[j] = two_wave_fit(X[j], k[j] * d, w)
    if n % 2 == 0:
        wi[-1], wr[-1] = wi[-1].real, wr[-1].real
    ok = ~near
    ok[0] = True
    amp = scale_of(x) * n
    tol = amp * (1e-12 + 20.0 * phase * (1e-14 + noise)) * (1.0 + (1 + np.sum(w)) ** 2 / np.maximum(lim, det))
    # the bins left out are taken over: they can be either zero or the fit
    close(gi[ok], wi[ok], 0.0, tol[ok], "Fourier coefficients of the incident wave")
    close(gr[ok], wr[ok], 0.0, tol[ok], "Fourier coefficients of the reflected wave")
    above = np.sum(det[1:] > lim)
    labels = [f"gauges: {len(d)}", "odd" if n % 2 else "even"]
    if above and above < len(k) - 1:
        labels.append("both sides of the threshold")
    if np.any(w == 0):
        labels.append("gauge of weight zero")
    return above > 0 and scale_of(x) > 0, labels


@sub("C16", _cases(), 500)
def weight_zero(c):
    """A gauge of weight zero (not the first, which fixes the position) can be left out, whatever it measures."""
    lay = c["lay"]
    ng = len(lay["x"])
    if ng < 3 or not increasing(lay):
        return False, []
    drop = 1 + (len(c["x"][0]["kind"]) + c["axis"]["n"]) % (ng - 1)
    w = [1.0 if i != drop and v == 0 else float(v) for i, v in enumerate(lay["w"])]
    w[drop] = 0.0
    if not sum(w) > 1.001:
        return False, []
    c = dict(c, lay=dict(lay, w=w))
    t, x, d, k, det, lim, near, noise, phase = _setup(c)
    if np.any(near[1:]):
        return False, ["at the threshold"]
    keep = [i for i in range(ng) if i != drop]
    a = _call(c, t, x)
    y = x.copy()
    y[:, drop] = 1e3
    b = _call(c, t, y)
    e = _call(dict(c, lay=dict(c["lay"], x=[lay["x"][i] for i in keep], w=[w[i] for i in keep])), t, x[:, keep])
    live = np.arange(len(k)) > 0
    amp = (scale_of(x) + 1e-300) * max(1.0, (1 + sum(w)) ** 2 / lim)
    for got, what in ((b, "another signal at that gauge"), (e, "that gauge left out")):
        for u, v, which in zip(got, a, ("incident", "reflected")):
            close(u, v, 0.0, 1e-10 * amp + 1e-10 * float(np.max(phase)) * amp, f"{which} wave with {what}")
    return bool(np.any(det[live] > lim)), []


@sub("C16", _cases(2, 4), 500)
def two_gauges(c):
    """Two gauges of weight one: incident plus reflected wave is the first gauge."""
    if not increasing(c["lay"]) or len(c["lay"]["x"]) != 2:
        return False, []
    c = dict(c, lay=dict(c["lay"], w=[1, 1] if c["as_list"] else [1.0, 1.0]))
    t, x, d, k, det, lim, near, noise, phase = _setup(c)
    xin, xre = _call(c, t, x)
    n = len(t)
    G = np.fft.rfft(xin + xre)
    X = np.fft.rfft(x[:, 0])
    keep = (det > lim) & ~near
    keep[0] = False
    if n % 2 == 0:
        X[-1] = X[-1].real
    tol = scale_of(x) * n * (1e-12 + 20.0 * phase * (1e-14 + noise)) * (1.0 + 9.0 / np.maximum(lim, det))
    close(G[keep], X[keep], 0.0, tol[keep], "sum of both waves, compared with the first gauge")
    drop = (det < lim) & ~near
    drop[0] = True
    close(G[drop], np.zeros(int(np.sum(drop))), 0.0, tol[drop], "sum of both waves at the dropped frequencies")
    return bool(np.any(keep)), []
