import math

from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import moment, scaled_determinant, wavenumber
from wtb.props.c15 import increasing, layouts
from wtb.props.c17 import build_end, build_shape, grids, interpolate, shapes
from wtb.sut import Series, Spectrum, core_spectral as cs, core_wave_decomposition as cd

info(
    "C26",
    "Spectra of 3..200 bins on their own axes (or theoretical smooth ones), even records of 4..400 or up to 5000 samples,"
    " any seed, unseeded object calls, band edges anywhere, gauge layouts as in C15; synthesis, filter, analysis and"
    " decomposition are called in sequence on each other's results. Non-trivial: at least two components with energy.",
    ["Components within 1e-9 (relative) of an end of the given spectrum, the mean and the Nyquist component are not judged.",
     "The Hm0 of the spectra is compared with 4 times the standard deviation for smooth spectra only (peaks of at least"
     " six bins wide that vanish at both ends of the axis), as it is defined by a Simpson integral."],
)


@st.composite
def _chains(draw, lo=4, hi=400, big=(1000, 1024, 2500, 5000)):
    g = draw(grids(lo, hi, big, parity=0))
    g["frac"] = 0.0
    return dict(g=g, s=draw(shapes()), seed=draw(st.one_of(st.none(), st.just(0), ints(0, 10**6), ints(0, 2**32 - 1))), route=draw(st.sampled_from(["array", "object", "spectrum"])))


def _series(c, f, S):
    g = c["g"]
    if c.get("s", {}).get("irregular") is not None:
        # Spectrum objects are for uniform axes
        c = dict(c, route="array")
    a = (g["t0"], build_end(g), g["dt"])
    if c["route"] == "spectrum":
        return Spectrum(f.copy(), S.copy()).create_series(*a)
    if c["route"] == "object":
        return cs.spectrum2timeseries_object(f.copy(), S.copy(), *a, *([] if c["seed"] is None else [c["seed"]]))
    t, x = pair(cs.spectrum2timeseries(f.copy(), S.copy(), *a, *([] if c["seed"] is None else [c["seed"]])))
    return Series(t, x)


def _target(f, S, n, dt):
    """Density at the bins 1..n/2-1 of the record, its slope, and whether each is judged."""
    fk = np.arange(1, n // 2) / (n * dt)
    Si, slope, near = interpolate(fk, f, S)
    return fk, Si, slope, ~near


def _noise(o, dt):
    return time_noise(o.time) / dt


def _compare(sp, fk, Si, slope, judged, o, dt, what):
    n = 2 * (len(fk) + 1)
    ff, SS = vec(sp.f, n // 2 + 1, what + ": frequencies"), vec(sp.sVarDens, n // 2 + 1, what + ": densities")
    eps = 1e-9 + 4 * _noise(o, dt)
    close(ff[1:-1], fk, eps, 0.0, what + ": frequencies")
    tot = float(np.max(Si)) + 1e-300
    tol = eps * (Si + 4 * slope * fk) + 1e-11 * np.sqrt(Si * tot * n) + 1e-22 * n * tot
    close(SS[1:-1][judged], Si[judged], 0.0, tol[judged], what + ": density")


@sub("C26", _chains(), 1200)
def synthesis_and_analysis(c):
    g = c["g"]
    n, dt = g["n"], g["dt"]
    f, S = build_shape(c["s"], g)
    fk, Si, slope, judged = _target(f, S, n, dt)
    o = _series(c, f, S)
    expect(int(o.nt) == n, f"{o.nt} samples instead of {n}")
    if np.max(Si, initial=0.0) <= 0:
        return False, ["no energy below Nyquist"]
    sp = o.get_spectrum_raw(1.0 / (n * dt))
    _compare(sp, fk, Si, slope, judged, o, dt, f"spectrum of {n} samples")
    r = pair(cs.compute_spectrum_time_series(vec(o.time), vec(o.xTime)))
    _compare(Spectrum(*r), fk, Si, slope, judged, o, dt, f"compute_spectrum_time_series of {n} samples")
    if f[-1] < 0.99 * (0.5 / dt) and np.all(judged):
        v = float(np.sum(Si)) / (n * dt)
        close(float(np.std(vec(o.xTime))) ** 2, v, 1e-8 + 8 * _noise(o, dt) * n, 0.0, "variance of the series")
    return int(np.sum(Si > 1e-6 * np.max(Si))) >= 2, [c["route"], "unseeded" if c["seed"] is None else "seeded"]


@st.composite
def _smooth(draw):
    n = 2 * draw(st.one_of(ints(60, 400), st.sampled_from([512, 999, 1250])))
    g = dict(n=n, dt=draw(st.sampled_from([0.1, 0.5, 0.25, 2.0, 0.04])), t0=draw(st.sampled_from([0.0, -10.0, 1000.0])), frac=0.0)
    return dict(
        g=g, seed=draw(st.one_of(st.none(), ints(0, 10**6), ints(0, 2**32 - 1))), route=draw(st.sampled_from(["array", "object", "spectrum"])),
        w=draw(floats(3.0, n / 24.0)), at=draw(floats(0.25, 0.7)), hm0=draw(logfloats(0.01, 20.0)),
        per=draw(st.sampled_from([1, 2, 3, 5])),
    )


@sub("C26", _smooth(), 400)
def wave_height(c):
    """4 std of the series, Hm0 of its spectrum and Hm0 of the original agree."""
    g = c["g"]
    n, dt = g["n"], g["dt"]
    df = 1.0 / (n * dt)
    f = np.arange(n // 2 * c["per"]) * (df / c["per"])
    mid, w = c["at"] * (n // 2) * df, c["w"] * df
    w = min(w, mid / 6, (n // 2 * df - mid) / 6)
    if w < 2.5 * df:
        return False, ["too narrow"]
    S = np.exp(-0.5 * ((f - mid) / w) ** 2)
    S *= (c["hm0"] / 4) ** 2 / (w * math.sqrt(2 * math.pi))
    S0 = Spectrum(f, S)
    o = _series(c, f, S)
    sp = o.get_spectrum_raw(df)
    want = c["hm0"]
    close(num(S0.get_Hm0()), want, 2e-3, 0.0, "Hm0 of the given spectrum")
    close(4 * float(np.std(vec(o.xTime))), want, 2e-3, 0.0, "4 times the standard deviation")
    close(num(sp.get_Hm0()), want, 2e-3, 0.0, "Hm0 of the spectrum of the series")
    for p in ("Tm01", "Tm02"):
        close(num(getattr(sp, "get_" + p)()), num(getattr(S0, "get_" + p)()), 5e-3, 0.0, p + " of the spectrum of the series")
    close(num(sp.get_Tps()) , 1 / mid, 2e-2, 0.0, "Tps of the spectrum of the series")
    return True, [c["route"]]


@st.composite
def _bands(draw):
    c = draw(_chains())
    top = c["g"]["n"] // 2
    lo = draw(ints(0, top - 1)) + draw(floats(0.05, 0.95))
    hi = draw(st.one_of(st.just("inf"), ints(0, top).map(lambda v: v + 0.5)))
    if hi != "inf" and hi < lo:
        lo, hi = hi, lo
    return dict(c, lo=lo, hi=hi, by=draw(st.sampled_from(["time", "object"])))


@sub("C26", _bands(), 800)
def synthesis_filter_and_analysis(c):
    g = c["g"]
    n, dt = g["n"], g["dt"]
    df = 1.0 / (n * dt)
    f, S = build_shape(c["s"], g)
    fk, Si, slope, judged = _target(f, S, n, dt)
    if np.max(Si, initial=0.0) <= 0:
        return False, ["no energy below Nyquist"]
    o = _series(c, f, S)
    lo, hi = c["lo"], math.inf if c["hi"] == "inf" else c["hi"]
    a, b = lo * df, hi * df
    if c["by"] == "time":
        z = vec(cs.bandpassfilter(vec(o.time), vec(o.xTime), a, b), n)
        y = Series(vec(o.time), z)
    else:
        y = o.get_bandpassfilter(a, b)
        expect(isinstance(y, Series), f"get_bandpassfilter returned {type(y)}")
    k = np.arange(1, n // 2)
    inside = (k >= lo) & (k < hi)
    sp = y.get_spectrum_raw(df)
    ff, SS = vec(sp.f, n // 2 + 1), vec(sp.sVarDens, n // 2 + 1)
    eps = 1e-9 + 4 * _noise(o, dt)
    tot = float(np.max(Si))
    tol = eps * (Si + 4 * slope * fk) + 1e-11 * np.sqrt(Si * tot * n) + 1e-20 * n * tot
    close(SS[1:-1][judged], (Si * inside)[judged], 0.0, tol[judged], f"density after filtering to bins {lo}..{hi} of {n} samples")
    m = int(np.sum(inside & (Si > 1e-6 * tot)))
    return 0 < m < int(np.sum(Si > 1e-6 * tot)), [c["by"], "inside: " + ("none" if m == 0 else "some")]


@st.composite
def _fields(draw):
    c = draw(_chains(8, 300, ()))
    c["s"]["hi"] = min(c["s"]["hi"], 0.95)
    return dict(c, lay=draw(layouts(c["g"]["n"], c["g"]["dt"])), direction=draw(st.sampled_from([1, -1])), by=draw(st.sampled_from(["array", "series"])))


@sub("C26", _fields(), 500)
def synthesis_decomposition_and_analysis(c):
    if not increasing(c["lay"]):
        return False, []
    g, lay = c["g"], c["lay"]
    n, dt = g["n"], g["dt"]
    df = 1.0 / (n * dt)
    f, S = build_shape(c["s"], g)
    fk, Si, slope, judged = _target(f, S, n, dt)
    if np.max(Si, initial=0.0) <= 0 or not np.all(judged):
        return False, ["no energy below Nyquist"]
    o = _series(c, f, S)
    x0, t = vec(o.xTime, n), vec(o.time, n)
    X = np.fft.rfft(x0)
    X[-1] = 0.0
    k = np.array([wavenumber(2 * np.pi * j * df, lay["h"]) for j in range(n // 2 + 1)])
    d = np.array(lay["x"]) - lay["x"][0]
    x = np.stack([np.fft.irfft(X * np.exp(-1j * c["direction"] * k * dd), n) for dd in d], axis=1)
    det = np.array([scaled_determinant(q * d, lay["w"]) for q in k])[1:-1]
    lim = 0.125 if lay["lim"] is None else lay["lim"]
    live = Si > 0
    if np.any(np.abs(det[live] - lim) < 1e-5 + 1e-3 * _noise(o, dt) * n):
        return False, ["at the threshold"]
    keep = det > lim
    args = [lay["h"], np.array(lay["x"]), np.array(lay["w"])] + ([] if lay["lim"] is None else [lay["lim"]])
    if c["by"] == "series":
        r = pair(cd.decompose_linear_ZS_series([Series(t, x[:, i]) for i in range(len(d))], *args))
    else:
        r = [Series(t, np.ravel(v)) for v in pair(cd.decompose_linear_ZS(t, x, *args))]
    mine, other = r if c["direction"] == 1 else r[::-1]
    phase = float(np.max(k) * d[-1]) + 1.0
    m = float(np.min(det[keep & live])) if np.any(keep & live) else 1.0
    rel = (1e-9 + 100 * phase * (1e-13 + _noise(o, dt))) * max(1.0, 1.0 / m)
    if rel > 1e-3:
        return False, ["ill-conditioned"]
    tot = float(np.max(Si))
    sp, so = mine.get_spectrum_raw(df), other.get_spectrum_raw(df)
    tol = 4 * rel * Si + rel * np.sqrt(Si * tot) + rel**2 * tot + 1e-9 * slope * fk * 4
    close(vec(sp.sVarDens, n // 2 + 1)[1:-1], Si * keep, 0.0, tol + 4 * _noise(o, dt) * slope * fk, "density of the wave in the direction of travel")
    bad = vec(so.sVarDens, n // 2 + 1)[1:-1]
    close(bad, np.zeros(len(bad)), 0.0, 4 * rel**2 * tot * n, "density of the wave in the other direction")
    return int(np.sum(keep & live)) >= 2, [c["by"], "incident" if c["direction"] == 1 else "reflected"]
