from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import Series, core_time as ct

info(
    "C27",
    "Records of 2..400 or up to 4096 samples on exactly representable time axes, with scale factors that are powers of"
    " two (2^-40..2^40 for heights and for time) and exactly representable time shifts; every analysis of a"
    " Series is made of the record and of its transform, and the results are compared under the transform. Non-trivial:"
    " a record with at least one wave.",
    ["Smoothed peak periods are compared for densities above 1e-9 only (the tool treats lower ones as empty)."],
)

KINDS = ("list", "alpha", "alpha", "sines", "noise", "waves", "waves")


@st.composite
def _records(draw, hi=400, big=HUGE):
    n = draw(sizes(2, hi, big))
    return dict(
        n=n,
        dt=draw(st.sampled_from([1.0, 0.5, 0.25, 0.125, 2.0, 3.0, 0.375, 5.0 / 16, 1.0 / 64])),
        t0=draw(st.sampled_from([0.0, 0.0, -8.0, 100.5, -0.25, 4096.0])),
        x=draw(signals(n, scales=False, kinds=KINDS)),
        off=draw(st.sampled_from([0.0, 0.0, 0.25, -0.5])),
        df=draw(st.one_of(st.sampled_from([0.0, 1.0, 1.0]), floats(1.0, 6.0))),
        lo=draw(floats(0.05, 0.7)),
        hi=draw(floats(0.05, 1.2)),
        frac=draw(st.sampled_from([0.5, 0.1, 0.25, 1.0, 0.01])),
        perc=draw(st.sampled_from([2.0, 10.0, 50.0, 100.0, 0.1])),
        seg=draw(floats(0.15, 1.0)),
    )


def _build(c):
    return c["t0"] + c["dt"] * np.arange(c["n"]), build_signal(c["x"], c["n"]) + c["off"]


def _analyse(t, x, c, b=1.0):
    """All analyses of one record; b: factor of the time axis. Per result (unit of x, unit of t, value)."""
    n = c["n"]
    o = Series(t.copy(), x.copy())
    df = 1.0 / (n * c["dt"] * b)
    r = {}

    def put(name, value, ux=0, ut=0, at=False, noise=None):
        r[name] = (value, ux, ut, at, noise)

    for kind in ("down", "up"):
        nw, tc = pair(o.get_crossing(kind))
        put(f"number of waves ({kind})", num(nw))
        put(f"crossings ({kind})", vec(tc), 0, 1, True)
        w = pair(ct.determine_params_individual_waves(vec(tc), t.copy(), x.copy()), n=6)
        for name, v, ux, ut, at in zip(
            ("heights", "periods", "crests", "troughs", "crest times", "trough times"), w, (1, 0, 1, 1, 0, 0), (0, 1, 0, 0, 1, 1), (0, 0, 0, 0, 1, 1)
        ):
            put(f"{name} ({kind})", vec(v), ux, ut, bool(at))
    sx = scale_of(x)
    put("nwave", num(o.nwave))
    put("wave heights", vec(o.hwave), 1)
    put("wave periods", vec(o.twave), 0, 1)
    if o.nwave > 0:
        put("Hrms", num(o.get_Hrms()), 1)
        put("Hmax", num(o.get_Hmax()), 1)
        H, T = pair(o.get_Hs())
        put("Hs", num(H), 1)
        put("Ts", num(T), 0, 1)
        put("H2% Rayleigh", num(o.get_H2p_Rayleigh()), 1)
        H, T = pair(o.highest_waves(c["frac"]))
        put("mean of highest waves", num(H), 1)
        put("mean period of highest waves", num(T), 0, 1)
        put("exceeded wave height", num(o.get_exceedance_waveheight(c["perc"])), 1)
    put("dt", num(o.dt), 0, 1)
    put("maximum", num(o.max()), 1)
    put("minimum", num(o.min()), 1)
    put("mean", num(o.mean()), 1, 0, False, sx)
    if sx > 0 and np.std(x) > 1e-6 * sx:
        put("skewness", num(o.get_skewness()), 0, 0, False, 1.0)
        put("asymmetry", num(o.get_asymmetry()), 0, 0, False, 1.0)
    if n >= 3:
        # (a resolution wider than the whole axis leaves no band, and one band is no spectrum)
        s = o.get_spectrum_raw((c["df"] if n >= 40 else 0.0) * df)
        put("frequencies", vec(s.f), 0, -1)
        put("densities", vec(s.sVarDens), 2, 1, False, n * c["dt"] * b * sx**2)
        if c["df"] <= 1.0 and n >= 8:
            fm = 0.5 * df
            put("Hm0", num(s.get_Hm0()), 1, 0, False, sx)
            e = float(np.sum(vec(s.sVarDens)[1:])) * df
            if e > 1e-6 * sx**2 and s.get_Hm0(fmin=fm) > 1e-3 * sx:
                put("Tm01", num(s.get_Tm01(fmin=fm)), 0, 1, False, 0.0)
                put("Tm02", num(s.get_Tm02(fmin=fm)), 0, 1, False, 0.0)
                put("Tm-1,0", num(s.get_Tmm10(fmin=fm)), 0, 1, False, 0.0)
        y = o.get_bandpassfilter(c["lo"] * 0.5 / (c["dt"] * b), c["hi"] * 0.5 / (c["dt"] * b))
        put("filtered record", vec(y.xTime, n), 1, 0, False, sx)
        put("time axis of the filtered record", vec(y.time, n), 0, 1, True)
        f, X, odd = pair(o.get_fourier_comp(), n=3)
        put("Fourier frequencies", vec(f), 0, -1)
        put("Fourier coefficients", vec(X, kind="c"), 1, 0, False, n * sx)
        expect(bool(odd) == bool(n % 2), "parity")
    if n >= 8:
        seg = max(4, int(n * c["seg"]))
        p = o.get_spectrum(dfDesired=1.0 / ((seg + 0.01) * c["dt"] * b))
        put("Welch frequencies", vec(p.f), 0, -1)
        put("Welch densities", vec(p.sVarDens), 2, 1, False, n * c["dt"] * b * sx**2)
        p = o.get_spectrum(nperseg=seg, noverlap=seg // 3, nfft=seg + 4, use_dfDesired=False)
        put("Welch frequencies, given segments", vec(p.f), 0, -1)
        put("Welch densities, given segments", vec(p.sVarDens), 2, 1, False, n * c["dt"] * b * sx**2)
    return r, o


def _compare(tmax, r, q, a, b, shift, what, rename=lambda k: k, sign=lambda k: 1.0):
    """Results q of the transformed record against those of the record."""
    expect(set(r) == {rename(k) for k in q} or not r, f"{what}: results {sorted(set(r) ^ {rename(k) for k in q})} only once")
    for k, (v, ux, ut, at, noise) in r.items():
        w, _, _, _, noise2 = q[rename(k)]
        fac = a**ux * b**ut * sign(k)
        want = v * fac + (shift if at else 0.0)
        if np.shape(w) != np.shape(want):
            close(w, want, what=f"{what}: {k}")
        tol = 1e-11 * (noise or 0.0) * abs(fac)
        if at or "period" in k or k == "Ts":
            # rounding of the times themselves
            tol = tol + 8 * max(float(np.spacing(tmax * b + abs(shift))), b * float(np.spacing(tmax)))
        close(w, want, 1e-10, tol, f"{what}: {k}")


def _waves(r):
    return r["number of waves (down)"][0] > 0


@sub("C27", st.fixed_dictionaries(dict(r=_records(), e=ints(-40, 40))), 800)
def height_units(c):
    t, x = _build(c["r"])
    a = 2.0 ** c["e"]
    r, _ = _analyse(t, x, c["r"])
    q, _ = _analyse(t, a * x, c["r"])
    _compare(scale_of(t), r, q, a, 1.0, 0.0, f"record times {a!r}")
    return _waves(r) and a != 1.0, []


@sub("C27", st.fixed_dictionaries(dict(r=_records(), e=ints(-40, 40))), 800)
def time_units(c):
    t, x = _build(c["r"])
    b = 2.0 ** c["e"]
    r, _ = _analyse(t, x, c["r"])
    q, _ = _analyse(b * t, x, c["r"], b)
    _compare(scale_of(t), r, q, 1.0, b, 0.0, f"time axis times {b!r}")
    return _waves(r) and b != 1.0, []


@sub("C27", st.fixed_dictionaries(dict(r=_records(), s=st.sampled_from([1.0, -3.5, 0.25, 1024.0, -65536.0, 12345.75, 2.0**24]))), 800)
def time_origin(c):
    t, x = _build(c["r"])
    if near_sample(x, 1e-9 + (time_noise(t) + time_noise(t + c["s"])) / c["r"]["dt"]):
        return False, ["crossing next to a sample"]
    r, _ = _analyse(t, x, c["r"])
    q, _ = _analyse(t + c["s"], x, c["r"])
    _compare(scale_of(t), r, q, 1.0, 1.0, c["s"], f"time axis plus {c['s']!r}")
    return _waves(r), []


_SWAP = [("down", "up"), ("crest", "trough"), ("maximum", "minimum")]


def _swapped(k):
    for a, b in _SWAP:
        if a in k:
            k = k.replace(a, b)
        elif b in k:
            k = k.replace(b, a)
    return k


_ODD = ("crests", "troughs", "maximum", "minimum", "mean", "skewness", "asymmetry", "filtered record", "Fourier coefficients")


@sub("C27", st.fixed_dictionaries(dict(r=_records())), 800)
def upside_down(c):
    t, x = _build(c["r"])
    if near_sample(x, 1e-9 + time_noise(t) / c["r"]["dt"]):
        return False, ["crossing next to a sample"]
    r, _ = _analyse(t, x, c["r"])
    q, _ = _analyse(t, -x, c["r"])
    # statistics of the object are those between down-crossings of either record
    own = {"nwave", "wave heights", "wave periods", "Hrms", "Hmax", "Hs", "Ts", "H2% Rayleigh", "mean of highest waves",
           "mean period of highest waves", "exceeded wave height"}
    rr = {k: v for k, v in r.items() if k not in own}
    qq = {k: v for k, v in q.items() if k not in own}
    _compare(scale_of(t), rr, qq, 1.0, 1.0, 0.0, "record upside down", _swapped, lambda k: -1.0 if k.split(" (")[0] in _ODD else 1.0)
    for s, (u, v) in ((r, (r, q)), (q, (q, r))):
        # heights of the object: those between its own down-crossings, so between up-crossings of the other
        H = np.sort(u["wave heights"][0])
        close(H, np.sort(v["heights (up)"][0]), 1e-12, 0.0, "sorted wave heights and those of the record upside down")
    return _waves(r), []
