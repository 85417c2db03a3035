from hypothesis import strategies as st

from wtb.core import close, expect, info, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.props.c15 import _call as _decompose, increasing, layouts
from wtb.sut import Series, Spectrum, WaveHeights, core_wave_decomposition as cd

info(
    "C30",
    "Series, spectra and wave lists of 1..400 or up to 4999 elements given as arrays, lists, tuples or columns, spectra"
    " with and without directions; objects returned by filters, synthesis, spectra and decompositions; several objects"
    " from the same arrays with random calls on one of them. Non-trivial: more than three elements, or an object that"
    " was returned by a computation.",
    ["Texts are only asked to name the class (repr) and the size (str of series, repr of series, str of spectra)."],
)

_how = st.sampled_from(["array", "list", "tuple", "column", "row-slice"])


def _given(v, how):
    if how == "list":
        return v.tolist()
    if how == "tuple":
        return tuple(v.tolist())
    if how == "column":
        return v.copy()[:, None]
    if how == "row-slice":
        return np.stack([v, v + 1.0])[0]
    return v.copy()


def _int(v, what):
    a = np.asarray(v)
    expect(a.ndim == 0 and a.dtype.kind in "iu", f"{what}: {v!r}")
    return int(a)


def _series_ok(s, t, x, what):
    expect(isinstance(s, Series), f"{what}: {type(s)}")
    n = len(t)
    close(vec(s.time, n, what + ": time"), t, 0.0, 0.0, what + ": time")
    close(vec(s.xTime, n, what + ": xTime"), x, 0.0, 0.0, what + ": xTime")
    expect(_int(s.nt, what + ": nt") == n, f"{what}: nt is {s.nt!r} for {n} samples")
    dt = (t[-1] - t[0]) / (n - 1)
    close(float(s.dt), dt, 1e-9, time_noise(t), what + ": dt")
    m = _int(s.nwave, what + ": nwave")
    vec(s.hwave, m, what + ": hwave")
    vec(s.twave, m, what + ": twave")
    expect(str(n) in str(s), f"{what}: str is {str(s)!r} for {n} samples")
    expect("Series" in repr(s) and str(n) in repr(s), f"{what}: repr is {repr(s)!r} for {n} samples")


def _waves_ok(w, h, T, what):
    n = len(h)
    close(vec(w.hwave, n, what + ": hwave"), h, 0.0, 0.0, what + ": hwave")
    close(vec(w.twave, n, what + ": twave"), T, 0.0, 0.0, what + ": twave")
    expect(_int(w.nwave, what + ": nwave") == n, f"{what}: nwave is {w.nwave!r} for {n} waves")
    if type(w) is WaveHeights:
        expect(str(n) in str(w), f"{what}: str is {str(w)!r} for {n} waves")
        expect("WaveHeights" in repr(w) and str(n) in repr(w), f"{what}: repr is {repr(w)!r} for {n} waves")


def _spectrum_ok(s, f, S, D, what):
    expect(isinstance(s, Spectrum), f"{what}: {type(s)}")
    n = len(f)
    close(vec(s.f, n, what + ": f"), f, 0.0, 0.0, what + ": f")
    close(vec(s.sVarDens, n, what + ": sVarDens"), S, 0.0, 0.0, what + ": sVarDens")
    expect(_int(s.nf, what + ": nf") == n, f"{what}: nf is {s.nf!r} for {n} frequencies")
    kind = "2D" if D is not None and len(D) else "1D"
    expect(s.spec == kind, f"{what}: spec is {s.spec!r} instead of {kind!r}")
    close(np.asarray(s.D).ravel(), np.zeros(0) if D is None else D, 0.0, 0.0, what + ": directions")
    expect(kind in str(s) and str(n) in str(s), f"{what}: str is {str(s)!r}")
    expect("Spectrum" in repr(s) and kind in repr(s), f"{what}: repr is {repr(s)!r}")


@st.composite
def _new(draw):
    k = draw(st.sampled_from(["series", "spectrum", "spectrum", "waves"]))
    c = dict(kind=k, how=[draw(_how), draw(_how)])
    if k == "series":
        c["r"] = draw(records(2, 400, BIG))
    elif k == "spectrum":
        c["s"] = draw(spectra(2, 300, BIG))
        c["D"] = draw(st.one_of(st.none(), ints(1, 36)))
        c["named"] = draw(st.booleans())
    else:
        c["n"] = draw(sizes(1, 400, BIG))
        c["salt"] = draw(salts())
        if c["n"] == 1:
            c["how"] = ["array", "list"]
    return c


@sub("C30", _new(), 2000)
def new_objects(c):
    a, b = c["how"]
    if c["kind"] == "series":
        t, x = build_record(c["r"])
        s = Series(_given(t, a), _given(x, b))
        _series_ok(s, t, x, "Series")
        expect(isinstance(s, WaveHeights), "a Series is not a WaveHeights object")
        n = len(t)
    elif c["kind"] == "spectrum":
        f, S = build_spectrum(c["s"])
        D = None
        if c["D"] is None:
            s = Spectrum(_given(f, a), _given(S, b))
        else:
            D = np.arange(c["D"]) * 10.0
            s = Spectrum(_given(f, a), _given(S, b), D=D.copy()) if c["named"] else Spectrum(_given(f, a), _given(S, b), D.copy())
        _spectrum_ok(s, f, S, D, "Spectrum")
        if len(f) >= 3 and D is not None:
            p = Spectrum(f, S)
            for m in ("Hm0", "Tmm10", "Tp", "Tps"):
                close(getattr(s, "get_" + m)(), getattr(p, "get_" + m)(), 0.0, 0.0, f"{m} of a spectrum with directions")
            _spectrum_ok(p, f, S, None, "Spectrum made after one with directions")
            _spectrum_ok(s, f, S, D, "Spectrum with directions")
        n = len(f)
    else:
        n = c["n"]
        r = np.random.Generator(np.random.PCG64(c["salt"]))
        h, T = r.uniform(0.0, 3.0, n), r.uniform(1.0, 9.0, n)
        if c["salt"] % 2:
            h[r.uniform(size=n) < 0.3] = 0.0  # sorting may put equal heights in any order: they have the same period
            T[h == 0.0] = 0.0
        s = WaveHeights(_given(h, a), _given(T, b))
        _waves_ok(s, h, T, "WaveHeights")
        s.sort()
        o = np.argsort(-h, kind="stable")
        _waves_ok(s, h[o], T[o], "WaveHeights after sorting")
    return n > 3, [c["kind"], "given as " + a]


@st.composite
def _derived(draw):
    r = draw(records(12, 300, (1000, 2047)))
    n = r["axis"]["n"]
    return dict(
        r=r,
        lo=draw(floats(0.2, n / 3.0)),
        w=draw(floats(0.7, n / 2.0)),
        k=draw(ints(1, max(1, n // 6))),
        lay=draw(layouts(n, r["axis"]["dt"], 3)),
        m=draw(ints(2, 200)),
    )


@sub("C30", _derived(), 800)
def returned_objects(c):
    """Objects returned by computations are the same as objects newly made from their data."""
    t, x = build_record(c["r"])
    n = len(t)
    dt = c["r"]["axis"]["dt"]
    s = Series(t, x)
    df = 1.0 / (n * dt)

    def complete(o, what):
        _series_ok(o, vec(o.time), vec(o.xTime), what)
        new = Series(np.array(o.time), np.array(o.xTime))
        _waves_ok(o, vec(new.hwave), vec(new.twave), what)

    o = s.get_bandpassfilter(c["lo"] * df, (c["lo"] + c["w"]) * df)
    complete(o, "band-filtered series")
    close(vec(o.time), t, 0.0, 0.0, "time axis of the band-filtered series")
    expect(o is not s, "the band filter returned the series itself")
    for what, g in (("raw spectrum", s.get_spectrum_raw(c["k"] * df)), ("Welch spectrum", s.get_spectrum(dfDesired=c["k"] * 2 * df))):
        _spectrum_ok(g, vec(g.f), vec(g.sVarDens), None, what)
    q = g.create_series(0.0, c["m"] * 0.3 / g.f[-1], 0.3 / g.f[-1])
    complete(q, "synthesised series")
    if increasing(c["lay"]):
        gauges = [Series(t, np.roll(x, j)) for j in range(len(c["lay"]["x"]))]
        for what, o in zip(("incident series", "reflected series"), pair(cd.decompose_linear_ZS_series(gauges, c["lay"]["h"], c["lay"]["x"], c["lay"]["w"]))):
            complete(o, what)
            close(vec(o.time), t, 0.0, 0.0, f"time axis of the {what}")
        for j, o in enumerate(gauges):
            _series_ok(o, t, np.roll(x, j), f"gauge {j} after the decomposition")
    _series_ok(s, t, x, "the series after all computations")
    return True, ["odd" if n % 2 else "even"]


_calls = st.lists(
    st.tuples(
        ints(0, 1),
        st.sampled_from(["sort", "hs", "highest", "exceed", "rms", "spectrum", "filter", "sort"]),
        floats(0.01, 1.0),
    ).map(list),
    min_size=1,
    max_size=6,
)


@sub("C30", st.fixed_dictionaries(dict(r=records(8, 200, (1000,)), calls=_calls)), 800)
def objects_are_independent(c):
    """Two objects made from the same arrays: calls on one are not seen by the other."""
    t, x = build_record(c["r"])
    base = Series(t.copy(), x.copy())
    h, T = np.array(base.hwave, float), np.array(base.twave, float)
    hh, TT = h.copy(), T.copy()
    pairs = [(Series(t, x), Series(t, x)), (WaveHeights(hh, TT), WaveHeights(hh, TT))]
    for i, k, p in c["calls"]:
        o = pairs[i][0]
        if k == "sort":
            o.sort()
        elif k == "hs":
            o.get_Hs()
        elif k == "highest":
            o.highest_waves(p)
        elif k == "exceed":
            o.get_exceedance_waveheight(100 * p)
        elif k == "rms" and len(h):
            o.get_Hrms()
        elif i == 0 and k == "spectrum":
            o.get_spectrum_raw(2.0 / (len(t) * o.dt))
        elif i == 0 and k == "filter":
            o.get_bandpassfilter(0.1 / o.dt, (0.1 + 0.4 * p) / o.dt)
        _waves_ok(pairs[0][1], h, T, f"another Series of the same arrays, after {k}")
        _waves_ok(pairs[1][1], h, T, f"another WaveHeights of the same arrays, after {k}")
        _series_ok(pairs[0][0], t, x, f"the Series after {k}")
    expect(np.array_equal(hh, h) and np.array_equal(TT, T), "the caller's arrays of heights or periods changed")
    return len(h) > 1, ["waves: " + ("0-1" if len(h) < 2 else "2+")]


KINDS = ("list", "alpha", "sines", "noise", "waves", "spike", "tone")


@sub("C30", st.fixed_dictionaries(dict(r=records(6, 300, (1000, 2047), t0=False, kinds=KINDS), salt=salts())), 600)
def similar_objects_are_told_apart(c):
    """Series of the same size, axis, sum or ends are each analysed for their own samples."""
    t, x = build_record(c["r"])
    n = len(t)
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    others = [np.concatenate([[x[0]], r.permutation(x[1:-1]), [x[-1]]]), x[::-1].copy(), np.roll(x, 1), -x, x.copy()]
    others[-1][int(r.integers(1, n - 1))] *= -1.0
    objects = [Series(t, x)] + [Series(t, y) for y in others]
    T = n * objects[0].dt
    for o, y in zip(objects, [x] + others):
        i = np.nonzero((y[:-1] >= 0) & (y[1:] < 0))[0]
        expect(_int(o.nwave, "nwave") == max(len(i) - 1, 0), f"{o.nwave!r} waves for {len(i)} crossings")
        h = [np.max(y[a + 1 : b + 1]) - np.min(y[a + 1 : b + 1]) for a, b in zip(i[:-1], i[1:])]
        # (a sample exactly at zero may belong to both waves, which changes no height)
        # (and one within rounding of zero may belong to either)
        if not np.any((y != 0) & (np.abs(y) < 1e-9 * scale_of(y))):
            close(np.sort(vec(o.hwave, len(h))), np.sort(np.array(h)), 1e-12, 1e-12 * scale_of(y), "wave heights")
        expect(float(o.max()) == float(np.max(y)) and float(o.min()) == float(np.min(y)), "extremes")
        F = o.get_fourier_comp()[1]
        close(vec(F, n // 2 + 1, "Fourier components", "c"), np.fft.rfft(y), 0.0, 1e-12 * n * (scale_of(y) + 1e-300), "Fourier components")
        S = o.get_spectrum_raw(1.0 / T)
        close(vec(S.sVarDens, n // 2 + 1), 2 * np.abs(np.fft.rfft(y)) ** 2 * T / n**2, 1e-9 + 4 * time_noise(t) / c["r"]["axis"]["dt"], 1e-12 * scale_of(y) ** 2 * T, "raw density")
        B = o.get_bandpassfilter(0.6 / T, 2.5 / T)
        Y = np.fft.rfft(y)
        k = np.zeros(len(Y), bool)
        k[1:3] = True
        close(vec(B.xTime, n), np.fft.irfft(Y * k, n), 0.0, 1e-11 * (scale_of(y) + 1e-300), "band-filtered record")
    return bool(np.ptp(x) > 0), ["odd" if n % 2 else "even"]
