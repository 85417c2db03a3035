import warnings

from hypothesis import strategies as st

from wtb.core import expect, info, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.props import c21
from wtb.sut import Series, Spectrum, WaveHeights, core_dispersion as cd, core_spectral as cs, core_time as ct
from wtb.sut import core_wave_decomposition as cz, core_wavefunctions as cw

info(
    "C38",
    "A table of all public functions and methods that have optional arguments, with the documented names, order and"
    " defaults; per case a value for each optional argument (its default or another one). The call with all arguments by"
    " position is compared with calls in which arguments that have their default are left out, and in which any number of"
    " the others are given by name in any order. Non-trivial: at least one optional argument left out or given by name.",
    ["The results of both calls have to be the same bit for bit, or both calls have to fail."],
)


class H:
    """call(*args, **kw); required(base) gives the required arguments; optional: (name, default, others)."""

    def __init__(self, call, required, *optional):
        self.call, self.required, self.optional = call, required, optional


def _m(make, name):
    return lambda b, *a, **k: getattr(make(b), name)(*a, **k)


def _spectrum(b):
    return Spectrum(b["f"], b["S"])


def _series(b):
    return Series(b["t"], b["x"])


def _heights(b):
    return WaveHeights(b["h"], b["T"])


_lim = (("fmin", -1.0, (0.05, 0.21)), ("fmax", -1.0, (0.5, 0.83, float("inf"))))
_g = (("g", 9.81, (9.8, 1.62)),)
_fun = lambda f: lambda b, *a, **k: f(*a, **k)  # noqa: E731

CALLS = {
    "disper": H(_fun(cd.disper), lambda b: [b["w"], 3.0], *_g),
    "frequency_averaging": H(_fun(cs.frequency_averaging), lambda b: [b["f"], b["S"]], ("dfDesired", 0.0, (0.04, 0.1))),
    "coherence": H(_fun(cs.coherence), lambda b: [b["f"], b["X"], b["X"][::-1] + b["S"]], ("dfDesired", 0.0, (0.04, 0.1))),
    "compute_spectrum_freq_series": H(_fun(cs.compute_spectrum_freq_series), lambda b: [b["f"], b["X"], 2 * len(b["f"]) - 1], ("dfDesired", 0.0, (0.04, 0.1))),
    "compute_spectrum_time_series": H(_fun(cs.compute_spectrum_time_series), lambda b: [b["t"], b["x"]], ("dfDesired", 0.0, (0.1, 0.3))),
    "compute_spectrum_welch_wrapper": H(
        _fun(cs.compute_spectrum_welch_wrapper), lambda b: [b["x"], 0.5], ("nperseg", 0, (9, 16)), ("noverlap", 0, (3, 4)), ("nfft", 0, (16, 21)), ("window_type", "hann", ("hamming", "boxcar"))
    ),
    "spectrum2timeseries": H(_fun(cs.spectrum2timeseries), lambda b: [b["f"], b["S"], 0.0, 20.0, 0.5], ("seed", -1, (0, 7))),
    "spectrum2timeseries_object": H(_fun(cs.spectrum2timeseries_object), lambda b: [b["f"], b["S"], 0.0, 20.0, 0.5], ("seed", -1, (0, 7))),
    "determine_zero_crossing": H(_fun(ct.determine_zero_crossing), lambda b: [b["t"], b["x"]], ("typeCross", "down", ("up",))),
    "decompose_linear_ZS": H(_fun(cz.decompose_linear_ZS), lambda b: [b["t"], np.stack([b["x"], np.roll(b["x"], 1)], axis=1), 2.0, [0.0, 1.0], [1.0, 1.0]], ("detLim", 0.125, (0.01, 0.5))),
    "decompose_linear_ZS_series": H(
        _fun(cz.decompose_linear_ZS_series), lambda b: [[_series(b), Series(b["t"], np.roll(b["x"], 1))], 2.0, [0.0, 1.0], [1.0, 1.0]], ("detLim", 0.125, (0.01, 0.5))
    ),
    "compute_BattjesGroenendijk_wave_height_distribution": H(
        _fun(cw.compute_BattjesGroenendijk_wave_height_distribution), lambda b: [1.3, 50, 4.0 + b["h"][0]], ("cota_slope", 250.0, (30.0, 100.0)), ("tolerance", 1e-5, (1e-3, 1e-8))
    ),
    "compute_moment": H(_fun(cw.compute_moment), lambda b: [b["f"], b["S"], 1], *_lim),
    "compute_spectrum_params": H(_fun(cw.compute_spectrum_params), lambda b: [b["f"], b["S"]], *_lim),
    "create_spectrum_jonswap": H(_fun(cw.create_spectrum_jonswap), lambda b: [b["f"], 0.2, 1.5], ("gammaPeak", 3.3, (1.0, 7.0)), ("l_fmax", 0.0, (1.0,))),
    "create_spectrum_object_jonswap": H(_fun(cw.create_spectrum_object_jonswap), lambda b: [b["f"], 0.2, 1.5], ("gammaPeak", 3.3, (1.0, 7.0)), ("l_fmax", 0.0, (1.0,))),
    "create_spectrum_piersonmoskowitz": H(_fun(cw.create_spectrum_piersonmoskowitz), lambda b: [b["f"], 0.2, 1.5], ("gammaPeak", 1.0, ()), ("l_fmax", 0.0, (1.0,))),
    "create_spectrum_object_piersonmoskowitz": H(_fun(cw.create_spectrum_object_piersonmoskowitz), lambda b: [b["f"], 0.2, 1.5], ("gammaPeak", 1.0, ()), ("l_fmax", 0, (1,))),
    "Series.get_crossing": H(_m(_series, "get_crossing"), lambda b: [], ("typeCross", "down", ("up",))),
    "Series.get_spectrum": H(
        _m(_series, "get_spectrum"),
        lambda b: [],
        ("nperseg", 256, (9, 16)),
        ("noverlap", 0, (3, 4)),
        ("nfft", 0, (16, 21)),
        ("windows_type", "hann", ("hamming", "boxcar")),
        ("dfDesired", 0.01, (0.2, 0.1)),
        ("use_dfDesired", True, (False,)),
    ),
    "Series.get_spectrum_raw": H(_m(_series, "get_spectrum_raw"), lambda b: [], ("dfDesired", 0.01, (0.1, 0.3))),
}


def _drawn(fig):
    """What a plot shows."""
    out = []
    for ax in fig.axes:
        out += [v for ln in ax.lines for v in (np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float))]
        out += [np.array(ax.get_xlim()), np.array([ord(ch) for ch in ax.get_xlabel() + "|" + ax.get_ylabel()])]
    return out


def _plot(make, name):
    def call(b, *a, **k):
        from wtb.sut import plt

        try:
            return _drawn(getattr(make(b), name)(*a, **k))
        finally:
            plt.close("all")

    return call


def _periods(b):
    s = _spectrum(b)
    s.get_Tps(), s.get_Tmm10(), s.get_Tm02()
    return s


CALLS["WaveHeights.plot_exceedance_waveheight_Rayleigh"] = H(
    _plot(lambda b: WaveHeights(b["h"][:20], b["T"][:20]), "plot_exceedance_waveheight_Rayleigh"),
    lambda b: [],
    ("savepath", "", ()),
    ("normalize", False, (True,)),
    ("plot_BG", False, (True, True, True)),
    ("water_depth", -1.0, (3.0, 4.5, 2.0)),
    ("cota_slope", 250.0, (40.0,)),
    ("hm0", -1.0, (2.0, 1.5, 2.5)),
)
CALLS["Spectrum.plot"] = H(
    _plot(_periods, "plot"), lambda b: [], ("savepath", "", ()), ("plot_periods", True, (False,)), ("xlim", -999.0, (0.2,)), ("xlabel", "f [$Hz$]", ("f",)), ("ylabel", "S [$m^2/Hz$]", ("S",))
)
CALLS["Series.plot"] = H(_plot(_series, "plot"), lambda b: [], ("savepath", "", ()), ("plot_crossing", False, (True,)))
for _p in ("Hm0", "Hm0_HF", "Hm0_LF", "Tps", "Tp", "Tmm10", "Tmm10_HF", "Tmm10_LF", "Tm01", "Tm02"):
    CALLS["Spectrum.get_" + _p] = H(_m(_spectrum, "get_" + _p), lambda b: [], *_lim)
for _p in ("s0p", "smm10", "smm10_HF"):
    CALLS["Spectrum.get_" + _p] = H(_m(_spectrum, "get_" + _p), lambda b: [], *_lim, *_g)


@st.composite
def _cases(draw):
    name = draw(st.sampled_from(sorted(CALLS) + ["Spectrum", "Series.get_spectrum", "Series.get_spectrum_raw", "compute_spectrum_welch_wrapper"]))
    opt = CALLS[name].optional if name in CALLS else ()
    return dict(
        name=name,
        v=[draw(ints(0, len(o[2]))) for o in opt],
        how=[draw(st.sampled_from(["omit", "omit", "name", "position"])) for _ in opt],
        order=draw(salts()),
        n=draw(st.one_of(sizes(44, 120), sizes(257, 700))),
        salt=draw(salts()),
    )


def _base(c):
    n = c["n"]
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    i = np.arange(n)
    f = (i + 1) / n  # up to 1 Hz
    return dict(
        t=i * 0.5,
        x=np.cos(2 * np.pi * 0.11 * i) + 0.3 * r.normal(size=n),
        f=f,
        S=r.uniform(0.1, 1.0, n) + 3 * np.exp(-(((f - 0.3) / 0.08) ** 2)),
        X=r.normal(size=n) + 1j * r.normal(size=n),
        h=r.uniform(0.1, 3.0, n),
        T=r.uniform(2.0, 9.0, n),
        w=r.normal(size=n),
    )


def _result(h, b, a, k):
    np.random.seed(3)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return [np.array(v) for v in c21._flat(h.call(b, *a, **k))]
        except (ValueError, ZeroDivisionError, IndexError, FloatingPointError):
            return None


@sub("C38", _cases(), 3000)
def defaults(c):
    name = c["name"]
    b = _base(c)
    if name not in CALLS:
        return _directions(b, c)
    h = CALLS[name]
    values = [o[1] if v == 0 else o[2][v - 1] for o, v in zip(h.optional, c["v"])]
    want = _result(h, b, h.required(b) + values, {})
    a, k, by_position = list(h.required(b)), {}, True
    for o, v, i, how in zip(h.optional, values, c["v"], c["how"]):
        if how == "position" and by_position:
            a.append(v)
        else:
            by_position = False
            if i or how != "omit":
                k[o[0]] = v
    keys = list(k)
    order = np.random.Generator(np.random.PCG64(c["order"])).permutation(len(keys))
    k = {keys[j]: k[keys[j]] for j in order}
    got = _result(h, b, a, k)
    given = ", ".join([repr(v) for v in a[len(h.required(b)) :]] + [f"{q}={v!r}" for q, v in k.items()])
    what = f"{name}({given}), compared with all of {values} given by position"
    expect((got is None) == (want is None), f"{what}: " + ("only the latter works" if got is None else "only the former works"))
    if got is None:
        return False, ["both fail"]
    c21._same(got, want, 0.0, what)
    return len(a) < len(h.required(b)) + len(values), [name]


def _directions(b, c):
    """A spectrum without directions is the default."""
    s = Spectrum(b["f"], b["S"])
    expect(s.spec == "1D" and np.size(s.D) == 0, f"Spectrum(f, S): {s.spec!r}, directions {s.D!r}")
    q = Spectrum(sVarDens=b["S"], f=b["f"])
    c21._same([np.array(q.f), np.array(q.sVarDens)], [np.array(s.f), np.array(s.sVarDens)], 0.0, "Spectrum by name")
    return True, ["Spectrum"]


# ---------------------------------------------------------------- required arguments by name

REQUIRED = {
    "disper": (cd.disper, lambda b: dict(w=b["w"], h=3.0)),
    "applybandfilter": (cs.applybandfilter, lambda b: dict(f=b["f"], xFreq=b["X"], flow=0.11, fhigh=0.52)),
    "bandpassfilter": (cs.bandpassfilter, lambda b: dict(t=b["t"], xTime=b["x"], flow=0.11, fhigh=0.52)),
    "freq2time": (cs.freq2time, lambda b: dict(xFreq=b["X"].real)),
    "time2freq": (cs.time2freq, lambda b: dict(t=b["t"], xTime=b["x"])),
    "time2freq_nyquist": (cs.time2freq_nyquist, lambda b: dict(t=b["t"], xTime=b["x"])),
    "unfold_spectrum": (cs.unfold_spectrum, lambda b: dict(f=b["f"], xFreq=b["X"], isOdd=True)),
    "frequency_averaging": (cs.frequency_averaging, lambda b: dict(f=b["f"], sVarDens=b["S"])),
    "coherence": (cs.coherence, lambda b: dict(f=b["f"], xFreq1=b["X"], xFreq2=b["X"][::-1].copy())),
    "compute_spectrum_freq_series": (cs.compute_spectrum_freq_series, lambda b: dict(f=b["f"], xFreq=b["X"], Ntime=2 * len(b["f"]) - 1)),
    "compute_spectrum_time_series": (cs.compute_spectrum_time_series, lambda b: dict(t=b["t"], xTime=b["x"])),
    "compute_spectrum_welch_wrapper": (cs.compute_spectrum_welch_wrapper, lambda b: dict(xTime=b["x"], dt=0.5)),
    "spectrum2timeseries": (cs.spectrum2timeseries, lambda b: dict(f=b["f"], sVarDens=b["S"], tInit=1.0, tEnd=20.0, dt=0.5)),
    "spectrum2timeseries_object": (cs.spectrum2timeseries_object, lambda b: dict(f=b["f"], sVarDens=b["S"], tInit=1.0, tEnd=20.0, dt=0.5)),
    "determine_params_individual_waves": (ct.determine_params_individual_waves, lambda b: dict(tCross=b["t"][[1, 7, 20]], t=b["t"], xTime=b["x"])),
    "determine_zero_crossing": (ct.determine_zero_crossing, lambda b: dict(t=b["t"], xTime=b["x"])),
    "exceedance_wave_height": (ct.exceedance_wave_height, lambda b: dict(hWaveSorted=np.sort(b["h"])[::-1].copy(), excPerc=20.0)),
    "highest_waves_params": (ct.highest_waves_params, lambda b: dict(hWaveSorted=np.sort(b["h"])[::-1].copy(), tWaveSorted=b["T"], fracP=0.3)),
    "sort_wave_params": (ct.sort_wave_params, lambda b: dict(hWave=b["h"], tWave=b["T"])),
    "decompose_linear_ZS": (cz.decompose_linear_ZS, lambda b: dict(t=b["t"], xTime=np.stack([b["x"], np.roll(b["x"], 1)], axis=1), h=2.0, x_loc=[0.0, 1.0], w_loc=[1.0, 0.5])),
    "decompose_linear_ZS_series": (
        cz.decompose_linear_ZS_series,
        lambda b: dict(Series_objects=[_series(b), Series(b["t"], np.roll(b["x"], 1))], h=2.0, x_loc=[0.0, 1.0], w_loc=[1.0, 0.5]),
    ),
    "compute_BattjesGroenendijk_wave_height_distribution": (cw.compute_BattjesGroenendijk_wave_height_distribution, lambda b: dict(hm0=1.3, nwave=50, water_depth=4.0)),
    "compute_moment": (cw.compute_moment, lambda b: dict(f=b["f"], sVarDens=b["S"], m=1)),
    "compute_spectrum_params": (cw.compute_spectrum_params, lambda b: dict(f=b["f"], sVarDens=b["S"])),
    "compute_tps": (cw.compute_tps, lambda b: dict(f=b["f"], sVarDens=b["S"])),
    "tpd": (cw.tpd, lambda b: dict(f=b["f"], sVarDens=b["S"])),
    "create_spectrum_jonswap": (cw.create_spectrum_jonswap, lambda b: dict(f=b["f"], fp=0.2, hm0=1.5)),
    "create_spectrum_object_jonswap": (cw.create_spectrum_object_jonswap, lambda b: dict(f=b["f"], fp=0.2, hm0=1.5)),
    "create_spectrum_piersonmoskowitz": (cw.create_spectrum_piersonmoskowitz, lambda b: dict(f=b["f"], fp=0.2, hm0=1.5)),
    "create_spectrum_object_piersonmoskowitz": (cw.create_spectrum_object_piersonmoskowitz, lambda b: dict(f=b["f"], fp=0.2, hm0=1.5)),
    "Series": (Series, lambda b: dict(time=b["t"], xTime=b["x"])),
    "Spectrum": (Spectrum, lambda b: dict(f=b["f"], sVarDens=b["S"])),
    "WaveHeights": (WaveHeights, lambda b: dict(hwave=b["h"], twave=b["T"])),
    "Series.get_bandpassfilter": (lambda s, *a, **k: s.get_bandpassfilter(*a, **k), lambda b: dict(self=_series(b), fmin=0.11, fmax=0.52)),
    "Spectrum.create_series": (lambda s, *a, **k: s.create_series(*a, **k), lambda b: dict(self=_spectrum(b), tstart=1.0, tend=20.0, dt=0.5)),
    "WaveHeights.highest_waves": (lambda s, *a, **k: s.highest_waves(*a, **k), lambda b: dict(self=_heights(b), fracP=0.4)),
    "WaveHeights.get_exceedance_waveheight": (lambda s, *a, **k: s.get_exceedance_waveheight(*a, **k), lambda b: dict(self=_heights(b), excPerc=20.0)),
}


@st.composite
def _required(draw):
    return dict(name=draw(st.sampled_from(sorted(REQUIRED))), positional=draw(ints(0, 3)), order=draw(salts()), n=draw(sizes(44, 120)), salt=draw(salts()))


@sub("C38", _required(), 1500)
def arguments_by_name(c):
    """The required arguments have their documented names and order."""
    func, make = REQUIRED[c["name"]]
    kw = make(_base(c))
    one = [kw.pop("self")] if "self" in kw else []
    names = list(kw)
    np.random.seed(3)
    want = [np.array(v) for v in c21._flat(func(*one, *kw.values()))]
    kw = make(_base(c))
    one = [kw.pop("self")] if "self" in kw else []
    p = min(c["positional"], len(names) - 1)
    rest = [names[p:][j] for j in np.random.Generator(np.random.PCG64(c["order"])).permutation(len(names) - p)]
    np.random.seed(3)
    try:
        got = [np.array(v) for v in c21._flat(func(*one, *[kw[q] for q in names[:p]], **{q: kw[q] for q in rest}))]
    except TypeError as e:
        expect(False, f"{c['name']} with {rest} by name: {e}")
    c21._same(got, want, 0.0, f"{c['name']} with {rest} by name")
    return True, [c["name"]]


# ---------------------------------------------------------------- variants of the same computation

SAME = {
    "Pierson-Moskowitz": (cw.create_spectrum_piersonmoskowitz, cw.create_spectrum_object_piersonmoskowitz),
    "JONSWAP": (cw.create_spectrum_jonswap, cw.create_spectrum_object_jonswap),
}


@st.composite
def _variants(draw):
    return dict(
        name=draw(st.sampled_from(sorted(SAME))),
        fp=draw(floats(0.1, 0.5)),
        hm0=draw(floats(0.5, 9.0)),
        gamma=draw(st.one_of(st.none(), floats(1.0, 7.0))),
        tail=draw(st.sampled_from([None, 0.0, 1.0])),
        n=draw(sizes(44, 120)),
    )


@sub("C38", _variants(), 600)
def same_defaults_for_objects(c):
    """The functions for arrays and for objects have the same defaults; Pierson-Moskowitz is JONSWAP without peak enhancement."""
    f = np.arange(1, c["n"] + 1) / c["n"]
    k = {} if c["tail"] is None else dict(l_fmax=c["tail"])
    pm = c["name"] == "Pierson-Moskowitz"
    if c["gamma"] is not None and not pm:
        k["gammaPeak"] = c["gamma"]
    array, obj = SAME[c["name"]]
    a, o = np.array(array(f, c["fp"], c["hm0"], **k), float), obj(f, c["fp"], c["hm0"], **k)
    ref = np.array(cw.create_spectrum_jonswap(f, c["fp"], c["hm0"], k.get("gammaPeak", 1.0 if pm else 3.3), k.get("l_fmax", 0.0)), float)
    c21._same([a], [ref], 1e-12, c["name"] + ", compared with the documented defaults")
    c21._same([np.array(o.sVarDens, float)], [ref], 1e-12, c["name"] + " object, compared with the documented defaults")
    return True, [c["name"]]
