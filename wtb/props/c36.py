from hypothesis import strategies as st

from wtb.core import expect, info, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.props import c21
from wtb.sut import Series, Spectrum, WaveHeights, core_dispersion as cd, core_engine as ce, core_spectral as cs, core_time as ct
from wtb.sut import core_wave_decomposition as cz, core_wavefunctions as cw

info(
    "C36",
    "A table of all public functions and methods with scalar arguments (frequencies, resolutions, limits, depths, gravities,"
    " fractions, percentages, orders, counts, seeds, flags), each argument a drawn whole number given as int, as float, as"
    " numpy integer of 32 or 64 bits, as double or single precision numpy number or as zero-dimensional array of these;"
    " each one alone or all at once. Non-trivial: at least one argument not of the type of the reference.",
    ["The reference is the same call with Python floats (or ints for counts, orders and seeds).",
     "Numbers in single precision are compared at 1e-4 (numpy may compute in single precision with them)."],
)


class G:
    """call(base, *scalars); args: list of (name, low, high, whole) of the scalars."""

    def __init__(self, call, *args):
        self.call, self.args = call, args


def _freq(name, lo, hi):
    return (name, lo, hi, False)


def _count(name, lo, hi):
    return (name, lo, hi, True)


def _params(b, *a):
    s = Spectrum(b["f"], b["S"])
    return [getattr(s, "get_" + n)(a[0], a[1]) for n in ("Hm0", "Tps", "Tp", "Tmm10", "Tm01", "Tm02", "Hm0_HF", "Hm0_LF", "Tmm10_HF", "Tmm10_LF")]


def _steep(b, *a):
    s = Spectrum(b["f"], b["S"])
    return [getattr(s, "get_" + n)(*a) for n in ("s0p", "smm10", "smm10_HF")]


def _object(b):
    return Series(b["t"], b["x"])


# the arrays have a step of 1/64 s in time (so whole numbers of hertz below 32) and 1 Hz in frequency (1..n)
GROUPS = {
    "disper": G(lambda b, h, g: cd.disper(b["w"], h, g), _freq("h", 1, 5000), _freq("g", 1, 25)),
    "disper of a number": G(lambda b, w, h: cd.disper(w, h), _freq("w", 1, 9), _freq("h", 1, 5000)),
    "frequency_averaging": G(lambda b, q: cs.frequency_averaging(b["f"], b["S"], q), _freq("df", 1, 7)),
    "coherence": G(lambda b, q: cs.coherence(b["f"], b["X"], b["X"][::-1] + b["S"], q), _freq("df", 1, 7)),
    "compute_spectrum_time_series": G(lambda b, q: cs.compute_spectrum_time_series(b["t"], b["x"], q), _freq("df", 1, 3)),
    "compute_spectrum_freq_series": G(lambda b, n, q: cs.compute_spectrum_freq_series(b["f"], b["X"], n, q), _count("Ntime", 100, 127), _freq("df", 1, 3)),
    "compute_spectrum_freq_series(long record)": G(lambda b, n: cs.compute_spectrum_freq_series(b["f"], b["X"], n), _count("Ntime", 128, 2 * 10**9)),
    "unfold_spectrum": G(lambda b, q: cs.unfold_spectrum(b["f"], b["X"], q), _count("isOdd", 0, 1)),
    "spectrum2timeseries": G(lambda b, a, e, q: cs.spectrum2timeseries(b["f"] / 64, b["S"], a, e, 0.25, q), _freq("tInit", 0, 9), _freq("tEnd", 30, 60), _count("seed", 0, 2**31 - 1)),
    "spectrum2timeseries_object": G(lambda b, a, q: cs.spectrum2timeseries_object(b["f"] / 640, b["S"], 0, 60, a, q), _freq("dt", 1, 3), _count("seed", 0, 99)),
    "create_series": G(lambda b, a, e, d: [np.asarray(Spectrum(b["f"] / 640, b["S"]).create_series(a, e, d).time)], _freq("tstart", 0, 9), _freq("tend", 30, 60), _freq("dt", 1, 3)),
    "compute_spectrum_welch_wrapper": G(
        lambda b, d, s, o, n: cs.compute_spectrum_welch_wrapper(b["x"], d, s, o, n), _freq("dt", 1, 9), _count("nperseg", 16, 40), _count("noverlap", 0, 9), _count("nfft", 40, 60)
    ),
    "get_spectrum": G(
        lambda b, s, o, n: _object(b).get_spectrum(nperseg=s, noverlap=o, nfft=n, use_dfDesired=False), _count("nperseg", 16, 40), _count("noverlap", 0, 9), _count("nfft", 40, 60)
    ),
    "get_spectrum(resolution)": G(lambda b, q: _object(b).get_spectrum(dfDesired=q), _freq("dfDesired", 1, 9)),
    "get_spectrum_raw": G(lambda b, q: _object(b).get_spectrum_raw(q), _freq("dfDesired", 1, 3)),
    "applybandfilter": G(lambda b, a, e: cs.applybandfilter(b["f"] - 0.5, b["X"], a, e), _freq("flow", 1, 9), _freq("fhigh", 10, 30)),
    "bandpassfilter": G(lambda b, a, e: cs.bandpassfilter(b["t"], b["x"], a, e), _freq("flow", 1, 9), _freq("fhigh", 10, 30)),
    "get_bandpassfilter": G(lambda b, a, e: _object(b).get_bandpassfilter(a, e), _freq("fmin", 1, 9), _freq("fmax", 10, 30)),
    "highest_waves_params": G(lambda b, p: ct.highest_waves_params(b["h"], b["T"], p), _freq("fracP", 0, 1)),
    "exceedance_wave_height": G(lambda b, p: ct.exceedance_wave_height(b["h"], p), _freq("excPerc", 0, 100)),
    "highest_waves": G(lambda b, p: WaveHeights(b["h"], b["T"]).highest_waves(p), _freq("fracP", 0, 1)),
    "get_exceedance_waveheight": G(lambda b, p: WaveHeights(b["h"], b["T"]).get_exceedance_waveheight(p), _freq("excPerc", 0, 100)),
    "compute_spectrum_params": G(lambda b, a, e: cw.compute_spectrum_params(b["f"], b["S"], a, e), _freq("fmin", 1, 9), _freq("fmax", 20, 90)),
    "compute_moment": G(lambda b, m, a, e: cw.compute_moment(b["f"], b["S"], m, a, e), _count("m", -2, 5), _freq("fmin", 1, 9), _freq("fmax", 20, 120)),
    "compute_moment(beyond the axis)": G(lambda b, m, e: cw.compute_moment(b["f"], b["S"], m, fmax=e), _count("m", -2, 5), _freq("fmax", 65, 120)),
    "create_spectrum_jonswap": G(
        lambda b, fp, h, g, l: cw.create_spectrum_jonswap(b["f"], fp, h, g, l), _freq("fp", 1, 30), _freq("hm0", 1, 99), _freq("gammaPeak", 1, 7), _count("l_fmax", 0, 1)
    ),
    "create_spectrum_object_jonswap": G(lambda b, fp, h, l: cw.create_spectrum_object_jonswap(b["f"], fp, h, l_fmax=l), _freq("fp", 1, 30), _freq("hm0", 1, 99), _count("l_fmax", 0, 1)),
    "create_spectrum_piersonmoskowitz": G(
        lambda b, fp, h, g, l: cw.create_spectrum_piersonmoskowitz(b["f"], fp, h, g, l), _freq("fp", 1, 30), _freq("hm0", 1, 99), _freq("gammaPeak", 1, 1), _count("l_fmax", 0, 1)
    ),
    "create_spectrum_object_piersonmoskowitz": G(
        lambda b, fp, h, l: cw.create_spectrum_object_piersonmoskowitz(b["f"], fp, h, l_fmax=l), _freq("fp", 1, 30), _freq("hm0", 1, 99), _count("l_fmax", 0, 1)
    ),
    "compute_BattjesGroenendijk_wave_height_distribution": G(
        lambda b, h, n, d, s: cw.compute_BattjesGroenendijk_wave_height_distribution(h, n, d, s), _freq("hm0", 1, 4), _count("nwave", 2, 10**6), _freq("water_depth", 5, 30), _freq("cota_slope", 20, 120)
    ),
    "compute_tps": G(lambda b, f, s: cw.compute_tps(f, s), _freq("f", 1, 9), _freq("S", 1, 9)),
    "approx_array_index": G(lambda b, v: ce.approx_array_index(b["f"], v), _freq("value", 0, 100)),
    "decompose_linear_ZS": G(lambda b, h: cz.decompose_linear_ZS(b["t"], np.stack([b["x"], b["x"][::-1]], axis=1), h, [0.0, 0.01], [1.0, 1.0]), _freq("h", 1, 5000)),
    "decompose_linear_ZS_series": G(
        lambda b, h, l: cz.decompose_linear_ZS_series([_object(b), _object(dict(b, x=b["x"][::-1].copy()))], h, [0.0, 0.01], [1.0, 1.0], l), _freq("h", 1, 5000), _freq("detLim", 0, 1)
    ),
    "Spectrum parameters": G(_params, _freq("fmin", 1, 9), _freq("fmax", 20, 90)),
    "Spectrum steepness": G(_steep, _freq("fmin", 1, 9), _freq("fmax", 20, 90), _freq("g", 2, 25)),
}

# for whole numbers (counts, orders, seeds, flags)
INTS = ("int", "int32", "int64")
FLOATS = ("int", "float", "float64", "float32", "int32", "int64", "0d float", "0d int")


def _as(v, how):
    if how == "int":
        return int(v)
    if how == "float":
        return float(v)
    if how == "0d float":
        return np.array(float(v))
    if how == "0d int":
        return np.array(int(v))
    return np.dtype(how).type(v)


@st.composite
def _cases(draw):
    name = draw(st.sampled_from(sorted(GROUPS)))
    args = GROUPS[name].args
    kinds = FLOATS[:-2] if name in ("disper of a number", "compute_tps") else FLOATS
    return dict(
        name=name,
        v=[draw(ints(lo, hi)) for _, lo, hi, _ in args],
        how=[draw(st.sampled_from(INTS if whole else kinds)) for _, _, _, whole in args],
        only=draw(st.one_of(st.none(), ints(0, len(args) - 1))),
        salt=draw(salts()),
        f=draw(st.sampled_from([(1.0, 1.0), (1.0, 1.0), (0.37, 1.0), (0.5, 0.71), (1.13, 1.9)])),
    )


def _base(c):
    n = 64
    f0, df = c.get("f", (1.0, 1.0))
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    i = np.arange(n)
    return dict(
        t=i / 64.0,
        f=f0 + df * i,
        x=np.cos(2 * np.pi * 5.3 * i / n) + 0.3 * r.normal(size=n),
        S=r.uniform(0.1, 1.0, n) + 3 * np.exp(-(((i - 20) / 4.0) ** 2)),
        X=r.normal(size=n) + 1j * r.normal(size=n),
        h=np.sort(r.uniform(0.1, 3.0, n))[::-1].copy(),
        T=r.uniform(2.0, 9.0, n),
        w=r.normal(size=n) * 2,
    )


@sub("C36", _cases(), 4000)
def number_types(c):
    import warnings

    g, name = GROUPS[c["name"]], c["name"]
    b = _base(c)
    ref, given, what = [], [], []
    for i, ((arg, _, _, whole), v, how) in enumerate(zip(g.args, c["v"], c["how"])):
        ref.append(int(v) if whole else float(v))
        use = c["only"] is None or c["only"] == i
        given.append(_as(v, how) if use else ref[-1])
        what.append(f"{arg}={given[-1]!r}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = _run(g, b, ref, name)
        got = _run(g, b, given, name + " with " + ", ".join(what))
    single = any(np.asarray(v).dtype.itemsize < 8 and np.asarray(v).dtype.kind == "f" for v in given)
    c21._same(got, want, 1e-4 if single else 1e-12, name + " with " + ", ".join(what))
    other = any(type(a) is not type(q) for a, q in zip(ref, given))
    return other, [name]


def _run(g, b, a, what):
    try:
        np.random.seed(11)
        return [np.array(v) for v in c21._flat(g.call({k: v.copy() for k, v in b.items()}, *a))]
    except Exception as e:
        import traceback

        last = traceback.extract_tb(e.__traceback__)[-1]
        expect(False, f"{what}: raised {type(e).__name__}: {e} ({last.filename.split('/')[-1]}:{last.lineno})")
