from hypothesis import strategies as st

from wtb.core import close, expect, fail, info, scale_of, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import Series, Spectrum, WaveHeights, core_dispersion, core_engine as ce, core_spectral as cs, core_time as ct
from wtb.sut import core_wave_decomposition as cd, core_wavefunctions as cw, plt

info(
    "C21",
    "A table of all public functions, constructors and computing methods; each is called with float arrays, read-only"
    " arrays, strided (non-contiguous) arrays, a second time, and, where it takes them, lists, tuples, column arrays and"
    " integers against the same values as floats. Non-trivial: every case (inputs of at least two different values).",
    ["Lists are given to functions that convert their vectors (the individual-wave functions take arrays only), columns"
     " to those that flatten them."],
)


def _flat(r):
    """Result as flat list of arrays."""
    if isinstance(r, Spectrum):
        return [np.asarray(r.f), np.asarray(r.sVarDens)]
    if isinstance(r, Series):
        return [np.asarray(r.time), np.asarray(r.xTime), np.asarray(r.hwave), np.asarray(r.twave)]
    if isinstance(r, WaveHeights):
        return [np.asarray(r.hwave), np.asarray(r.twave), np.asarray(r.nwave)]
    if isinstance(r, (tuple, list)):
        return [a for x in r for a in _flat(x)]
    if r is None:
        return []
    return [np.asarray(r)]


class F:
    """A function under test: args(base) gives a dict of its array arguments, call(**args) calls it."""

    def __init__(self, call, args, lists=True, columns=True, ints=True, rowlike=False):
        self.call, self.args = call, args
        self.lists, self.columns, self.ints = lists, columns, ints


def _methods_series(t, x):
    s = Series(t, x)
    T = s.nt * s.dt
    out = [s, s.max(), s.min(), s.mean(), s.var(), s.get_skewness(), s.get_asymmetry(), s.get_crossing(), s.get_crossing("up")]
    out += [s.get_spectrum_raw(2.0 / T), s.get_spectrum(dfDesired=3.0 / T), s.get_bandpassfilter(0.1 / s.dt, 0.3 / s.dt)]
    out += [[f for f in s.get_fourier_comp()]]
    if s.nwave:
        out += [s.get_Hs(), s.get_Hrms(), s.get_Hmax(), s.get_H2p_Rayleigh(), s.highest_waves(0.5), s.get_exceedance_waveheight(10.0)]
        s.sort()
        out += [s.hwave]
    return out


def _methods_spectrum(f, S):
    s = Spectrum(f, S)
    out = [s]
    for m in ("Hm0", "Tps", "Tp", "Tmm10", "Tm01", "Tm02", "s0p", "smm10", "Hm0_HF", "Hm0_LF", "Tmm10_HF", "Tmm10_LF", "smm10_HF"):
        out.append(getattr(s, "get_" + m)())
    out.append(s.get_Hm0(fmax=np.inf))
    out.append(s.get_Tmm10(f[2] if not isinstance(f, np.ndarray) or f.ndim == 1 else f[2, 0], 1e9))
    return out


def _methods_waves(h, T):
    w = WaveHeights(h, T)
    out = [w, w.get_Hrms(), w.get_Hmax(), w.get_Hs(), w.get_H2p_Rayleigh(), w.get_exceedance_waveheight(30.0), w.highest_waves(0.6)]
    w.sort()
    out += [w.hwave, w.twave]
    return out


def _tx(b):
    return dict(t=b["t"], x=b["x"])


def _fS(b):
    return dict(f=b["f"], S=b["S"])


def _fX(b):
    return dict(f=b["f"], X=b["X"])


def _f(b):
    return dict(f=b["f"])


def _hT(b):
    return dict(h=b["h"], T=b["T"])


def _sorted(b):
    o = np.argsort(-b["h"], kind="stable")
    return dict(h=b["h"][o], T=b["T"][o])


def _crossed(b):
    t, x = b["t"], b["x"]
    i = np.nonzero((x[:-1] >= 0) & (x[1:] < 0))[0]
    return dict(tc=t[i] + (t[i + 1] - t[i]) * x[i] / (x[i] - x[i + 1]), t=t, x=x) if len(i) >= 2 else dict(tc=t[[0, len(t) - 1]], t=t, x=x)


def _gauges(b):
    x = b["x"]
    return dict(t=b["t"], x=np.stack([x, np.roll(x, 1), np.roll(x, 3)], axis=1), xl=np.array([0.0, 1.0, 3.0]), w=b["wt"])


def _gauge_series(b):
    x = b["x"]
    return dict(t=b["t"], x=x, y=np.roll(x, 1), xl=np.array([0.0, 2.0]), w=b["wt"][:2])


FUNCS = {
    "disper": F(lambda w: core_dispersion.disper(w, 3.0), lambda b: dict(w=b["w"]), columns=False),
    "disper(deep)": F(lambda w: core_dispersion.disper(w, np.inf), lambda b: dict(w=b["w"]), columns=False),
    "disper(shallow)": F(lambda w: core_dispersion.disper(w, -3.0), lambda b: dict(w=b["w"]), columns=False),
    "disper(gravity)": F(lambda w: core_dispersion.disper(w, 0.5, 1.6), lambda b: dict(w=b["w"]), columns=False),
    "frequency_averaging": F(lambda f, S: cs.frequency_averaging(f, S, 3.0 * _step(f)), _fS),
    "frequency_averaging(complex)": F(lambda f, X: cs.frequency_averaging(f, X, 2.0 * _step(f)), _fX, ints=False),
    "frequency_averaging(no spacing)": F(lambda f, S: cs.frequency_averaging(f, S), _fS),
    "unfold_spectrum": F(lambda f, X: cs.unfold_spectrum(f, X, True), _fX),
    "unfold_spectrum(even)": F(lambda f, X: cs.unfold_spectrum(f, X, False), _fX),
    "coherence": F(lambda f, X, Y: cs.coherence(f, X, Y, 3.0 * _step(f)), lambda b: dict(f=b["f"], X=b["X"], Y=b["X"][::-1].copy() + b["S"]), lists=False, columns=False),
    "freq2time": F(lambda X: cs.freq2time(X), lambda b: dict(X=np.concatenate([b["X"], np.conj(b["X"][:0:-1])])), ints=False),
    "time2freq": F(lambda t, x: cs.time2freq(t, x), _tx),
    "time2freq_nyquist": F(lambda t, x: cs.time2freq_nyquist(t, x), _tx),
    "compute_spectrum_time_series": F(lambda t, x: cs.compute_spectrum_time_series(t, x), _tx),
    "compute_spectrum_time_series(df)": F(lambda t, x: cs.compute_spectrum_time_series(t, x, 3.0 / (_size(t) * _step(t))), _tx),
    "compute_spectrum_freq_series": F(lambda f, X: cs.compute_spectrum_freq_series(f, X, 2 * _size(f) - 1, 2.0 * _step(f)), _fX),
    "spectrum2timeseries": F(lambda f, S: cs.spectrum2timeseries(f, S, 0.0, 20.0, 0.5, 7), _fS),
    "spectrum2timeseries_object": F(lambda f, S: cs.spectrum2timeseries_object(f, S, 0.0, 20.0, 0.5, 0), _fS),
    "compute_spectrum_welch_wrapper": F(lambda x: cs.compute_spectrum_welch_wrapper(x, 0.5, 8, 4), lambda b: dict(x=b["x"]), columns=False),
    "compute_spectrum_welch_wrapper(defaults)": F(lambda x: cs.compute_spectrum_welch_wrapper(x, 0.5), lambda b: dict(x=b["x"]), columns=False),
    "compute_spectrum_welch_wrapper(length)": F(lambda x: cs.compute_spectrum_welch_wrapper(x, 0.5, 8), lambda b: dict(x=b["x"]), columns=False),
    "applybandfilter": F(lambda f, X: cs.applybandfilter(f, X, _at(f, 1), _at(f, _size(f) - 2)), _fX, lists=False, columns=False),
    "bandpassfilter": F(lambda t, x: cs.bandpassfilter(t, x, 0.1 / _step(t), 0.3 / _step(t)), _tx),
    "sort_wave_params": F(lambda h, T: ct.sort_wave_params(h, T), _hT, lists=False, columns=False),
    "determine_zero_crossing": F(lambda t, x: ct.determine_zero_crossing(t, x), _tx, lists=False, columns=False),
    "determine_zero_crossing(up)": F(lambda t, x: ct.determine_zero_crossing(t, x, "up"), _tx, lists=False, columns=False),
    "highest_waves_params": F(lambda h, T: ct.highest_waves_params(h, T, 0.4), _sorted, lists=False, columns=False),
    "exceedance_wave_height": F(lambda h: ct.exceedance_wave_height(h, 20.0), lambda b: dict(h=_sorted(b)["h"]), lists=False, columns=False),
    "determine_params_individual_waves": F(lambda tc, t, x: ct.determine_params_individual_waves(tc, t, x), _crossed, lists=False, columns=False),
    "compute_spectrum_params": F(lambda f, S: cw.compute_spectrum_params(f, S), _fS),
    "compute_spectrum_params(limits)": F(lambda f, S: cw.compute_spectrum_params(f, S, _at(f, 1), 1e9), _fS),
    "compute_moment": F(lambda f, S: cw.compute_moment(f, S, 0), _fS),
    "compute_moment(order 2)": F(lambda f, S: cw.compute_moment(f, S, 2, _at(f, 1), _at(f, _size(f) - 2)), _fS),
    "compute_moment(order -1)": F(lambda f, S: cw.compute_moment(f, S, -1), _fS),
    "compute_moment(tail)": F(lambda f, S: cw.compute_moment(f, S, 1, _at(f, 0), np.inf), _fS),
    "create_spectrum_jonswap": F(lambda f: cw.create_spectrum_jonswap(f, _at(f, _size(f) // 2), 2.0, 2.5, 0), _f),
    "create_spectrum_jonswap(tail)": F(lambda f: cw.create_spectrum_jonswap(f, _at(f, _size(f) // 2), 2.0, l_fmax=1), _f),
    "create_spectrum_object_jonswap": F(lambda f: cw.create_spectrum_object_jonswap(f, _at(f, _size(f) // 2), 2.0), _f),
    "create_spectrum_piersonmoskowitz": F(lambda f: cw.create_spectrum_piersonmoskowitz(f, _at(f, _size(f) // 2), 2.0), _f),
    "create_spectrum_object_piersonmoskowitz": F(lambda f: cw.create_spectrum_object_piersonmoskowitz(f, _at(f, _size(f) // 2), 2.0, 1), _f),
    "tpd": F(lambda f, S: cw.tpd(f, S), _fS),
    "compute_tps": F(lambda f, S: cw.compute_tps(f, S), _fS),
    "decompose_linear_ZS": F(lambda t, x, xl, w: cd.decompose_linear_ZS(t, x, 2.0, xl, w), _gauges, lists="xl w", columns=False, ints=True),
    "decompose_linear_ZS_series": F(lambda t, x, y, xl, w: cd.decompose_linear_ZS_series([Series(t, x), Series(t, y)], 2.0, xl, w, 0.05), _gauge_series, columns="t x y"),
    "Series": F(_methods_series, _tx),
    "Spectrum": F(_methods_spectrum, _fS),
    "WaveHeights": F(_methods_waves, _hT),
    "convert_to_array_type": F(lambda x: ce.convert_to_array_type(x), lambda b: dict(x=b["x"]), columns=False),
    "convert_to_vector": F(lambda x: ce.convert_to_vector(x)[0], lambda b: dict(x=b["x"])),
    "monotonic_increasing_constant_step": F(lambda t: ce.monotonic_increasing_constant_step(t), lambda b: dict(t=b["t"]), columns=False),
    "approx_array_index": F(lambda x: ce.approx_array_index(x, 0.7), lambda b: dict(x=b["x"]), columns=False),
}


def _vec(f):
    return np.asarray(f).ravel()


def _step(f):
    v = _vec(f)
    return float(v[1] - v[0])


def _size(f):
    return int(_vec(f).size)


def _at(f, i):
    return float(_vec(f)[i])


@st.composite
def _cases(draw):
    n = draw(sizes(16, 200))
    return dict(
        name=draw(st.sampled_from(sorted(FUNCS))),
        n=n,
        salt=draw(salts()),
        zero=draw(st.booleans()),
        int=draw(ints(0, 2)) == 0,
        t0=draw(st.sampled_from([0.0, 0.0, 5.0, -20.0])),
        positive=draw(st.booleans()),
    )


def _base(c):
    """Input data, integer-valued or not."""
    n = c["n"]
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    whole = c["int"] and FUNCS[c["name"]].ints
    dt = 1.0 if whole else 0.5
    df = 1.0 if whole else 0.02
    i = np.arange(n)
    b = dict(t=c["t0"] + i * dt, f=(i + (0 if c["zero"] else 1)) * df)
    x = 2 * np.cos(2 * np.pi * (0.11 * i + r.uniform())) + r.normal(size=n)
    S = r.uniform(0.1, 2.0, n) + 3 * np.exp(-(((i - n * 0.4) / 4.0) ** 2))
    if c["zero"]:
        S[0] = 0.0
    X = r.normal(size=n) + 1j * r.normal(size=n)
    h, T, w = r.uniform(0.1, 3, n), r.uniform(2, 9, n), r.normal(size=n) * 2
    if whole:
        x, S, h, T, w = (np.round(3 * v) for v in (x, S, h, T, w))
        X = np.round(5 * X.real)
        S[n // 2] += 1.0
        h = r.permutation(n) + 1.0  # distinct: the order of equal heights may depend on their type
    else:
        # ties and zeros
        x[r.integers(0, n, 3)] = 0.0
        h[r.integers(0, n, 4)] = h[0]
    wt = np.array([1.0, 1.0, 1.0]) if whole else np.array([(0.75, 0.4, 1.0), (0.6, 0.9, 0.3), (1.0, 1.0, 0.5)][c["salt"] % 3])
    b.update(wt=wt, x=x, S=S, X=X, h=h, T=T, w=w)
    return b, whole


def _run(func, args, what):
    try:
        return [np.array(a) for a in _flat(func.call(**args))]
    except Exception as e:
        import traceback

        last = traceback.extract_tb(e.__traceback__)[-1]
        fail(f"{what}: raised {type(e).__name__}: {e} ({last.filename.split('/')[-1]}:{last.lineno})")


def _same(got, want, rtol, what):
    expect(len(got) == len(want), f"{what}: {len(got)} results instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        if a.dtype.kind in "OSU" or b.dtype.kind in "OSU":
            expect(np.array_equal(a, b), f"{what}: result {i}")
            continue
        close(a, b, rtol, rtol * (scale_of(b) if np.all(np.isfinite(b)) else 0.0), f"{what}, result {i}")


def _strided(v):
    if v.ndim == 1:
        w = np.full(2 * len(v) + 1, 9.0, dtype=v.dtype)
        w[1::2] = v
        return w[1::2]
    return np.asfortranarray(v)


@sub("C21", _cases(), 3000)
def representations(c):
    func = FUNCS[c["name"]]
    name = c["name"]
    base, whole = _base(c)
    ref = {k: np.array(v) for k, v in func.args(base).items()}
    args = {k: v.copy() for k, v in ref.items()}
    np.random.seed(5)
    want = _run(func, args, name)

    def unchanged(what):
        for k, v in args.items():
            v = np.asarray(v)
            u = v if v.shape == ref[k].shape else v.reshape(ref[k].shape)
            expect(np.array_equal(u, ref[k]), f"{name} changed its argument {k} ({what}): {u!r}, was {ref[k]!r}")

    unchanged("float arrays")
    np.random.seed(5)
    _same(_run(func, args, name + ", second call"), want, 0.0, name + ", second call with the same arrays")
    unchanged("second call")
    args = {k: v.copy() for k, v in ref.items()}
    for v in args.values():
        v.flags.writeable = False
    np.random.seed(5)
    _same(_run(func, args, name + " with read-only arrays"), want, 0.0, name + " with read-only arrays")
    args = {k: _strided(v) for k, v in ref.items()}
    np.random.seed(5)
    _same(_run(func, args, name + " with strided arrays"), want, 1e-12, name + " with strided arrays")
    unchanged("strided arrays")
    labels = [name]
    if func.lists:
        keys = func.lists.split() if isinstance(func.lists, str) else list(ref)
        for how, conv in (("lists", lambda v: v.tolist()), ("tuples", lambda v: tuple(v.tolist()))):
            args = {k: conv(v) if k in keys and v.ndim == 1 else v.copy() for k, v in ref.items()}
            np.random.seed(5)
            _same(_run(func, args, f"{name} with {how}"), want, 1e-12, f"{name} with {how}")
            unchanged(how)
        labels.append("lists")
    if func.columns:
        keys = func.columns.split() if isinstance(func.columns, str) else list(ref)
        args = {k: v.copy()[:, None] if k in keys else v.copy() for k, v in ref.items()}
        np.random.seed(5)
        _same(_run(func, args, name + " with columns"), want, 1e-12, name + " with column arrays")
        unchanged("columns")
        # one argument a column, the others vectors
        k = keys[c["salt"] % len(keys)]
        args = {q: v.copy()[:, None] if q == k else v.copy() for q, v in ref.items()}
        np.random.seed(5)
        _same(_run(func, args, f"{name} with column {k}"), want, 1e-12, f"{name} with argument {k} as a column array")
        labels.append("columns")
    if whole:
        for how, keys in (("all", list(ref)), ("one", [sorted(ref)[c["salt"] % len(ref)]])):
            ok = [k for k in keys if ref[k].dtype.kind == "f" and np.array_equal(ref[k], np.round(ref[k]))]
            args = {k: v.astype(np.int64) if k in ok else v.copy() for k, v in ref.items()}
            if ok:
                np.random.seed(5)
                _same(_run(func, args, f"{name} with integers for {ok}"), want, 1e-12, f"{name} with integers for {ok}")
                unchanged("integers")
        labels.append("integers")
    return True, labels


@sub("C21", st.fixed_dictionaries(dict(n=sizes(16, 200), salt=salts(), what=st.sampled_from(["Series", "WaveHeights", "Spectrum"]), fmin=floats(0.0, 0.5))), 500)
def objects_keep_the_callers_arrays(c):
    """Methods of objects do not write into the arrays that the object was made from."""
    n = c["n"]
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    if c["what"] == "Series":
        a, b = np.arange(n) * 0.5, r.normal(size=n)
        fn = _methods_series
    elif c["what"] == "WaveHeights":
        a, b = r.uniform(0.1, 3, n), r.uniform(2, 9, n)
        fn = _methods_waves
    else:
        a, b = np.arange(n) * 0.02, r.uniform(0.1, 1, n)
        fn = _methods_spectrum
    a0, b0 = a.copy(), b.copy()
    fn(a, b)
    expect(np.array_equal(a, a0) and np.array_equal(b, b0), f"methods of {c['what']} changed the caller's arrays")
    return True, [c["what"]]


@sub("C21", st.fixed_dictionaries(dict(n=sizes(16, 100), salt=salts(), what=st.sampled_from(["Series", "WaveHeights", "WaveHeights", "WaveHeights", "Spectrum"]), plot=ints(0, 2), opt=st.booleans())), 60, 1500)
def plots_keep_the_callers_arrays(c):
    """Plots do not write into the arrays that the object was made from."""
    n = c["n"]
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    a, b = np.arange(n) * 0.5, r.normal(size=n)
    try:
        if c["what"] == "Series":
            a0, b0 = a.copy(), b.copy()
            s = Series(a, b)
            s.plot(plot_crossing=c["opt"])
        elif c["what"] == "WaveHeights":
            a, b = r.uniform(0.1, 3, n), r.uniform(2, 9, n)
            a0, b0 = a.copy(), b.copy()
            w = WaveHeights(a, b)
            if c["plot"] == 0:
                w.plot_hist_waveheight()
            elif c["plot"] == 1:
                w.plot_exceedance_waveheight()
            else:
                w.plot_exceedance_waveheight_Rayleigh(normalize=c["opt"])
        else:
            a, b = np.arange(n) * 0.02, r.uniform(0.1, 1, n)
            a0, b0 = a.copy(), b.copy()
            s = Spectrum(a, b)
            s.get_Tps()
            s.get_Tm02()
            s.plot(plot_periods=c["opt"])
    finally:
        plt.close("all")
    expect(np.array_equal(a, a0) and np.array_equal(b, b0), f"plots of {c['what']} changed the caller's arrays")
    return True, [c["what"]]


@sub("C21", st.fixed_dictionaries(dict(x=st.one_of(floats(-10.0, 10.0), st.integers(-9, 9)), d=logfloats(0.1, 100.0))), 200)
def scalars(c):
    """Scalars are vectors of one element."""
    x = c["x"]
    a = np.asarray(ce.convert_to_vector(x)[0])
    expect(a.shape == (1,) and a[0] == x, f"convert_to_vector({x!r}) = {a!r}")
    a = np.asarray(ce.convert_to_array_type(x))
    expect(a.shape == (1,) and a[0] == x, f"convert_to_array_type({x!r}) = {a!r}")
    k1 = np.ravel(np.asarray(core_dispersion.disper(x, c["d"])))
    k2 = np.ravel(np.asarray(core_dispersion.disper(np.array([float(x)]), c["d"])))
    k3 = np.ravel(np.asarray(core_dispersion.disper([x], c["d"])))
    close(k1, k2, 1e-13, 0.0, f"disper({x!r}, {c['d']!r}), scalar and array")
    close(k3, k2, 1e-13, 0.0, f"disper([{x!r}], {c['d']!r}), list and array")
    v = abs(x) + 0.1
    close(np.asarray(cw.compute_tps(v, 1.0)), 1 / v, 1e-13, 0.0, f"compute_tps({v!r}, 1.0)")
    return True, ["integer" if isinstance(x, int) else "float"]


@sub("C21", st.fixed_dictionaries(dict(c=_cases(), bad=st.sampled_from(["nan", "nan", "inf", "-inf", "huge", "zeros", "reversed"]), which=ints(0, 5), at=floats(0.0, 1.0))), 1500)
def unusual_values(c):
    """Whatever the values, and whether or not the call succeeds, the arguments stay as they were."""
    import warnings

    name = c["c"]["name"]
    func = FUNCS[name]
    base, _ = _base(c["c"])
    args = {k: np.array(v) for k, v in func.args(base).items()}
    k = sorted(args)[c["which"] % len(args)]
    v = args[k]
    if c["bad"] == "zeros":
        v = np.zeros_like(v)
    elif c["bad"] == "reversed":
        v = v[::-1].copy()
    else:
        w = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "huge": 1e300}[c["bad"]]
        v = v.astype(complex if v.dtype.kind == "c" else float)
        v.reshape(-1)[min(int(c["at"] * v.size), v.size - 1)] = w
    args[k] = v
    keep = {q: a.copy() for q, a in args.items()}
    ok = True
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            func.call(**args)
        except Exception:
            ok = False
        finally:
            plt.close("all")
    for q in keep:
        expect(args[q].dtype == keep[q].dtype and args[q].shape == keep[q].shape, f"{name} changed its argument {q}")
        expect(np.array_equal(args[q], keep[q], equal_nan=True), f"{name} changed its argument {q} ({c['bad']} in {k})")
    return True, [c["bad"], "returned" if ok else "raised"]
