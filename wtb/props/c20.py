from hypothesis import strategies as st

from wtb.core import expect, info, rejects, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import Series, Spectrum, WaveHeights, core_engine as ce, core_spectral as cs, core_time as ct
from wtb.sut import core_wave_decomposition as cd, core_wavefunctions as cw

info(
    "C20",
    "One valid call per case, which has to be accepted, and the same call with one thing malformed at a drawn position,"
    " which has to raise. Malformed axes: steps that grow, shrink, drift, repeat, reverse, swap, jump by 0.1 % or more,"
    " NaN; wrong lengths; (n, 2) and (1, n) arrays; unsorted heights at any position; fractions, percentages, weights and"
    " tail options just outside their range; gauge and series counts that disagree. Non-trivial: every malformed case.",
    ["compute_tps and spectrum2timeseries are not expected to reject non-uniform frequency axes (the repository's own"
     " tests pass such axes to compute_tps), nor functions that do not document the check.",
     "Strongly irregular Series axes are those whose step variance is ten times the tool's limit or more.",
     "Well-formed axes carry the rounding of start + i*step, linspace or cumulative sums."],
)

TIME = {
    "time2freq": lambda t, x: cs.time2freq(t, x),
    "time2freq_nyquist": lambda t, x: cs.time2freq_nyquist(t, x),
    "compute_spectrum_time_series": lambda t, x: cs.compute_spectrum_time_series(t, x),
    "compute_spectrum_time_series(df)": lambda t, x: cs.compute_spectrum_time_series(t, x, 0.01),
    "bandpassfilter": lambda t, x: cs.bandpassfilter(t, x, 0.1, 0.2),
    "decompose_linear_ZS": lambda t, x: cd.decompose_linear_ZS(t, np.stack([x, 2 * x, x], axis=1), 1.0, [0.0, 1.0, 2.5], [1.0, 1.0, 1.0]),
}
FREQ = {
    "compute_spectrum_freq_series": lambda f, S: cs.compute_spectrum_freq_series(f, S, 2 * len(S)),
    "compute_spectrum_params": lambda f, S: cw.compute_spectrum_params(f, S),
    "compute_spectrum_params(limits)": lambda f, S: cw.compute_spectrum_params(f, S, 1e-6, 100.0),
    "compute_moment": lambda f, S: cw.compute_moment(f, S, 0),
    "compute_moment(order -1)": lambda f, S: cw.compute_moment(f, S, -1),
    "compute_moment(tail)": lambda f, S: cw.compute_moment(f, S, 1, f[0], np.inf),
    "Spectrum": lambda f, S: Spectrum(f, S),
}
AXIS_ONLY = {
    "create_spectrum_jonswap": lambda f, S: cw.create_spectrum_jonswap(f, 0.1, 1.0),
    "create_spectrum_object_jonswap": lambda f, S: cw.create_spectrum_object_jonswap(f, 0.1, 1.0, 2.0, 1),
    "create_spectrum_piersonmoskowitz": lambda f, S: cw.create_spectrum_piersonmoskowitz(f, 0.1, 1.0),
    "create_spectrum_object_piersonmoskowitz": lambda f, S: cw.create_spectrum_object_piersonmoskowitz(f, 0.1, 1.0, 1),
}
LENGTHS = dict(TIME, **FREQ)
LENGTHS["spectrum2timeseries"] = lambda f, S: cs.spectrum2timeseries(f, S, 0.0, 10.0, 0.5, 1)
LENGTHS["spectrum2timeseries_object"] = lambda f, S: cs.spectrum2timeseries_object(f, S, 0.0, 10.0, 0.5, 1)
LENGTHS["compute_tps"] = lambda f, S: cw.compute_tps(f, S)
LENGTHS["determine_zero_crossing"] = lambda t, x: ct.determine_zero_crossing(t, x)
LENGTHS["determine_params_individual_waves"] = lambda t, x: ct.determine_params_individual_waves(t[:2], t, x)
LENGTHS["sort_wave_params"] = lambda t, x: ct.sort_wave_params(x, t)
LENGTHS["Series"] = lambda t, x: Series(t, x)
DIMS = dict(LENGTHS)
del DIMS["decompose_linear_ZS"], DIMS["Spectrum"], DIMS["Series"]
DIMS["frequency_averaging"] = lambda f, S: cs.frequency_averaging(f, S, 0.02)
DIMS["unfold_spectrum"] = lambda f, S: cs.unfold_spectrum(f, S, False)
DIMS["freq2time"] = lambda f, S: cs.freq2time(S)

BAD_AXES = ("grow", "shrink", "step up", "step down", "repeat", "reverse", "swap", "long step", "short step", "constant", "nan", "late end")


def malform_axis(t, kind, pos, size):
    """t with one defect; pos in 0..1, size >= 1e-3 relative to the step."""
    n = len(t)
    dt = t[1] - t[0]
    i = 1 + int(pos * (n - 2))  # 1..n-1
    u = t.copy()
    if kind == "grow":
        u = t[0] + np.cumsum(np.concatenate([[0.0], dt * (1 + size) ** np.arange(n - 1)])) if n < 60 else t[0] + dt * (np.arange(n) + size * np.arange(n) ** 2 / n)
    elif kind == "shrink":
        u = t[0] + np.concatenate([[0.0], np.cumsum((dt * (1 + (n - np.arange(n - 1)) * size)))])
    elif kind == "step up":
        u[i:] += (np.arange(n - i) + 1) * dt * size
    elif kind == "step down":
        u[i:] -= (np.arange(n - i) + 1) * dt * min(size, 0.9)
    elif kind == "repeat":
        u[i] = u[i - 1]
    elif kind == "reverse":
        u = t[::-1].copy()
    elif kind == "swap":
        u[[i - 1, i]] = u[[i, i - 1]]
    elif kind == "long step":
        u[i:] += dt * size
    elif kind == "short step":
        u[i:] -= dt * min(size, 0.9)
    elif kind == "constant":
        u[:] = t[0]
    elif kind == "nan":
        u[i] = np.nan
    elif kind == "late end":
        u[-1] += dt * size
    return u


def _values(c, n):
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    return r.uniform(0.1, 1.0, n)


def _given(v, how):
    return v.tolist() if how == "list" else v[:, None] if how == "column" else v


_how = st.sampled_from(["array", "array", "list", "column"])
_size = st.one_of(logfloats(1e-3, 1.0), st.sampled_from([1e-3, 0.5, 1.0]))


@st.composite
def _axis_cases(draw):
    name = draw(st.sampled_from(sorted(TIME) + sorted(FREQ) + sorted(AXIS_ONLY)))
    n = draw(sizes(3, 200) if name == "decompose_linear_ZS" else sizes(3, 200, HUGE))
    if name in TIME:
        a = dict(n=n, dt=draw(st.sampled_from([0.1, 0.05, 0.5, 1.0, 1.0 / 3.0, 2.0])), t0=draw(st.sampled_from([0.0, -3.7, 100.0, 12345.678])))
    else:
        df = draw(st.sampled_from(DFS))
        a = dict(n=n, dt=df, t0=draw(st.sampled_from([0.0, 1.0, 2.5])) * df)
    return dict(name=name, axis=a, salt=draw(salts()), kind=draw(st.sampled_from(BAD_AXES)), pos=draw(floats(0.0, 1.0)), size=draw(_size), how=draw(_how))


def _engine(t, want, what):
    got = ce.monotonic_increasing_constant_step(t)
    expect(bool(got) == want, f"monotonic_increasing_constant_step: {got!r} for {what}")


@sub("C20", _axis_cases(), 2500)
def malformed_axes(c):
    name = c["name"]
    func = TIME.get(name) or FREQ.get(name) or AXIS_ONLY.get(name)
    n = c["axis"]["n"]
    t = build_axis(c["axis"])
    x = _values(c, n)
    how = "array" if name in ("decompose_linear_ZS", "compute_moment(tail)") or name in AXIS_ONLY and c["how"] == "list" else c["how"]
    if name not in AXIS_ONLY or (t[0] <= 0.1 <= t[-1]):
        func(_given(t, how), _given(x, how) if name != "decompose_linear_ZS" else x)
    _engine(t, True, "a uniform axis")
    if c["kind"] == "late end" and n == 2 or c["kind"] in ("long step", "short step", "step up", "step down", "late end") and n < 4:
        kind = "repeat"
    else:
        kind = c["kind"]
    bad = malform_axis(t, kind, c["pos"], c["size"])
    d = np.diff(bad)
    if not (np.any(np.isnan(d)) or np.any(d <= 0) or np.max(d) - np.min(d) > 5e-4 * c["axis"]["dt"]):
        return False, ["still uniform"]
    _engine(bad, False, f"an axis with defect {kind!r}: {bad!r}")
    rejects(lambda: func(_given(bad, how), _given(x, how) if name != "decompose_linear_ZS" else x), f"{name}, axis with defect {kind!r}")
    return True, [kind, name]


@st.composite
def _form_cases(draw, table, lo=4):
    name = draw(st.sampled_from(sorted(table)))
    n = draw(sizes(lo, 120))
    return dict(name=name, n=n, dt=draw(st.sampled_from([0.01, 0.05, 0.1, 0.5])), salt=draw(salts()), which=draw(ints(0, 1)), by=draw(st.sampled_from([-1, 1, -2, 5])), form=draw(st.sampled_from(["two columns", "row", "two rows"])), how=draw(st.sampled_from(["array", "list"])))


@sub("C20", _form_cases(LENGTHS), 1200)
def different_lengths(c):
    name, n = c["name"], c["n"]
    func = LENGTHS[name]
    t = np.arange(n + 6) * c["dt"]
    x = _values(c, n + 6)
    if name in ("determine_zero_crossing", "determine_params_individual_waves", "sort_wave_params") or name.startswith("compute_moment(tail") or name == "decompose_linear_ZS":
        conv = np.asarray
    else:
        conv = (lambda v: v.tolist()) if c["how"] == "list" else np.asarray
    func(conv(t[:n]), conv(x[:n]))
    m = n + c["by"]
    if m < 2:
        return False, []
    a, b = (m, n) if c["which"] else (n, m)
    rejects(lambda: func(conv(t[:a]), conv(x[:b])), f"{name} with {a} and {b} values")
    return True, [name]


@sub("C20", _form_cases(DIMS), 1200)
def two_dimensions(c):
    name, n = c["name"], c["n"]
    func = DIMS[name]
    t = np.arange(n) * c["dt"]
    x = _values(c, n)
    func(t, x)

    def form(v):
        if c["form"] == "two columns":
            return np.stack([v, v], axis=1)
        if c["form"] == "two rows":
            return np.stack([v, v], axis=0)
        return v[None, :]

    if name == "determine_params_individual_waves":
        bad = [lambda: ct.determine_params_individual_waves(t[:2], form(t), x), lambda: ct.determine_params_individual_waves(t[:2], t, form(x)), lambda: ct.determine_params_individual_waves(form(t), t, x)]
    elif name == "freq2time":
        bad = [lambda: cs.freq2time(form(x))]
    else:
        bad = [lambda: func(form(t), form(x))]
        if name not in ("compute_moment(tail)",):
            bad += [lambda: func(form(t), x), lambda: func(t, form(x))]
    b = bad[c["salt"] % len(bad)]
    rejects(b, f"{name} with {c['form']}")
    return True, [name]


_AMOUNT = st.one_of(st.sampled_from([1e-9, 1e-6, 1e-3, 0.1, 1.0, 99.0]), logfloats(1e-9, 1e3))


@st.composite
def _wave_cases(draw):
    n = draw(st.one_of(ints(2, 8), ints(2, 120)))
    return dict(n=n, salt=draw(salts()), pos=draw(st.one_of(st.just(0.0), st.just(1.0), floats(0.0, 1.0))), kind=draw(st.sampled_from(["unsorted", "unsorted", "below", "above", "cross"])), by=draw(_AMOUNT), p=draw(st.one_of(st.sampled_from([0.0, 1.0, 1.0 / 3.0, 0.02]), floats(0.0, 1.0))), ties=draw(st.booleans()), word=draw(st.sampled_from(["", "x", "zero", "downn", "own", "dow", "updown", "u", "p", "down ", " up", "crossing", "downwards", "upper"])))


@sub("C20", _wave_cases(), 1500)
def wave_arguments(c):
    n, p = c["n"], c["p"]
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    h = np.sort(r.uniform(0.1, 3.0, n))[::-1].copy()
    if c["ties"]:
        h = np.ceil(h)
    T = r.uniform(2.0, 9.0, n)
    ct.highest_waves_params(h, T, p)
    ct.exceedance_wave_height(h, 100.0 * p)
    w = WaveHeights(h, T)
    w.highest_waves(p)
    w.get_exceedance_waveheight(100.0 * p)
    k = c["kind"]
    if k == "unsorted":
        i = int(round(c["pos"] * (n - 2)))
        bad = h.copy()
        bad[i + 1] = bad[i] + min(c["by"], 5.0) * 1e-3 + 1e-9
        rejects(lambda: ct.highest_waves_params(bad, T, p), f"highest_waves_params, heights unsorted at {i} of {n}")
        rejects(lambda: ct.exceedance_wave_height(bad, 100.0 * p), f"exceedance_wave_height, heights unsorted at {i} of {n}")
    elif k in ("below", "above"):
        v = -c["by"] if k == "below" else 1.0 + c["by"]
        rejects(lambda: ct.highest_waves_params(h, T, v), f"highest_waves_params, fraction {v!r}")
        rejects(lambda: w.highest_waves(v), f"WaveHeights.highest_waves, fraction {v!r}")
        v = -c["by"] if k == "below" else 100.0 + c["by"]
        rejects(lambda: ct.exceedance_wave_height(h, v), f"exceedance_wave_height, percentage {v!r}")
        rejects(lambda: w.get_exceedance_waveheight(v), f"WaveHeights.get_exceedance_waveheight, percentage {v!r}")
    else:
        t = np.arange(n) * 0.5
        x = r.normal(size=n)
        s = Series(t, x)
        for good in ("down", "up", "Down", "UP"):
            ct.determine_zero_crossing(t, x, good)
            s.get_crossing(good)
        rejects(lambda: ct.determine_zero_crossing(t, x, c["word"]), f"determine_zero_crossing, type {c['word']!r}")
        rejects(lambda: s.get_crossing(c["word"]), f"Series.get_crossing, type {c['word']!r}")
    return True, [k]


@sub("C20", st.fixed_dictionaries(dict(n=ints(10, 100), tail=st.one_of(st.sampled_from([2, -1, 3, 10, 0.5, 1.5, -0.1]), ints(-50, 50)), name=st.sampled_from(sorted(AXIS_ONLY)), pos=st.booleans())), 200)
def tail_option(c):
    f = np.arange(1, c["n"] + 1) * 0.02
    fn = getattr(cw, c["name"])
    for ok in (0, 1):
        fn(f, 0.1, 1.0, l_fmax=ok)
    if c["tail"] in (0, 1):
        return False, []
    rejects(lambda: fn(f, 0.1, 1.0, l_fmax=c["tail"]), f"{c['name']}, tail option {c['tail']!r}")
    return True, [c["name"]]


DECOMP = ("swap", "equal", "descending", "one gauge", "weight below 0", "weight above 1", "weights too small", "weights count", "gauges count", "signals count", "time points", "signal points")


@st.composite
def _decomp_cases(draw):
    ng = draw(ints(2, 6))
    return dict(n=draw(sizes(4, 60)), ng=ng, dx=draw(st.lists(floats(0.1, 3.0), min_size=ng, max_size=ng)), w=draw(st.lists(floats(0.6, 1.0), min_size=ng, max_size=ng)), salt=draw(salts()), kind=draw(st.sampled_from(DECOMP)), i=draw(ints(0, 5)), by=draw(st.sampled_from([1e-6, 1e-3, 0.2, 1.0, 5.0])), more=draw(st.booleans()), series=draw(st.booleans()), as_list=draw(st.booleans()), h=draw(logfloats(0.1, 50.0)))


@sub("C20", _decomp_cases(), 1200)
def decompositions(c):
    n, ng = c["n"], c["ng"]
    t = np.arange(n) * 0.5
    x = np.random.Generator(np.random.PCG64(c["salt"])).normal(size=(n + 3, ng + 1))
    xl = np.cumsum(c["dx"]).tolist()
    w = list(c["w"])
    if not sum(w) > 1:
        w = [1.0] * ng

    def call(t, x, xl, w):
        if not c["as_list"]:
            xl, w = np.array(xl), np.array(w)
        if c["series"]:
            return cd.decompose_linear_ZS_series([Series(t, x[:, j]) for j in range(x.shape[1])], c["h"], xl, w)
        return cd.decompose_linear_ZS(t, x, c["h"], xl, w)

    y = x[:n, :ng]
    call(t, y, xl, w)
    k = c["kind"]
    i = c["i"] % ng
    bx, bw, bt, by = list(xl), list(w), t, y
    if k in ("swap", "equal"):
        i = c["i"] % (ng - 1)
        if k == "swap":
            bx[i], bx[i + 1] = bx[i + 1], bx[i]
        else:
            bx[i + 1] = bx[i]
    elif k == "descending":
        bx = bx[::-1]
    elif k == "one gauge":
        bx, bw, by = bx[:1], [1.0], y[:, :1]
    elif k == "weight below 0":
        bw = [1.0] * ng
        bw[i] = -c["by"]
        if sum(bw) <= 1:
            c = dict(c)
    elif k == "weight above 1":
        bw[i] = 1.0 + c["by"]
    elif k == "weights too small":
        bw = [0.0] * ng
        bw[i] = 1.0 if c["more"] else 0.5
        if not c["more"]:
            bw[(i + 1) % ng] = 0.5
    elif k == "weights count":
        bw = w + [1.0] if c["more"] or ng == 2 else w[:-1]
        if sum(bw) <= 1:
            bw = [1.0] * len(bw)
    elif k == "gauges count":
        bx = xl + [xl[-1] + 1.0] if c["more"] else xl[:-1]
    elif k == "signals count":
        by = x[:n, : ng + 1] if c["more"] else x[:n, : ng - 1]
    elif k == "time points":
        bt = np.arange(n + 2) * 0.5 if c["more"] else t[:-1]
    elif k == "signal points":
        by = x[: n + 2, :ng] if c["more"] else x[: n - 1, :ng]
    if c["series"] and k in ("time points", "signal points"):
        # one of the series is longer or shorter than the others
        m = n + 2 if c["more"] else n - 1
        ss = [Series(np.arange(m if j == i else n) * 0.5, x[: (m if j == i else n), j]) for j in range(ng)]
        rejects(lambda: cd.decompose_linear_ZS_series(ss, c["h"], xl, w), f"decompose_linear_ZS_series, series {i} of {ng} has {m} instead of {n} points")
    else:
        rejects(lambda: call(bt, by, bx, bw), f"decomposition (series: {c['series']}) with defect {k!r}: gauges {bx}, weights {bw}, time points {len(bt)}, signals {by.shape}")
    return True, [k, "series" if c["series"] else "arrays"]


@st.composite
def _series_cases(draw):
    n = draw(sizes(3, 200, HUGE))
    return dict(n=n, dt=draw(st.sampled_from([0.1, 0.25, 0.5, 1.0, 2.0])), t0=draw(st.sampled_from([0.0, -3.7, 1000.0])), salt=draw(salts()), kind=draw(st.sampled_from(["repeat", "reverse", "swap", "constant", "nan", "alternating", "gap", "longer", "shorter"])), pos=draw(floats(0.0, 1.0)), size=draw(floats(0.5, 50.0)))


@sub("C20", _series_cases(), 800)
def series_axes(c):
    n, dt = c["n"], c["dt"]
    t = c["t0"] + np.arange(n) * dt
    x = np.random.Generator(np.random.PCG64(c["salt"])).normal(size=n + 1)
    Series(t, x[:n])
    k = c["kind"]
    if k in ("longer", "shorter"):
        rejects(lambda: Series(t, x if k == "longer" else x[: n - 1]), f"Series with {k} record")
        return True, [k]
    if k == "alternating":
        bad = c["t0"] + np.concatenate([[0.0], np.cumsum(dt * (1 + np.arange(n - 1) % 2 * c["size"]))])
    elif k == "gap":
        bad = t.copy()
        bad[1 + int(c["pos"] * (n - 2)) :] += c["size"] * dt * n
    else:
        bad = malform_axis(t, k, c["pos"], 0.5)
    d = np.diff(bad)
    if k in ("alternating", "gap") and not np.var(d) > 10 * np.mean(d) / 100:
        return False, ["nearly regular"]
    rejects(lambda: Series(bad, x[:n]), f"Series on a time axis with defect {k!r}")
    return True, [k]


@st.composite
def _good_cases(draw):
    a = draw(axes(2, 400, HUGE))
    return dict(axis=a, salt=draw(salts()), how=draw(_how), off=draw(floats(-5.0, 5.0)))


@sub("C20", _good_cases(), 800)
def uniform_time_axes(c):
    """Uniform axes of any start, step and construction are accepted by everything that takes a time axis."""
    t = build_axis(c["axis"])
    n = len(t)
    x = _values(c, n) - 0.55
    _engine(t, True, "a uniform axis")
    tt, xx = _given(t, c["how"]), _given(x, c["how"])
    for name, func in TIME.items():
        if name == "decompose_linear_ZS":
            if n <= 300 and n >= 2:
                func(t, x)
        elif not name.endswith("(df)"):
            func(tt, xx)
    s = Series(tt, xx)
    if n >= 8:
        s.get_spectrum_raw(2.0 / (n * c["axis"]["dt"]))
    s.get_bandpassfilter(0.1 / c["axis"]["dt"], 0.3 / c["axis"]["dt"])
    s.get_fourier_comp()
    s.get_crossing()
    return True, [c["axis"]["how"], "start above 1e6" if abs(t[0]) > 1e6 else "start below 1e6"]


@st.composite
def _good_spectra(draw):
    return dict(s=draw(spectra(3, 300, HUGE)), how=draw(_how), build=draw(st.sampled_from(["arange", "linspace", "sum"])))


@sub("C20", _good_spectra(), 500)
def uniform_frequency_axes(c):
    a = c["s"]["axis"]
    f = build_axis(dict(n=a["n"], dt=a["df"], t0=a["f0"], how=c["build"]))
    S = build_density(c["s"]["S"], a["n"])
    _engine(f, True, "a uniform axis")
    ff, SS = _given(f, c["how"]), _given(S, c["how"])
    for name, func in FREQ.items():
        if name == "compute_moment(tail)":
            func(f, S)
        elif name != "compute_spectrum_params(limits)":
            func(ff, SS)
    fp = float(f[len(f) // 2])
    cw.create_spectrum_jonswap(f, fp, 1.0)
    cw.create_spectrum_object_piersonmoskowitz(f, fp, 1.0)
    cw.compute_tps(ff, SS)
    cs.spectrum2timeseries(ff, SS, 0.0, 10.0 / f[-1], 0.5 / f[-1])
    return True, [c["build"]]


@st.composite
def _int_axis_cases(draw):
    kind = draw(st.sampled_from(["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]))
    n = draw(ints(3, 12) if kind.endswith("8") else st.one_of(ints(3, 12), sizes(3, 120)))
    top = min(int(np.iinfo(kind).max), 10**6)
    step = draw(st.one_of(st.just(1), ints(1, max(1, min(50, (top // 2) // n)))))
    return dict(
        name=draw(st.sampled_from(sorted(set(TIME) | set(FREQ) | set(AXIS_ONLY)) + ["Series", "gauges", "gauges"])),
        dtype=kind,
        n=n,
        step=step,
        start=draw(st.one_of(st.just(0), ints(0, top - n * step))),
        defect=draw(st.sampled_from(["reverse", "swap", "repeat", "jump", "constant"])),
        pos=draw(floats(0.0, 1.0)),
        salt=draw(salts()),
    )


@sub("C20", _int_axis_cases(), 1000)
def integer_axes(c):
    """Axes and gauge positions of whole numbers, also unsigned ones, of which no difference is negative."""
    n, name = c["n"], c["name"]
    a = np.array(c["start"] + c["step"] * np.arange(n), dtype=c["dtype"])
    x = _values(c, n)
    i = 1 + int(c["pos"] * (n - 2))
    bad = a.copy()
    if c["defect"] == "reverse":
        bad = bad[::-1].copy()
    elif c["defect"] == "swap":
        bad[[i - 1, i]] = bad[[i, i - 1]]
    elif c["defect"] == "repeat":
        bad[i] = bad[i - 1]
    elif c["defect"] == "constant":
        bad[:] = a[0]
    else:
        # the last value is left out and the others move up by one step
        bad = np.concatenate([a[: n // 2], a[n // 2 + 1 :]])
    if c["defect"] == "jump" and (name in ("Series", "gauges") or len(bad) < 3 or np.ptp(np.diff(bad.astype(float))) == 0):
        return False, []
    if name == "gauges":
        t = np.arange(16) * 0.5
        X = np.random.Generator(np.random.PCG64(c["salt"])).normal(size=(16, n))
        w = np.ones(n)
        cd.decompose_linear_ZS(t, X, 3.0, a, w)
        rejects(lambda: cd.decompose_linear_ZS(t, X, 3.0, bad, w), f"gauge positions {bad!r}")
        return True, [c["dtype"], name]
    func = TIME.get(name) or FREQ.get(name) or AXIS_ONLY.get(name) or Series
    if name not in AXIS_ONLY:
        func(a, x)
    _engine(a, True, f"the axis {a!r}")
    if name != "Series":
        _engine(bad, False, f"the axis {bad!r}")
    rejects(lambda: func(bad, x[: len(bad)]), f"{name}, axis {bad!r}")
    return True, [c["dtype"], name]
