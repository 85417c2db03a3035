from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.props import c21
from wtb.props.c21 import FUNCS, F, _flat, _run
from wtb.sut import Series, Spectrum, WaveHeights, core_dispersion as cd, core_engine as ce, core_spectral as cs, core_wave_decomposition as cz, core_wavefunctions as cw

info(
    "C32",
    "Every public function and constructor (the table of C21) with its arrays in single precision, in big-endian byte"
    " order, or as 32-bit integers, against the same values as native doubles; and records of 20..400 or up to 4999"
    " samples on single-precision time axes with ordinary steps (0.1, 0.04, 1/3, ... s) against the same record on the"
    " exact axis. One array of integers besides others with fractions; records, and heights of integer counts of 8"
    " to 64 bits up to the largest value of the type; angular frequencies, records, gauge positions and weights of unsigned integers. Non-trivial: every case (noise records and spectra); counts: with"
    " waves.",
    ["Results of single-precision input are compared at single precision (1e-4 of the largest value)."],
)


def _series(t, x):
    s = Series(t, x)
    n = int(np.asarray(t).size)
    T = n * float(s.dt)
    # means and skewnesses that cancel are compared with the values they stem from
    out = [s, s.max(), s.min(), np.array([s.max(), s.min(), s.mean()]), s.var()]
    out += [np.array([1.0, s.get_skewness(), s.get_asymmetry()]), s.get_crossing(), s.get_crossing("up")]
    out += [s.get_spectrum_raw(2.0 / T), s.get_spectrum(dfDesired=3.0 / T), s.get_bandpassfilter(2.4 / T, (n // 3 + 0.4) / T)]
    out += [[f for f in s.get_fourier_comp()]]
    if s.nwave:
        out += [s.get_Hs(), s.get_Hrms(), s.get_Hmax(), s.get_H2p_Rayleigh(), s.highest_waves(0.5), s.get_exceedance_waveheight(10.0)]
    return out


def _filter(t, x):
    v = np.asarray(t, float).ravel()
    T = len(v) * float(v[1] - v[0])
    return cs.bandpassfilter(t, x, 1.6 / T, (len(v) // 3 + 0.4) / T)


TABLE = dict(FUNCS)
TABLE["Series"] = F(_series, FUNCS["Series"].args)
TABLE["bandpassfilter"] = F(_filter, FUNCS["bandpassfilter"].args)
TABLE["applybandfilter"] = F(
    lambda f, X: cs.applybandfilter(f, X, c21._at(f, 1) - 0.4 * c21._step(f), c21._at(f, c21._size(f) - 3) + 0.4 * c21._step(f)),
    FUNCS["applybandfilter"].args,
    ints=False,
)


@st.composite
def _cases(draw):
    how = draw(st.sampled_from(["single", "single", "big-endian", "int32"]))
    names = sorted(k for k in TABLE if how != "int32" or TABLE[k].ints)
    return dict(
        name=draw(st.sampled_from(names)),
        how=how,
        n=draw(sizes(16, 200, (255, 600, 1025))),
        salt=draw(salts()),
        zero=draw(st.booleans()),
        t0=draw(st.sampled_from([0.0, 5.0, -20.0])),
    )


def _heights(c):
    """Distinct heights: sorting leaves the order of equal ones open."""
    return np.random.Generator(np.random.PCG64(c["salt"] + 2)).permutation(c["n"]) + 1.0


def _arrays(o):
    return [np.array(a) for a in c21._flat(o)]


def _single(v):
    return v.astype(np.complex64 if v.dtype.kind == "c" else np.float32) if v.dtype.kind in "fc" else v


@sub("C32", _cases(), 2500)
def types(c):
    name, how = c["name"], c["how"]
    func = TABLE[name]
    base, whole = c21._base(dict(c, int=how == "int32"))
    base["h"] = _heights(c)
    if how == "single":
        base["f"] = (np.arange(c["n"]) + (0 if c["zero"] else 1)) / 64.0
        base = {k: _single(v).astype(v.dtype) for k, v in base.items()}
    args = {k: np.array(v) for k, v in func.args(base).items()}

    def conv(v):
        if how == "single":
            return _single(v)
        if how == "big-endian":
            return v.astype(v.dtype.newbyteorder(">"))
        return v.astype(np.int32) if v.dtype.kind == "f" and np.array_equal(v, np.round(v)) else v.copy()

    given = {k: conv(v) for k, v in args.items()}
    wide = {k: v.astype(complex if v.dtype.kind == "c" else float) for k, v in given.items()}
    keep = {k: v.copy() for k, v in given.items()}
    np.random.seed(5)
    want = _run(func, wide, name)
    np.random.seed(5)
    got = _run(func, given, f"{name} with {how} input")
    tol = 1e-4 if how == "single" else 1e-12
    c21._same(got, want, tol, f"{name} with {how} input")
    for k in keep:
        expect(np.array_equal(given[k], keep[k]) and given[k].dtype == keep[k].dtype, f"{name} changed its {how} argument {k}")
    return True, [how]


AXES = ("t", "f", "x", "y", "S", "X", "Y", "h", "T", "w", "tc")


@st.composite
def _mix(draw):
    return dict(
        name=draw(st.sampled_from(sorted(k for k in TABLE if TABLE[k].ints))),
        how=draw(st.sampled_from(["int64", "int32", "int16", "bool-free single", "uint8", "uint16", "uint32"])),
        which=draw(ints(0, 5)),
        n=draw(sizes(16, 200, (255, 600, 1025))),
        salt=draw(salts()),
        zero=draw(st.booleans()),
        t0=draw(st.sampled_from([0.0, 5.0, -20.0])),
        int=True,
    )


@sub("C32", _mix(), 1200)
def one_argument_of_another_type(c):
    """One array of integers (or in single precision) besides arrays with fractions."""
    name = c["name"]
    func = TABLE[name]
    base, _ = c21._base(c)
    base["h"] = _heights(c)
    r = np.random.Generator(np.random.PCG64(c["salt"] + 1))
    keys = sorted(func.args({k: v.copy() for k, v in base.items()}))
    one = keys[c["which"] % len(keys)]
    for k in ("x", "S", "h", "T", "w"):
        if k != one:
            base[k] = base[k] + r.uniform(0.0, 0.9, len(base[k]))
    args = {k: np.array(v) for k, v in func.args(base).items()}
    if "y" in args and one != "y":
        args["y"] = args["y"] + r.uniform(0.0, 0.9, args["y"].shape)
    if args[one].dtype.kind == "c":
        return False, []
    if not np.array_equal(args[one], np.round(args[one])):
        args[one] = np.round(args[one])
        if one in ("tc",) and np.any(np.diff(args[one]) <= 0):
            return False, []
    if one in ("w", "xl") and name.startswith("decompose") and (one == "w" or np.any(np.diff(args[one]) <= 0)):
        if one == "xl":
            return False, []
    # in integers below 32 bits plain sums, differences and products of the numbers themselves may wrap, as they do in numpy
    how = "int32" if c["how"] in ("int16", "uint8", "uint16", "uint32") and one in ("t", "f", "S", "h", "X", "Y") else c["how"]
    dtype = np.float32 if "single" in how else np.dtype(how).type
    given = {k: v.astype(dtype) if k == one else v.copy() for k, v in args.items()}
    if not np.array_equal(given[one], args[one]):
        return False, []
    np.random.seed(5)
    want = _run(func, args, name)
    np.random.seed(5)
    got = _run(func, given, f"{name} with argument {one} as {c['how']}")
    # scipy works in single precision for single precision and 16-bit integers
    c21._same(got, want, 1e-4 if dtype in (np.float32, np.int16, np.uint8, np.uint16) else 1e-12, f"{name} with argument {one} as {c['how']}")
    return True, [c["how"], "argument " + one]


@st.composite
def _axes(draw):
    return dict(
        n=draw(sizes(20, 400, BIG)),
        dt=draw(st.one_of(st.sampled_from([0.1, 0.04, 0.05, 1.0 / 3.0, 0.7, 0.013, 2.0, 0.2]), logfloats(0.01, 10.0))),
        t0=draw(st.one_of(st.just(0.0), floats(-1.0, 1.0))),
        salt=draw(salts()),
        k=draw(ints(2, 6)),
        lo=draw(floats(0.05, 0.2)),
    )


@sub("C32", _axes(), 800)
def single_precision_axes(c):
    n, dt, k = c["n"], c["dt"], min(c["k"], c["n"] // 8)
    t = (c["t0"] + np.arange(n)) * dt
    t4 = t.astype(np.float32)
    expect(bool(ce.monotonic_increasing_constant_step(t4)), "a uniform single-precision axis is rejected as non-uniform")
    x = build_signal(dict(kind="waves", salt=c["salt"]), n)
    x4 = x.astype(np.float32)
    a, b = Series(t4, x4), Series(t, x4.astype(float))
    # relative error of the step found on the single-precision axis
    e = 4.0 * float(np.spacing(np.float32(np.max(np.abs(t))))) / dt + 1e-6
    T = n * dt
    tol = 20 * e + 1e-4
    if tol > 0.02:
        return False, ["step below the resolution of the axis"]
    close(num(a.dt), dt, e, 0.0, "time step")
    A, B = a.get_spectrum_raw(k / T * 1.001), b.get_spectrum_raw(k / T * 1.001)
    close(vec(A.f, B.nf, "f"), B.f, e, 0.0, "frequencies of the raw spectrum")
    close(vec(A.sVarDens, B.nf, "S"), B.sVarDens, tol, tol * scale_of(B.sVarDens), "densities of the raw spectrum")
    if B.nf >= 3:
        # a finite upper limit within rounding of a bin would decide the number of points
        for m, kw in (("Hm0", {}), ("Tm01", {}), ("Tm02", {}), ("Tmm10", {}), ("Hm0", dict(fmax=np.inf)), ("Tp", {})):
            v, w = num(getattr(A, "get_" + m)(**kw), m), num(getattr(B, "get_" + m)(**kw), m)
            if m == "Tp":
                expect(abs(A.sVarDens[np.argmin(np.abs(A.f - 1 / v))] - np.max(A.sVarDens)) <= 2 * tol * np.max(A.sVarDens), f"Tp: {v!r} is not at the maximum")
            else:
                close(v, w, tol, 0.0, f"{m} {kw}")
    W, V = a.get_spectrum(dfDesired=k / T * 1.001), b.get_spectrum(dfDesired=k / T * 1.001)
    if W.nf == V.nf:
        close(vec(W.f, V.nf, "f"), V.f, e, 0.0, "frequencies of the Welch spectrum")
        close(vec(W.sVarDens, V.nf, "S"), V.sVarDens, tol, tol * scale_of(V.sVarDens), "densities of the Welch spectrum")
    lo, hi = (int(c["lo"] * n) + 0.45) / T, (n // 3 + 0.55) / T
    if 0.4 > e * n:
        F4, F8 = a.get_bandpassfilter(lo, hi), b.get_bandpassfilter(lo, hi)
        close(vec(F4.xTime, n, "filtered"), F8.xTime, 0.0, 1e-4 * scale_of(x), "band-filtered record")
    expect(a.nwave == b.nwave, f"{a.nwave} waves, {b.nwave} in double precision")
    close(vec(a.hwave, b.nwave, "heights"), b.hwave, 1e-5, 1e-5 * scale_of(x), "wave heights")
    close(vec(a.twave, b.nwave, "periods"), b.twave, 0.0, 4 * e * dt + 1e-5 * T + 1e-4 * dt, "wave periods")
    return a.nwave > 0, ["long" if n > 400 else "short"]


@st.composite
def _counts(draw):
    return dict(
        dtype=draw(st.sampled_from(["int8", "int16", "int16", "int32", "int64"])),
        share=draw(st.sampled_from([1.0, 1.0, 0.7, 0.1])),
        n=draw(sizes(16, 300, BIG)),
        dt=draw(st.sampled_from([0.5, 0.1, 1.0, 2.0])),
        salt=draw(salts()),
        axis=draw(st.booleans()),
    )


@sub("C32", _counts(), 1000)
def raw_counts(c):
    """Integers of the whole range of their type: nothing may overflow."""
    n = c["n"]
    r = np.random.Generator(np.random.PCG64(c["salt"] + 4))
    kind = np.dtype(c["dtype"])
    # whole numbers beyond 2**31 have squares beyond 2**63, of which int64 only needs the sums here
    m = int(min(np.iinfo(kind).max, 2**31 - 1) * c["share"])
    x = np.round(m * np.clip(build_signal(dict(kind="waves", salt=c["salt"]), n) / 3.0, -1, 1)).astype(kind)
    x[r.integers(0, n)], x[r.integers(0, n)] = m, -m
    t = np.arange(n) * c["dt"]
    if c["axis"] and n < np.iinfo(kind).max and c["dt"] >= 1.0 and n * c["dt"] < np.iinfo(kind).max:
        t = t.astype(kind)
    keep = x.copy()
    a, b = Series(t, x), Series(np.array(t, float), x.astype(float))
    single = 1e-4 if kind.itemsize <= 2 else 1e-11
    T = n * c["dt"]
    out = []
    for s in (a, b):
        o = [s.nwave, s.hwave, s.twave, s.tCross, s.max(), s.min(), np.array([s.max(), s.min(), s.mean()]), s.var(), np.array([1.0, s.get_skewness()])]
        o += [s.get_crossing("up"), s.get_crossing("down")]
        if s.nwave:
            o += [s.get_Hs(), s.get_Hrms(), s.get_Hmax(), s.get_H2p_Rayleigh(), s.highest_waves(0.5), s.get_exceedance_waveheight(20.0)]
        out.append(o)
    c21._same(*map(_arrays, out), 1e-11, f"waves of a record of {kind.name} counts")
    out = []
    for s in (a, b):
        raw, welch = s.get_spectrum_raw(1.5 / T), s.get_spectrum(dfDesired=4.0 / T)
        out.append([raw, welch, np.array([1.0, s.get_asymmetry()]), list(s.get_fourier_comp()), s.get_bandpassfilter(1.4 / T, (n // 3 + 0.4) / T)])
    c21._same(*map(_arrays, out), single, f"analysis of a record of {kind.name} counts")
    expect(np.array_equal(a.xTime, keep) and np.array_equal(x, keep), "the record was changed")
    # heights and spectra of counts
    h = np.unique(r.integers(1, max(m, 2), 60))[::-1].astype(kind)
    T4 = np.arange(1, len(h) + 1).astype(kind)
    out = []
    for dt in (kind, np.dtype(float)):
        w = WaveHeights(h.astype(dt), T4.astype(dt))
        out.append([w.get_Hs(), w.get_Hrms(), w.get_Hmax(), w.get_H2p_Rayleigh(), w.highest_waves(0.3), w.get_exceedance_waveheight(12.0)])
    c21._same(*map(_arrays, out), 1e-11, f"statistics of {kind.name} heights")
    _whole_spectra(r, kind, min(n, 100))
    return a.nwave > 0, [kind.name, "long" if n > 300 else "short"]


def _whole_spectra(r, k, nf):
    """Spectra and angular frequencies of whole numbers."""
    small = k
    k = k if k.kind == "i" and k.itemsize >= 4 else np.dtype(np.int32)
    f = np.arange(1, nf + 1).astype(k)
    S = r.integers(0, 120, nf).astype(k)
    out = []
    for dt, du in ((k, small), (np.dtype(float), np.dtype(float))):
        g, D = f.astype(dt), S.astype(dt)
        w = f.astype(du)
        s = Spectrum(g, D)
        o = [num(getattr(s, "get_" + p)(), p) for p in ("Hm0", "Tps", "Tp", "Tmm10", "Tm01", "Tm02", "s0p", "smm10")]
        o += [num(s.get_Hm0(fmin=2.5, fmax=nf - 3.5), "Hm0"), num(s.get_Tmm10(fmax=nf // 2 + 0.5), "Tmm10"), cw.tpd(g, D)]
        o += [list(cs.frequency_averaging(g, D, 3)), cw.compute_moment(g, D, 1), cw.compute_moment(g, D, -1)]
        o += [list(cs.compute_spectrum_freq_series(g, D.astype(complex), 2 * nf - 1, 4.0)), [cd.disper(w, h) for h in (3.0, np.inf, -3.0)]]
        out.append(o)
    c21._same(*map(_arrays, out), 1e-11, f"spectrum of {k.name} counts")


@st.composite
def _unsigned(draw):
    return dict(
        dtype=draw(st.sampled_from(["uint8", "uint8", "uint16", "uint32", "uint64", "int8", "int16"])),
        n=draw(ints(8, 100)),
        salt=draw(salts()),
        gauges=draw(ints(2, 5)),
    )


@sub("C32", _unsigned(), 500)
def unsigned_counts(c):
    """Angular frequencies, records, gauge positions and weights of whole numbers without a sign."""
    kind = np.dtype(c["dtype"])
    r = np.random.Generator(np.random.PCG64(c["salt"] + 4))
    n = c["n"]
    _whole_spectra(r, kind, n)
    t = np.arange(n)
    x = r.integers(0, 60, n)
    out = []
    for dt in (kind, np.dtype(float)):
        s = Series(t.astype(dt), x.astype(dt))
        out.append([s.max(), s.min(), s.mean(), s.var(), np.array([1.0, s.get_skewness()]), list(s.get_fourier_comp()), s.get_spectrum_raw(2.2 / n)])
    c21._same(*map(_arrays, out), 1e-4 if kind.itemsize <= 2 else 1e-11, f"analysis of a record of {kind.name} counts")
    g = c["gauges"]
    X = r.normal(size=(n, g))
    xl = np.cumsum(r.integers(1, 12, g))
    wt = np.ones(g, int)
    if g > 2:
        wt[r.integers(0, g)] = 0
    want = cz.decompose_linear_ZS(t * 1.0, X, 10.0, xl * 1.0, wt * 1.0)
    for name, args in (("positions", (xl.astype(kind), wt * 1.0)), ("weights", (xl * 1.0, wt.astype(kind))), ("positions and weights", (xl.astype(kind), wt.astype(kind)))):
        got = pair(cz.decompose_linear_ZS(t * 1.0, X, 10.0, *args), "decompose_linear_ZS")
        c21._same(_arrays(list(got)), _arrays(list(want)), 1e-9, f"decomposition with {kind.name} {name}")
    return True, [kind.name]
