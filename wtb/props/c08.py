import math
import os
import shutil
import tempfile
import warnings

from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import fraction_counts, percentage_counts
from wtb.props.c07 import build_waves, waves
from wtb.sut import Series, WaveHeights, plt

info(
    "C08",
    "Histories of 1..14 method calls with arguments on one WaveHeights or Series object; after every call the result"
    " is compared with the same call on a newly made object, and with the definition. Non-trivial: at least three"
    " calls and two waves (WaveHeights) or a non-constant record (Series).",
    ["Where several waves have the height at the cut, any of their periods may enter the mean period.",
     "Plots are called with the object's own defaults here; what they draw is checked by C24."],
)

_stat_ops = st.one_of(
    st.just(["sort"]),
    st.just(["Hrms"]),
    st.just(["Hmax"]),
    st.just(["Hs"]),
    st.just(["H2p"]),
    st.sampled_from([0.0, 1.0, 1.0 / 3.0, 0.1, 0.5, 0.02]).map(lambda p: ["frac", p]),
    floats(0.0, 1.0).map(lambda p: ["frac", p]),
    st.sampled_from([0.0, 2.0, 10.0, 50.0, 100.0]).map(lambda p: ["exc", p]),
    floats(0.0, 100.0).map(lambda p: ["exc", p]),
    st.sampled_from([["str"], ["repr"]]),
)
_plot_ops = st.sampled_from(["plot_exc", "plot_ray", "plot_ray_norm", "plot_ray_bg", "plot_hist", "plot_ray_err"]).map(lambda k: [k])


def _stat(o, op):
    k = op[0]
    if k == "sort":
        return o.sort()
    if k == "Hrms":
        return o.get_Hrms()
    if k == "Hmax":
        return o.get_Hmax()
    if k == "Hs":
        return o.get_Hs()
    if k == "H2p":
        return o.get_H2p_Rayleigh()
    if k == "frac":
        return o.highest_waves(op[1])
    if k == "exc":
        return o.get_exceedance_waveheight(op[1])
    if k == "str":
        return str(o)
    if k == "repr":
        return repr(o)
    try:
        if k == "plot_exc":
            o.plot_exceedance_waveheight()
        elif k == "plot_ray":
            o.plot_exceedance_waveheight_Rayleigh()
        elif k == "plot_ray_norm":
            o.plot_exceedance_waveheight_Rayleigh(normalize=True)
        elif k == "plot_ray_bg":
            o.plot_exceedance_waveheight_Rayleigh(plot_BG=True, water_depth=1.0, hm0=1.0)
        elif k == "plot_hist":
            o.plot_hist_waveheight()
        elif k == "plot_ray_err":
            try:
                o.plot_exceedance_waveheight_Rayleigh(plot_BG=True, water_depth=1.0)
            except ValueError:
                pass
    finally:
        plt.close("all")
    return None


def _definition(h, T, op, got, what):
    """Compares a statistic with its definition on the set of waves."""
    n = len(h)
    hs = np.sort(h)[::-1]
    k = op[0]
    if k == "Hrms":
        close(num(got, what), math.sqrt(math.fsum(v * v for v in h) / n), 1e-12, 0.0, what)
    elif k == "Hmax":
        close(num(got, what), float(max(h)), 0.0, 0.0, what)
    elif k in ("Hs", "frac"):
        p = 1.0 / 3.0 if k == "Hs" else op[1]
        H, P = pair(got, what)
        H, P = num(H, what + " height"), num(P, what + " period")
        (m,) = fraction_counts(n, p)
        if m == 0:
            expect(H == 0.0 and P == 0.0, f"{what}: ({H!r}, {P!r}) without selected waves")
            return
        close(H, float(np.sum(hs[:m]) / m), 1e-11, 0.0, what + " height")
        cut = hs[m - 1]
        sure = [t for a, t in zip(h, T) if a > cut]
        tied = sorted(t for a, t in zip(h, T) if a == cut)
        r = m - len(sure)
        lo = (math.fsum(sure) + math.fsum(tied[:r])) / m
        hi = (math.fsum(sure) + math.fsum(tied[len(tied) - r :])) / m
        expect(lo * (1 - 1e-11) <= P <= hi * (1 + 1e-11), f"{what} period {P!r}, expected between {lo!r} and {hi!r}")
    elif k == "H2p":
        (m,) = fraction_counts(n, 1.0 / 3.0)
        hsig = float(np.sum(hs[:m]) / m) if m else 0.0
        close(num(got, what), hsig * math.sqrt(-math.log(0.02) / 2.0), 1e-11, 0.0, what)
    elif k == "exc":
        H = num(got, what)
        opts = [float(hs[m - 1]) if m > 0 else 0.0 for m in percentage_counts(n, op[1])]
        expect(H in opts, f"{what}: {H!r}, expected {opts}")


def _invariant(o, h, T, what):
    gh = vec(o.hwave, len(h), what + ": hwave")
    gT = vec(o.twave, len(h), what + ": twave")
    expect(num(o.nwave) == len(h), f"{what}: nwave {o.nwave!r} for {len(h)} waves")
    got = sorted(zip(gh.tolist(), gT.tolist()))
    want = sorted(zip(h.tolist(), T.tolist()))
    expect(got == want, f"{what}: the set of waves changed")


@st.composite
def _wh_cases(draw):
    return dict(
        w=draw(waves(1, 60, (300, 2500, 12000))),
        ops=draw(st.lists(_stat_ops, min_size=1, max_size=14)),
        order=draw(st.sampled_from(["as is", "descending", "ascending"])),
    )


def _order(c):
    h, T = build_waves(c["w"])
    if c["order"] != "as is":
        i = np.argsort(h, kind="stable")
        i = i[::-1] if c["order"] == "descending" else i
        h, T = h[i], T[i]
    return h, T


def _history_of_statistics(c):
    h, T = _order(c)
    o = WaveHeights(h.copy(), T.copy())
    tied = len(set(h.tolist())) < len(h)
    for j, op in enumerate(c["ops"]):
        what = f"call {j} {op}"
        got = _stat(o, op)
        fresh = _stat(WaveHeights(h.copy(), T.copy()), op)
        if op[0] in ("str", "repr"):
            expect(got == fresh, f"{what}: {got!r}, on a new object {fresh!r}")
        elif op[0] in ("sort",) or op[0].startswith("plot"):
            pass
        else:
            if not (tied and op[0] in ("Hs", "frac")):
                close(np.asarray(got, float), np.asarray(fresh, float), 1e-12, 0.0, what + ": after the earlier calls and on a new object")
            _definition(h, T, op, got, what)
        _invariant(o, h, T, what)
        if op[0] == "sort":
            expect(np.all(np.diff(o.hwave) <= 0), what + ": heights not in descending order")
    return len(c["ops"]) >= 3 and len(h) >= 2, [c["order"], "ties" if tied else "no ties"]


@sub("C08", _wh_cases(), 1500)
def wave_heights(c):
    return _history_of_statistics(c)


@st.composite
def _wh_plot_cases(draw):
    return dict(
        w=draw(waves(4, 30, ())),
        ops=draw(st.lists(st.one_of(_stat_ops, _plot_ops), min_size=2, max_size=5)),
        order=draw(st.sampled_from(["as is", "ascending"])),
    )


@sub("C08", _wh_plot_cases(), 100, 1500)
def wave_heights_with_plots(c):
    return _history_of_statistics(c)


@sub("C08", st.fixed_dictionaries(dict(w=waves(1, 60, (300, 2500, 12000)), salt=salts(), op=_stat_ops)), 1000)
def order_of_waves(c):
    """The statistics are those of the set of waves, in whatever order they are given."""
    h, T = build_waves(c["w"])
    n = len(h)
    i = np.random.Generator(np.random.PCG64(c["salt"])).permutation(n)
    a, b = WaveHeights(h.copy(), T.copy()), WaveHeights(h[i], T[i])
    ra, rb = _stat(a, c["op"]), _stat(b, c["op"])
    k = c["op"][0]
    if k in ("str", "repr"):
        expect(ra == rb, f"{ra!r} and {rb!r}")
        return n > 1, []
    if k == "sort":
        close(a.hwave, b.hwave, 0.0, 0.0, "sorted heights")
        return n > 1, []
    for r in (ra, rb):
        _definition(h, T, c["op"], r, str(c["op"]))
    if len(set(h.tolist())) == n:
        close(np.asarray(ra, float), np.asarray(rb, float), 1e-12, 0.0, f"{c['op']} for the waves in another order")
    return n > 1, [k]


_empty_ops = st.lists(
    st.one_of(
        st.just(["sort"]),
        st.just(["Hs"]),
        st.just(["H2p"]),
        floats(0.0, 1.0).map(lambda p: ["frac", p]),
        floats(0.0, 100.0).map(lambda p: ["exc", p]),
        st.sampled_from([["str"], ["repr"]]),
    ),
    min_size=1,
    max_size=8,
)


@sub("C08", st.fixed_dictionaries(dict(kind=st.sampled_from(["none", "positive", "negative", "zero", "one", "one up"]), n=sizes(2, 60), salt=salts(), ops=_empty_ops)), 500)
def without_waves(c):
    """A record without waves yields zero, not an error."""
    n = c["n"]
    x = np.abs(cnoise(c["salt"], n)) + 0.1
    if c["kind"] == "none":
        o = WaveHeights(np.array([]), np.array([]))
    else:
        if c["kind"] == "negative":
            x = -x
        elif c["kind"] == "zero":
            x = 0 * x
        elif c["kind"] == "one":
            x[n // 2 :] *= -1
        elif c["kind"] == "one up":
            x[: n // 2] *= -1
        o = Series(np.arange(n) * 0.5, x)
    for j, op in enumerate(c["ops"]):
        got = _stat(o, op)
        what = f"{c['kind']}: call {j} {op}"
        if op[0] in ("Hs", "frac"):
            H, P = pair(got, what)
            expect(num(H) == 0.0 and num(P) == 0.0, f"{what}: {got!r}")
        elif op[0] in ("H2p", "exc"):
            expect(num(got, what) == 0.0, f"{what}: {got!r}")
        expect(num(o.nwave) == 0 and len(o.hwave) == 0 and len(o.twave) == 0, f"{what}: {o.nwave!r} waves")
    return len(c["ops"]) > 1, [c["kind"]]


# ---------------------------------------------------------------- Series

_series_ops = st.one_of(
    _stat_ops,
    _stat_ops,
    st.sampled_from([["max"], ["min"], ["mean"], ["var"], ["skew"], ["asym"], ["fourier"]]),
    st.sampled_from(["down", "up", "UP", "Down"]).map(lambda k: ["cross", k]),
    floats(0.5, 6.0).map(lambda k: ["raw", k]),
    st.tuples(floats(0.1, 0.45), floats(0.5, 0.95)).map(lambda p: ["band", p[0], p[1]]),
    floats(2.0, 20.0).map(lambda k: ["welch", k]),
    st.tuples(ints(4, 40), ints(0, 3)).map(lambda p: ["welchseg", p[0], p[1]]),
    st.just(["again"]),
)
_series_plot_ops = st.one_of(
    _plot_ops, st.sampled_from([["plot"], ["plot_cross"]]), st.sampled_from(["plotfile"]).map(lambda k: [k])
)


def _spec(s):
    return [np.array(s.f, float), np.array(s.sVarDens, float)]


def _series_call(o, op, dirname=None):
    """Result of a call as list of arrays/numbers."""
    k = op[0]
    if k in ("max", "min", "mean", "var"):
        return [getattr(o, k)()]
    if k == "skew":
        return [o.get_skewness()]
    if k == "asym":
        return [o.get_asymmetry()]
    if k == "fourier":
        f, X, odd = o.get_fourier_comp()
        return [f, X, bool(odd)]
    if k == "cross":
        n, t = o.get_crossing(op[1])
        return [n, np.ravel(t)]
    T = o.nt * o.dt
    if k == "raw":
        return _spec(o.get_spectrum_raw(op[1] / T))
    if k == "band":
        z = o.get_bandpassfilter(op[1] * 0.5 / o.dt, op[2] * 0.5 / o.dt)
        return [z.time, z.xTime, z.hwave, z.twave]
    if k == "welch":
        return _spec(o.get_spectrum(dfDesired=min(op[1], o.nt / 3.0) / T))
    if k == "welchseg":
        return _spec(o.get_spectrum(nperseg=op[1], noverlap=op[2], use_dfDesired=False))
    if k == "again":
        z = Series(o.time, o.xTime)
        return [np.sort(z.hwave)]
    try:
        if k == "plot":
            o.plot()
        elif k == "plot_cross":
            o.plot(plot_crossing=True)
        elif k == "plotfile":
            o.plot(savepath=os.path.join(dirname, "p.png"))
    finally:
        plt.close("all")
    return []


@st.composite
def _series_cases(draw, plots=False):
    r = draw(records(24, 200, (1000,), kinds=("sines", "noise", "waves", "waves")))
    o = st.one_of(_series_ops, _series_plot_ops) if plots else _series_ops
    return dict(r=r, ops=draw(st.lists(o, min_size=2, max_size=5 if plots else 12)))


def _series_history(c):
    t, x = build_record(c["r"])
    h = Series(t.copy(), x.copy())
    h0, T0 = np.array(h.hwave, float), np.array(h.twave, float)
    o = Series(t.copy(), x.copy())
    dt0, nt0 = float(o.dt), int(o.nt)
    d = tempfile.mkdtemp(prefix="wtb-c08-")
    try:
        for j, op in enumerate(c["ops"]):
            what = f"call {j} {op}"
            stat = op[0] in ("sort", "Hrms", "Hmax", "Hs", "H2p", "frac", "exc", "str", "repr") or op[0].startswith("plot_")
            stat = stat and op[0] != "plot_cross"
            if stat:
                if len(h0) == 0 and (op[0] in ("Hrms", "Hmax") or op[0].startswith("plot")):
                    continue
                if op[0].startswith("plot") and len(h0) < 4:
                    continue
                got = _stat(o, op)
                if op[0] not in ("str", "repr", "sort") and not op[0].startswith("plot") and len(h0):
                    _definition(h0, T0, op, got, what)
                    fresh = _stat(Series(t.copy(), x.copy()), op)
                    if not (len(set(h0.tolist())) < len(h0) and op[0] in ("Hs", "frac")):
                        close(np.asarray(got, float), np.asarray(fresh, float), 1e-12, 0.0, what + ": after the earlier calls and on a new object")
                elif op[0] in ("str", "repr"):
                    fresh = _stat(Series(t.copy(), x.copy()), op)
                    expect(got == fresh, f"{what}: {got!r}, on a new object {fresh!r}")
            else:
                got = _series_call(o, op, d)
                fresh = _series_call(Series(t.copy(), x.copy()), op, d)
                expect(len(got) == len(fresh), what)
                for g, w in zip(got, fresh):
                    g, w = np.asarray(g), np.asarray(w)
                    expect(g.shape == w.shape, f"{what}: shape {g.shape}, on a new object {w.shape}")
                    top = float(np.max(np.abs(w))) if w.size and w.dtype.kind in "fc" and np.all(np.isfinite(w)) else 0.0
                    close(g, w, 1e-12, 1e-13 * top, what + ": after the earlier calls and on a new object")
            _invariant(o, h0, T0, what)
            close(vec(o.time, len(t), what + ": time"), t, 0.0, 0.0, what + ": stored time axis")
            close(vec(o.xTime, len(t), what + ": xTime"), x, 0.0, 0.0, what + ": stored record")
            expect(float(o.dt) == dt0 and int(o.nt) == nt0, f"{what}: dt {o.dt!r}, nt {o.nt!r}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
        plt.close("all")
    return len(c["ops"]) >= 3 and bool(np.ptp(x) > 0), ["waves" if len(h0) > 1 else "hardly any waves"]


@sub("C08", _series_cases(), 1000)
def series(c):
    return _series_history(c)


@sub("C08", _series_cases(True), 100, 1500)
def series_with_plots(c):
    return _series_history(c)
