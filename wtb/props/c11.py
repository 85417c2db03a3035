from fractions import Fraction

from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.props.c09 import kwargs
from wtb.sut import Spectrum, core_wavefunctions as cw

info(
    "C11",
    "Spectra of 1..120 bins (Tps) or 3..300 (with limits), of distinct values, of small integers with many ties, with"
    " the peak placed at each end or inside; limits on bins and between bins. Non-trivial: a maximum above 1e-10.",
    ["A maximum in the bin at f = 0 is not generated (its period is infinite).",
     "The vertex of a nearly flat parabola is compared with a tolerance that follows from the rounding of the"
     " quadratic fit; cases with a tolerance above 5 % of a bin only check the bounds."],
)


def _tps_options(f, S):
    """Acceptable frequencies of Tps with their tolerance."""
    n = len(f)
    df = (f[-1] - f[0]) / (n - 1) if n > 1 else 1.0
    top = np.max(S)
    im = [int(i) for i in np.nonzero(S == top)[0]]
    if n == 1:
        return [(f[0], 0.0)]
    if n == 2:
        return [(f[im[0]], 0.0)] if len(im) == 1 else [((f[0] + f[1]) / 2, 1e-9 * df)]
    if len(im) == 2 and im[1] - im[0] == 1:
        i = im[0]
        j = 1 if i == 0 else n - 2 if im[1] == n - 1 else i
        e = [float(v) for v in S[j - 1 : j + 2]]
        return [((f[i] + f[i + 1]) / 2, _vtol(f, e, df))]
    if len(im) >= 2:
        return [(f[i], 0.0) for i in im]
    i = im[0]
    j = min(max(i, 1), n - 2)
    e = [float(v) for v in S[j - 1 : j + 2]]
    F = [Fraction(v) for v in e]
    curv = F[0] - 2 * F[1] + F[2]
    tol = _vtol(f, e, df)
    if curv >= 0:
        out = [(f[i], 0.0)]
        if curv == 0 or tol > 0.05 * df:
            out.append((f[i], df))
        return out
    u = float((F[0] - F[2]) / (2 * curv))  # top of the parabola, in bins from the middle point
    opts = []
    if abs(u) <= 1 + tol / df:
        opts.append((f[j] + u * df, tol))
    if abs(u) >= 1 - tol / df:
        opts.append((f[i], 1e-9 * df))
    return opts


def _vtol(f, e, df):
    curv = abs(e[0] - 2 * e[1] + e[2])
    if curv == 0:
        return df
    cond = (1.0 + f[-1] / df) ** 2 * max(e) / curv
    return df * min(1.0, 1e-10 + 2e-14 * cond)


def _check_tps(got, f, S, what):
    T = num(got, what)
    if np.max(S) < 1e-10:
        expect(T == -999, f"{what}: {T!r} for a spectrum with maximum {np.max(S)!r}")
        return
    expect(T > 0 and np.isfinite(T), f"{what}: {T!r}")
    df = (f[-1] - f[0]) / (len(f) - 1) if len(f) > 1 else 0.0
    expect(f[0] - 1e-6 * df - 1e-12 - 1e-9 * abs(f[0]) <= 1 / T <= f[-1] + 1e-6 * df + 1e-9 * f[-1], f"{what}: frequency {1 / T!r} outside the axis {f[0]!r}..{f[-1]!r}")
    opts = _tps_options(f, S)
    expect(
        any(abs(1 / T - v) <= tol + 1e-11 * v for v, tol in opts),
        lambda: f"{what}: frequency {1 / T!r}, expected one of {opts} (frequency, tolerance)",
    )


@st.composite
def _tps_cases(draw, lo=1):
    n = draw(st.one_of(ints(lo, 8), ints(lo, 30), ints(lo, 120)))
    df = draw(dfs())
    f0 = draw(st.one_of(st.just(0.0), st.just(1.0), floats(0.05, 20.0)))
    a = dict(n=n, df=df, f0=f0 * df)
    kind = draw(st.sampled_from(["distinct", "ties", "peak", "pair", "triple", "tiny", "close"]))
    c = dict(axis=a, kind=kind)
    if kind == "ties":
        c["v"] = draw(st.lists(st.integers(0, 3).map(float), min_size=n, max_size=n))
    else:
        c["salt"] = draw(salts())
    c["at"] = draw(st.one_of(st.just(0), st.just(n - 1), st.just(max(0, n - 2)), st.just(min(1, n - 1)), ints(0, n - 1)))
    if kind == "close":
        c["e"] = draw(ints(4, 12))
        c["second"] = draw(ints(1, max(1, n - 1)))
    c["scale"] = draw(st.one_of(st.just(1.0), logfloats(1e-6, 1e5), logfloats(2e-9, 1e-5)))
    return c


def _build(c):
    f = build_faxis(c["axis"])
    n = len(f)
    k = c["kind"]
    if k == "ties":
        S = np.array(c["v"])
    else:
        r = np.random.Generator(np.random.PCG64(c["salt"]))
        S = r.uniform(0.0, 1.0, n)
        if k == "peak":
            S = S + 3.0 * np.exp(-(((np.arange(n) - c["at"]) / 2.0) ** 2)) + (np.arange(n) == c["at"])
        elif k == "pair":
            S[c["at"]] = 1.5
            S[(c["at"] + 1) % n] = 1.5
        elif k == "triple":
            for d in (0, 1, 3):
                S[(c["at"] + d) % n] = 1.5
        elif k == "close":
            # a second peak that is a little lower than the first
            S[(c["at"] + c["second"]) % n] = 1.5 * (1.0 - 10.0 ** -c["e"])
            S[c["at"]] = 1.5
        elif k == "tiny":
            S = S * 1e-11
    S = S * (c["scale"] if k != "tiny" else 1.0)
    if f[0] == 0:
        S[0] = 0.0
        if n == 1 or (np.max(S) == 0 and k != "tiny"):
            if n == 1:
                f = f + c["axis"]["df"]
                S[0] = 1.0
            else:
                S[-1] = 1.0
    return f, S


@sub("C11", _tps_cases(), 3000)
def smoothed_peak_period(c):
    f, S = _build(c)
    if 0 < np.max(S) < 1e-9 and c["kind"] != "tiny":
        return False, []
    _check_tps(cw.compute_tps(f.copy(), S.copy()), f, S, "compute_tps")
    i = int(np.argmax(S))
    m = int(np.sum(S == np.max(S)))
    return np.max(S) > 1e-10, [
        "maxima: " + str(min(m, 3)),
        "at the start" if i == 0 else "at the end" if i == len(f) - 1 else "inside",
        "bins: " + str(min(len(f), 3)),
    ]


@st.composite
def _limit_cases(draw):
    c = draw(_tps_cases(lo=3))
    n = c["axis"]["n"]
    i = draw(ints(0, n - 1))
    j = draw(ints(i, n - 1))
    off = st.sampled_from([0.0, 0.0, 0.3, 0.45])
    lo = i - draw(off)  # bins i..j lie inside the limits
    hi = j + draw(off)
    c["lo"] = draw(st.one_of(st.just(lo), st.just(lo), st.none()))
    c["hi"] = draw(st.one_of(st.just(hi), st.just(hi), st.none(), st.just("inf")))
    return c


def _limits(c, f):
    df = c["axis"]["df"]

    def conv(v):
        if v is None:
            return None
        if v == "inf":
            return float("inf")
        if float(v).is_integer() and 0 <= v < len(f):
            return float(f[int(v)])
        return float(f[0] + v * df)

    lo, hi = conv(c["lo"]), conv(c["hi"])
    if lo is not None and lo < 0:
        lo = float(f[0])
    return lo, hi


@sub("C11", _limit_cases(), 2500)
def with_limits(c):
    """Tp and Tps of the Spectrum object and of the parameter function for the bins inside limits."""
    f, S = _build(c)
    if c["kind"] == "tiny":
        return False, []
    lo, hi = _limits(c, f)
    inside = (f >= (f[0] if lo is None else lo)) & (f <= (f[-1] if hi is None else hi))
    fi, Si = f[inside], S[inside]
    if len(fi) == 0 or (fi[0] == 0 and (len(fi) < 2 or np.max(Si) == 0)) or 0 < np.max(Si) < 1e-9:
        return False, []
    k = kwargs(lo, hi)
    s = Spectrum(f.copy(), S.copy())
    what = f"from {lo} to {hi}"
    _check_tps(s.get_Tps(**k), fi, Si, "Spectrum.get_Tps " + what)
    best = fi[Si == np.max(Si)]

    def check_tp(v, w):
        T = num(v, w)
        expect(T > 0 and np.min(np.abs(best * T - 1)) <= 1e-11, f"{w}: {T!r}, the density is maximal at {1 / best}")

    if np.max(Si) > 0:
        check_tp(s.get_Tp(**k), "Spectrum.get_Tp " + what)
    r = pair(cw.compute_spectrum_params(f.copy(), S.copy(), **k), "compute_spectrum_params", 6)
    if np.isfinite(num(r[0])) and np.max(Si) > 0:
        check_tp(r[1], "compute_spectrum_params Tp " + what)
        _check_tps(r[2], fi, Si, "compute_spectrum_params Tps " + what)
        a, b = num(s.get_Tps(**k)), num(r[2])
        expect(abs(a - b) <= 1e-12 * abs(a), f"Tps {a!r} of the object and {b!r} of the function, {what}")
        a, b = num(s.get_Tp(**k)), num(r[1])
        expect(abs(a - b) <= 1e-12 * abs(a), f"Tp {a!r} of the object and {b!r} of the function, {what}")
        a, b = num(s.get_Tps(**k)), num(cw.compute_tps(fi, Si))
        expect(abs(a - b) <= 1e-12 * abs(a), f"Tps {a!r} of the object and {b!r} of compute_tps on the part inside, {what}")
    whole = S[f > 0]
    return np.max(Si) > 1e-10, ["maximum outside the limits" if len(whole) and np.max(whole) > np.max(Si) else "maximum inside the limits"]


@sub("C11", st.fixed_dictionaries(dict(n=ints(5, 200), df=logfloats(1e-3, 0.1), k=ints(0, 10**6), u=floats(-0.49, 0.49), h=logfloats(1e-3, 1e3), w=floats(0.6, 3.0))), 1000)
def parabolic_peak(c):
    """For a spectrum that is a parabola around its top, Tps is the reciprocal of the frequency of that top."""
    n, df = c["n"], c["df"]
    i = 2 + c["k"] % (n - 4)
    f = np.arange(1, n + 1) * df
    u = np.arange(n) - (i + c["u"])
    S = np.where(np.abs(u) < 2, np.maximum(c["h"] * (1 - 0.1 * c["w"] * u**2), 0.0), 0.0)
    want = f[0] + (i + c["u"]) * df
    T = num(cw.compute_tps(f, S))
    close(1 / T, want, 0.0, df * (1e-8 + 1e-13 * (n + 1.0) ** 2), "frequency of Tps")
    s = Spectrum(f, S)
    close(1 / num(s.get_Tps()), want, 0.0, df * (1e-8 + 1e-13 * (n + 1.0) ** 2), "frequency of Spectrum.get_Tps")
    close(1 / num(s.get_Tp()), f[i], 1e-12, 0.0, "frequency of Spectrum.get_Tp")
    return c["u"] != 0, []
