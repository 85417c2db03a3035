from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import moment, nearest, simpson
from wtb.sut import Spectrum, core_wavefunctions as cw

info(
    "C09",
    "Spectra of 3..300 or up to 100003 bins starting at f = 0 or above; orders -2..5; limits absent, on bins, between"
    " bins, beyond the axis or infinite, one or both given. Non-trivial: a range of at least three bins with energy.",
    ["Limits are kept away from the middle between two bins (nearest bin is ambiguous there)."],
)

_off = st.one_of(st.just(0.0), floats(-0.45, 0.45), floats(-0.45, 0.45), logfloats(1e-6, 1e-2), logfloats(1e-6, 1e-2).map(lambda v: -v))


@st.composite
def limits(draw, a, tail=True, both=None):
    """(fmin, fmax) in bins relative to the start of the axis; None = not given."""
    n = a["n"]
    lo, hi = None, None
    if both or draw(ints(0, 3)):
        i = draw(ints(0, n - 2))
        lo = i + draw(_off)
        if lo < 0:
            lo = 0.0
    if both or draw(ints(0, 3)):
        k = draw(st.sampled_from(["in", "in", "beyond", "inf", "end"] if tail else ["in", "in", "end"]))
        start = 0 if lo is None else int(round(lo))
        if k == "in" and start + 1 <= n - 1:
            hi = min(draw(ints(start + 1, n - 1)) + draw(_off), float(n - 1))
        elif k == "end" or k == "in":
            hi = float(n - 1)
        elif k == "beyond":
            hi = n - 1 + draw(st.one_of(floats(0.2, 3.0 * n), logfloats(1e-5, 0.2)))
        else:
            hi = "inf"
    return lo, hi


def to_f(v, a):
    if v is None:
        return None
    if v == "inf":
        return float("inf")
    if float(v).is_integer() and v <= a["n"] - 1:
        return float(build_faxis(a)[int(v)])
    return a["f0"] + v * a["df"]


def kwargs(lo, hi):
    k = {}
    if lo is not None:
        k["fmin"] = lo
    if hi is not None:
        k["fmax"] = hi
    return k


@st.composite
def _cases(draw):
    s = draw(spectra(3, 300, GIANT))
    lo, hi = draw(limits(s["axis"]))
    m = draw(st.sampled_from([-2, -1, -1, 0, 0, 1, 2, 3, 4, 5]))
    return dict(s=s, lo=lo, hi=hi, m=m)


def _tol(f, S, m):
    # Simpson sums positive terms, except for the correction in the last interval
    with np.errstate(all="ignore"):
        y = np.abs(f[f > 0] ** float(m) * S[f > 0])
    return 1e-13 * float(np.sum(y)) * (f[1] - f[0])


@sub("C09", _cases(), 3000)
def integral(c):
    f, S = build_spectrum(c["s"])
    a = c["s"]["axis"]
    lo, hi = to_f(c["lo"], a), to_f(c["hi"], a)
    got = num(cw.compute_moment(f.copy(), S.copy(), c["m"], **kwargs(lo, hi)), "moment")
    want = moment(f, S, c["m"], lo, hi)
    close(got, want, 1e-9, _tol(f, S, c["m"]), f"moment of order {c['m']} from {lo} to {hi}")
    tail = hi is not None and hi > f[-1]
    i = 0 if lo is None else nearest(f, lo)
    j = len(f) - 1 if hi is None or tail else nearest(f, hi)
    return j - i >= 2 and want > 0, [
        f"m={c['m']}",
        "limits: " + ("none" if lo is None and hi is None else "both" if lo is not None and hi is not None else "one"),
        "tail" if tail else "no tail",
        "even number of points" if (j - i) % 2 else "odd number of points",
        "from f=0" if f[0] == 0 else "from f>0",
    ]


@st.composite
def _below(draw):
    s = draw(spectra(3, 200, BIG, zero=False))
    _, hi = draw(limits(s["axis"]))
    m = draw(st.sampled_from([-2, -1, -1, 0, 1, 2, 4]))
    return dict(s=s, lo=draw(st.one_of(st.just(0.0), floats(0.0, 1.0))), hi=hi, m=m)


@sub("C09", _below(), 1000)
def from_below_the_axis(c):
    """A lower limit below the first frequency, such as zero, is that of the whole axis."""
    f, S = build_spectrum(c["s"])
    lo, hi = c["lo"] * float(f[0]), to_f(c["hi"], c["s"]["axis"])
    got = num(cw.compute_moment(f.copy(), S.copy(), c["m"], **kwargs(lo, hi)), "moment")
    what = f"moment of order {c['m']} from {lo} to {hi}, axis from {f[0]}"
    close(got, moment(f, S, c["m"], None, hi), 1e-9, _tol(f, S, c["m"]), what)
    if c["m"] == -1 and moment(f, S, 0, None, hi) > 1e-10:
        s = Spectrum(f.copy(), S.copy())
        want = got / moment(f, S, 0, None, hi)
        close(num(s.get_Tmm10(**kwargs(lo, hi)), "Tmm10"), want, 1e-8, 0.0, "Tm-1,0, " + what)
        p = pair(cw.compute_spectrum_params(f.copy(), S.copy(), **kwargs(lo, hi)), "compute_spectrum_params", 6)
        close(num(p[3], "Tmm10"), want, 1e-8, 0.0, "compute_spectrum_params: Tm-1,0, " + what)
    return lo == 0.0, [f"m={c['m']}", "from zero" if lo == 0.0 else "from above zero"]


@st.composite
def _quad(draw):
    a = draw(faxes(4, 200, (1000, 2500)))
    lo, hi = draw(limits(a, tail=False))
    m = draw(st.sampled_from([0, 1, 2]))
    return dict(axis=a, lo=lo, hi=hi, m=m, p=draw(st.lists(floats(0.0, 5.0), min_size=3 - m, max_size=3 - m)))


@sub("C09", _quad(), 1500)
def exact_for_quadratics(c):
    """When f^m S is a polynomial of at most second degree the moment is its exact integral."""
    f = build_faxis(c["axis"])
    S = np.zeros(len(f))
    for k, v in enumerate(c["p"]):
        S = S + v * f**k
    lo, hi = to_f(c["lo"], c["axis"]), to_f(c["hi"], c["axis"])
    i = 0 if lo is None else nearest(f, lo)
    j = len(f) - 1 if hi is None else nearest(f, hi)
    if j - i < 2:
        return False, ["too few points"]
    got = num(cw.compute_moment(f, S, c["m"], **kwargs(lo, hi)), "moment")
    a, b = float(f[i]), float(f[j])
    want = sum(v * (b ** (k + c["m"] + 1) - a ** (k + c["m"] + 1)) / (k + c["m"] + 1) for k, v in enumerate(c["p"]))
    close(got, want, 1e-9, 1e-12 * abs(b ** (c["m"] + 1)) * sum(c["p"]), f"moment of order {c['m']} of a polynomial from {a} to {b}")
    return any(c["p"]), ["even number of points" if (j - i) % 2 else "odd number of points"]


@st.composite
def _tails(draw):
    s = draw(spectra(3, 100))
    m = draw(st.sampled_from([-2, -1, 0, 1, 2, 3, 4, 5]))
    return dict(s=s, m=m, r=draw(st.one_of(st.just("inf"), floats(1.01, 20.0)) if m < 4 else floats(1.01, 20.0)), lo=draw(st.one_of(st.none(), ints(0, s["axis"]["n"] - 2))))


@sub("C09", _tails(), 1000)
def high_frequency_tail(c):
    """The part beyond the axis is the integral of an f^-5 tail (by quadrature)."""
    from scipy.integrate import quad

    f, S = build_spectrum(c["s"])
    lo = None if c["lo"] is None else float(f[c["lo"]])
    fe = float(f[-1])
    hi = float("inf") if c["r"] == "inf" else c["r"] * fe
    inside = num(cw.compute_moment(f, S, c["m"], **kwargs(lo, fe)), "moment")
    total = num(cw.compute_moment(f, S, c["m"], **kwargs(lo, hi)), "moment with tail")
    q, _ = quad(lambda u: u ** (c["m"] - 5.0), 1.0, hi / fe)
    want = S[-1] * fe ** (c["m"] + 1.0) * q
    close(total - inside, want, 1e-6, 1e-12 * abs(total), f"tail of the moment of order {c['m']} from {fe} to {hi}")
    return S[-1] > 0, [f"m={c['m']}"]


@st.composite
def _lin(draw):
    a = draw(faxes(3, 200, (1000,)))
    lo, hi = draw(limits(a))
    return dict(axis=a, S=draw(densities(a["n"])), R=draw(densities(a["n"])), u=draw(logfloats(1e-3, 1e3)), lo=lo, hi=hi, m=draw(st.sampled_from([-1, 0, 1, 2])), cut=draw(ints(0, 10**6)))


@sub("C09", _lin(), 1000)
def linear_and_additive(c):
    """Linear in the density; ranges that meet in a bin, with an even number of steps each, add up."""
    f = build_faxis(c["axis"])
    n = len(f)
    S, R = build_density(c["S"], n), build_density(c["R"], n)
    lo, hi = to_f(c["lo"], c["axis"]), to_f(c["hi"], c["axis"])
    k = kwargs(lo, hi)
    m = c["m"]
    a, b = num(cw.compute_moment(f, S, m, **k)), num(cw.compute_moment(f, R, m, **k))
    ab = num(cw.compute_moment(f, c["u"] * S + R, m, **k))
    close(ab, c["u"] * a + b, 1e-9, _tol(f, c["u"] * S + R, m), "moment of a sum of spectra")
    z = num(cw.compute_moment(f, 0.0 * S, m, **k))
    expect(z == 0.0, f"moment {z!r} of a spectrum without energy")
    i0 = 1 if f[0] == 0 else 0
    if n - i0 >= 5:
        steps = (n - 1 - i0) // 2
        p = i0 + 2 * (1 + c["cut"] % (steps - 1)) if steps > 1 else i0 + 2
        e = i0 + 2 * steps
        if p < e:
            t = num(cw.compute_moment(f, S, m, f[i0], f[e]))
            u = num(cw.compute_moment(f, S, m, f[i0], f[p])) + num(cw.compute_moment(f, S, m, f[p], f[e]))
            close(u, t, 1e-9, _tol(f, S, m), "moments over two adjacent ranges and over both")
    expect(simpson(S, 1.0) >= -1e-9 * np.sum(S), "reference")
    return a != 0 and b != 0, []
