import math

from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import moment, nearest
from wtb.props.c09 import kwargs, limits, to_f
from wtb.sut import Spectrum, core_wavefunctions as cw

info(
    "C10",
    "Spectra and limits as in C09, with energy above (or, in a check of its own, below) the threshold of a virtually"
    " empty spectrum. Non-trivial: at least three bins with energy inside the limits.",
    ["The mean-period bounds are checked for Tm-1,0 only when the axis starts above f = 0: the moment of order -1 leaves"
     " the bin at zero out, so that both moments then use different Simpson weights.",
     "Wave heights within 0.1 % of the 1e-6 m threshold are not generated."],
)


@st.composite
def _cases(draw, tail=True):
    s = draw(spectra(4, 300, HUGE, kinds=("list", "noise", "peak", "const", "jonswap", "sparse")))
    a = s["axis"]
    for _ in range(5):
        lo, hi = draw(limits(a, tail=tail))
        i = 0 if lo is None else int(round(lo))
        j = a["n"] - 1 if hi is None or hi == "inf" else min(int(round(hi)), a["n"] - 1)
        if j - i >= 3:
            break
    else:
        lo, hi = None, None
    return dict(s=s, lo=lo, hi=hi)


def _reference(f, S, lo, hi):
    m_1, m0, m1, m2 = (moment(f, S, m, f[0] if lo is None else lo, f[-1] if hi is None else hi) for m in (-1, 0, 1, 2))
    return dict(Hm0=4 * math.sqrt(max(m0, 0.0)), Tmm10=m_1 / m0, Tm01=m0 / m1, Tm02=math.sqrt(m0 / m2))


def _usable(f, S, lo, hi):
    i = 0 if lo is None else nearest(f, lo)
    j = len(f) - 1 if hi is None or hi > f[-1] else nearest(f, hi)
    P = S[i : j + 1].copy()
    if f[i] == 0:
        P = P[1:]
    return P.size >= 3 and np.sum(P) * (f[1] - f[0]) > 1e-10 and np.sum(P) > 1e-9 * np.sum(S)


def _call(f, S, k):
    r = pair(cw.compute_spectrum_params(f, S, **k), "compute_spectrum_params", 6)
    return dict(zip(("Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02"), (num(v, n) for v, n in zip(r, ("Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02")))))


@sub("C10", _cases(), 2000)
def definitions(c):
    f, S = build_spectrum(c["s"])
    lo, hi = to_f(c["lo"], c["s"]["axis"]), to_f(c["hi"], c["s"]["axis"])
    if not _usable(f, S, lo, hi):
        return False, ["no energy in the range"]
    w = _reference(f, S, lo, hi)
    k = kwargs(lo, hi)
    p = _call(f.copy(), S.copy(), k)
    s = Spectrum(f.copy(), S.copy())
    for name in ("Hm0", "Tmm10", "Tm01", "Tm02"):
        close(p[name], w[name], 1e-8, 0.0, f"compute_spectrum_params: {name} from {lo} to {hi}")
        close(num(getattr(s, "get_" + name)(**k), name), w[name], 1e-8, 0.0, f"Spectrum.get_{name} from {lo} to {hi}")
    return True, [
        "limits: " + ("none" if lo is None and hi is None else "both" if lo is not None and hi is not None else "one"),
        "tail" if hi is not None and hi > f[-1] else "no tail",
    ]


@sub("C10", st.fixed_dictionaries(dict(c=_cases(), g=logfloats(1e-3, 1e3), a=logfloats(0.05, 20.0))), 1000)
def scaling(c):
    """Density times c; frequency axis times a at constant energy."""
    g, a, c = c["g"], c["a"], c["c"]
    f, S = build_spectrum(c["s"])
    lo, hi = to_f(c["lo"], c["s"]["axis"]), to_f(c["hi"], c["s"]["axis"])
    if not _usable(f, S, lo, hi) or not _usable(f, g * S, lo, hi):
        return False, ["no energy in the range"]
    p = _call(f, S, kwargs(lo, hi))
    q = _call(f, g * S, kwargs(lo, hi))
    close(q["Hm0"], math.sqrt(g) * p["Hm0"], 1e-9, 0.0, f"Hm0 of the density times {g}")
    for n in ("Tp", "Tmm10", "Tm01", "Tm02"):
        close(q[n], p[n], 1e-9, 0.0, f"{n} of the density times {g}")
    la = None if lo is None else lo * a
    ha = None if hi is None else hi * a
    if ha is not None and hi <= f[-1]:
        ha = min(ha, float((f * a)[-1]))
    r = _call(f * a, S / a, kwargs(la, ha))
    close(r["Hm0"], p["Hm0"], 1e-8, 0.0, f"Hm0 on the frequency axis times {a}")
    for n in ("Tmm10", "Tm01", "Tm02"):
        close(r[n], p[n] / a, 1e-8, 0.0, f"{n} on the frequency axis times {a}")
    return True, []


@sub("C10", _cases(), 1500)
def bounds(c):
    """Mean periods lie between the reciprocals of the limits of the range; Tm01 >= Tm02."""
    f, S = build_spectrum(c["s"])
    lo, hi = to_f(c["lo"], c["s"]["axis"]), to_f(c["hi"], c["s"]["axis"])
    if not _usable(f, S, lo, hi):
        return False, ["no energy in the range"]
    a = float(f[0 if lo is None else nearest(f, lo)])
    tail = hi is not None and hi > f[-1]
    b = hi if tail else float(f[-1] if hi is None else f[nearest(f, hi)])
    k = kwargs(lo, hi)
    p = _call(f, S, k)
    s = Spectrum(f, S)
    q = {n: num(getattr(s, "get_" + n)(**k)) for n in ("Tmm10", "Tm01", "Tm02")}
    for src in (p, q):
        for n in ("Tmm10", "Tm01", "Tm02"):
            if n == "Tmm10" and f[0] == 0:
                continue
            expect(src[n] >= (0.0 if math.isinf(b) else 1.0 / b) * (1 - 1e-9), f"{n} {src[n]!r} is below 1/fmax, fmax {b!r}")
            if a > 0:
                expect(src[n] <= 1.0 / a * (1 + 1e-9), f"{n} {src[n]!r} is above 1/fmin, fmin {a!r}")
        expect(src["Tm01"] >= src["Tm02"] * (1 - 1e-9), f"Tm01 {src['Tm01']!r} below Tm02 {src['Tm02']!r}")
        if f[0] > 0:
            expect(src["Tmm10"] >= src["Tm01"] * (1 - 1e-9), f"Tm-1,0 {src['Tmm10']!r} below Tm01 {src['Tm01']!r}")
    return True, []


@sub("C10", st.fixed_dictionaries(dict(s=spectra(4, 100, scales=False, kinds=("noise", "peak", "const", "jonswap")), h=logfloats(1e-9, 1e-3))), 600)
def virtually_empty(c):
    """Below 1e-6 m all parameters are NaN, above it none is."""
    f, S = build_spectrum(c["s"])
    m0 = moment(f, S, 0)
    h = c["h"]
    if abs(h / 1e-6 - 1) < 1e-3 or not m0 > 0:
        return False, []
    S = S * (h / 4) ** 2 / m0
    p = _call(f, S, {})
    if h < 1e-6:
        expect(all(math.isnan(v) for v in p.values()), f"Hm0 {h!r}: {p}")
    else:
        expect(not any(math.isnan(v) for v in p.values()), f"Hm0 {h!r}: {p}")
        close(p["Hm0"], h, 1e-8, 0.0, "Hm0")
    z = _call(f, 0.0 * S, {})
    expect(all(math.isnan(v) for v in z.values()), f"spectrum without energy: {z}")
    return True, ["below" if h < 1e-6 else "above"]


@sub("C10", st.fixed_dictionaries(dict(tp=floats(2.0, 20.0), h=logfloats(0.01, 20.0))), 60, 600)
def pierson_moskowitz(c):
    """Mean periods of a Pierson-Moskowitz spectrum on a fine axis follow from its analytic moments."""
    fp = 1.0 / c["tp"]
    f = np.arange(0, 6001) * (12.0 * fp / 6000)
    S = np.zeros(len(f))
    S[1:] = f[1:] ** -5.0 * np.exp(-1.25 * (f[1:] / fp) ** -4.0)
    S *= (c["h"] / 4) ** 2 / (fp**-4.0 / 5.0)
    p = _call(f, S, dict(fmin=0.0, fmax=float("inf")))
    close(p["Hm0"], c["h"], 1e-5, 0.0, "Hm0")
    close(p["Tmm10"] / c["tp"], 1.25**-0.25 * math.gamma(1.25), 1e-5, 0.0, "Tm-1,0 / Tp")
    close(p["Tm01"] / c["tp"], 1.25**-0.25 / math.gamma(0.75), 1e-5, 0.0, "Tm01 / Tp")
    close(p["Tm02"] / c["tp"], (1.25 * math.pi) ** -0.25, 1e-5, 0.0, "Tm02 / Tp")
    close(p["Tp"], c["tp"], 2e-3, 0.0, "Tp")
    close(p["Tps"], c["tp"], 1e-4, 0.0, "Tps")
    return True, []
