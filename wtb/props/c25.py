import math
import warnings

from hypothesis import strategies as st

from wtb.core import close, expect, info, num, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import moment, nearest
from wtb.props.c09 import limits, to_f
from wtb.props.c11 import _tps_options
from wtb.sut import Spectrum

info(
    "C25",
    "Spectra of 6..300 or up to 4999 bins (from f = 0 or above), limits absent, inside, beyond the axis or infinite, one"
    " or both given, gravities 1.6..25 or the default; cutoffs given or left to their default. Every value is compared"
    " with the definition evaluated by reference formulas. Non-trivial: at least three bins with energy in the range.",
    ["Default cutoffs 0.45/Tm-1,0 that fall within 1e-6 of the middle between two bins"
     " are not judged.",
     "Ranges over which the Simpson integral of the density is below 1e-3 of the sum over its bins are not judged."],
)


def _stats(f, S, lo, hi):
    """(Hm0, Tm-1,0) over a range, or None when it holds too little energy to be judged."""
    lo = f[0] if lo is None else lo
    hi = f[-1] if hi is None else hi
    i, j = nearest(f, lo), len(f) - 1 if hi > f[-1] else nearest(f, hi)
    if j <= i:
        return None
    P = S[i : j + 1].copy()
    if f[i] == 0:
        P = P[1:]
    tot = float(np.sum(P)) * (f[1] - f[0])
    m0, m_1 = moment(f, S, 0, lo, hi), moment(f, S, -1, lo, hi)
    if not (tot > 1e-10 and tot > 1e-9 * np.sum(S) * (f[1] - f[0]) and m0 > 1e-3 * tot and m_1 > 0):
        return None
    return 4 * math.sqrt(m0), m_1 / m0


def _ambiguous(f, v):
    """v lies (nearly) halfway between two bins."""
    if v >= f[-1] or v <= f[0]:
        return abs(v - f[-1]) < 1e-6 * (f[1] - f[0])
    r = (v - f[0]) / (f[1] - f[0])
    return abs(r - math.floor(r) - 0.5) < 1e-6


_before = st.one_of(
    st.just([]), st.lists(st.sampled_from(["Hm0", "Tps", "Tmm10", "Hm0_HF", "Tmm10_HF", "Tmm10_LF", "Tm01"]), max_size=4)
)


@st.composite
def _cases(draw):
    s = draw(spectra(6, 300, HUGE, kinds=("noise", "peak", "const", "jonswap", "sparse", "list")))
    if draw(ints(0, 2)) == 0:
        lo, hi = None, None
    else:
        lo, hi = draw(limits(s["axis"]))
    return dict(s=s, lo=lo, hi=hi, g=draw(st.one_of(st.none(), st.sampled_from([9.8, 1.62, 24.79]), floats(1.6, 25.0))), before=draw(_before))


def _prepare(c):
    f, S = build_spectrum(c["s"])
    if f[0] == 0:
        S[0] = 0.0
    lo, hi = to_f(c["lo"], c["s"]["axis"]), to_f(c["hi"], c["s"]["axis"])
    k = {}
    if lo is not None:
        k["fmin"] = lo
    if hi is not None:
        k["fmax"] = hi
    kg = dict(k)
    if c["g"] is not None:
        kg["g"] = c["g"]
    return f, S, lo, hi, k, kg, 9.81 if c["g"] is None else c["g"]


def _object(f, S, before):
    """Object on which the parameters in ``before`` have been computed, for no limits, before."""
    o = Spectrum(f.copy(), S.copy())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name in before:
            getattr(o, "get_" + name)()
    return o


def _call(o, name, k):
    """Value and number of warnings."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        v = num(getattr(o, "get_" + name)(**k), "get_" + name)
    return v, sum(issubclass(w.category, UserWarning) for w in ws)


@sub("C25", _cases(), 2000)
def steepness(c):
    f, S, lo, hi, k, kg, g = _prepare(c)
    r = _stats(f, S, lo, hi)
    if r is None:
        return False, ["too little energy"]
    H, T = r
    v, nw = _call(_object(f, S, c["before"]), "smm10", kg)
    close(v, 2 * math.pi * H / (g * T * T), 1e-8, 0.0, f"steepness smm10 for {kg}")
    expect(nw == 0, f"smm10: {nw} warnings")
    sel = (f >= (f[0] if lo is None else lo)) & (f <= (f[-1] if hi is None else hi))
    ff, SS = f[sel], S[sel]
    if len(ff) and np.max(SS) > 1e-9 and ff[int(np.argmax(SS))] > 0:
        v, nw = _call(_object(f, S, c["before"]), "s0p", kg)
        expect(v > 0 and np.isfinite(v), f"s0p for {kg}: {v!r}")
        fp = math.sqrt(v * g / (2 * math.pi * H))
        opts = _tps_options(ff, SS)
        expect(
            any(abs(fp - x) <= tol + 1e-8 * x for x, tol in opts),
            lambda: f"s0p for {kg}: {v!r}, so a peak frequency of {fp!r}; expected one of {opts} (frequency, tolerance)",
        )
        expect(nw == 0, f"s0p: {nw} warnings")
    return True, ["g: " + ("default" if c["g"] is None else "given"), "limits: " + str(len(k))]


def _cutoff(f, S):
    """Default cutoff, or None when it is not judged."""
    r = _stats(f, S, None, None)
    if r is None or r[0] < 1e-5:
        return None
    cut = 0.45 / r[1]
    return None if _ambiguous(f, cut) else cut


@sub("C25", _cases(), 2500)
def high_and_low_frequencies(c):
    f, S, lo, hi, k, kg, g = _prepare(c)
    labels = []
    for part in ("HF", "LF"):
        own, other = (lo, hi) if part == "HF" else (hi, lo)
        given = own is not None
        cut = own if given else _cutoff(f, S)
        if cut is None:
            continue
        r = _stats(f, S, cut, other) if part == "HF" else _stats(f, S, other, cut)
        if r is None:
            continue
        H, T = r
        for name, want in (("Hm0_" + part, H), ("Tmm10_" + part, T)):
            v, nw = _call(_object(f, S, c["before"]), name, k)
            close(v, want, 1e-8, 0.0, f"{name} for {k} (cutoff {cut!r})")
            expect((nw > 0) == (not given), f"{name} for {k}: {nw} warnings")
        if part == "HF":
            v, nw = _call(_object(f, S, c["before"]), "smm10_HF", kg)
            close(v, 2 * math.pi * H / (g * T * T), 1e-8, 0.0, f"smm10_HF for {kg} (cutoff {cut!r})")
            expect((nw > 0) == (not given), f"smm10_HF for {kg}: {nw} warnings")
        labels.append(part + (": cutoff given" if given else ": default cutoff"))
    return bool(labels), labels


@st.composite
def _splits(draw):
    s = draw(spectra(7, 300, (999, 1001, 2501), kinds=("noise", "peak", "const", "jonswap", "sparse")))
    if s["axis"]["n"] % 2 == 0:
        s["axis"]["n"] += 1
    m = (s["axis"]["n"] - 1) // 2
    return dict(s=s, at=2 * draw(ints(1, max(1, m - 1))), off=draw(st.one_of(st.just(0.0), floats(-0.4, 0.4))))


@sub("C25", _splits(), 1200)
def energies_add_up(c):
    f, S = build_spectrum(c["s"])
    if f[0] == 0:
        S[0] = 0.0
    cut = float(f[c["at"]]) + c["off"] * (f[1] - f[0])
    tot = float(np.sum(S)) * (f[1] - f[0])
    o = Spectrum(f.copy(), S.copy())
    H, hf, lf = _call(o, "Hm0", {})[0], _call(o, "Hm0_HF", dict(fmin=cut))[0], _call(o, "Hm0_LF", dict(fmax=cut))[0]
    close(hf**2 + lf**2, H**2, 1e-9, 1e-12 * tot, f"Hm0 squared above plus below {cut!r}")
    return hf > 0 and lf > 0, ["on a bin" if c["off"] == 0 else "between bins"]
