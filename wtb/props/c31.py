import warnings

from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import Spectrum, core_wavefunctions as cw

info(
    "C31",
    "Spectra of 4..300 or up to 4999 bins starting at f = 0 or above; all ranges of at least two bins, limits on the"
    " bins or up to 0.3 bin outside the range; other densities (zero to 1e3 times the maximum) outside the range; an even"
    " number of empty bins appended. Non-trivial: a range that leaves out a bin with energy.",
    ["Tp and Tps, which take the bins inside the limits, are only compared for limits that are on or outside the first"
     " and last bin of the range; the bin at f = 0 is never the maximum.",
     "A range of f = 0 and one more bin is left out: the moments of negative order, which skip f = 0, have no interval there.",
     "Appending empty bins is judged for an odd number of bins above f = 0 with no density in the last one, where Simpson's rule"
     " gives the same sum."],
)

OBJ = ("Hm0", "Tmm10", "Tm01", "Tm02", "Tp", "Tps", "s0p", "smm10")
FUN = ("Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02")


@st.composite
def _cases(draw):
    s = draw(spectra(4, 300, BIG))
    n = s["axis"]["n"]
    i = draw(st.one_of(st.just(0), st.just(1), ints(0, n - 2)))
    j = draw(st.one_of(st.just(n - 1), ints(i + 1, n - 1), ints(i + 1, min(n - 1, i + 8))))
    return dict(
        s=s,
        i=i,
        j=j,
        lo=draw(st.one_of(st.just(0.0), floats(0.0, 0.3))),
        hi=draw(st.one_of(st.just(0.0), floats(0.0, 0.3))),
        salt=draw(salts()),
        amp=draw(st.sampled_from([0.0, 1.0, 1e3])),
        g=draw(st.one_of(st.none(), floats(1.6, 25.0))),
        used=draw(st.booleans()),
        inner=[draw(floats(-0.4, 0.4)), draw(floats(-0.4, 0.4))],
        columns=draw(st.booleans()),
    )


def _build(c):
    f, S = build_spectrum(c["s"])
    if f[0] == 0.0 and c["i"] == 0:
        S[0] = 0.0
        if not np.max(S[1 : c["j"] + 1]) > 0:
            S[1] = 1.0
    if not np.max(S[c["i"] : c["j"] + 1]) > 0:
        S[c["j"]] = 1.0
    return f, S


def _limits(c, f):
    df = c["s"]["axis"]["df"]
    lo, hi = float(f[c["i"]]) - c["lo"] * df, float(f[c["j"]]) + c["hi"] * df
    if c["i"] == 0:
        lo = float(f[0])
    if c["j"] == len(f) - 1:
        hi = float(f[-1])
    return lo, hi


ORDERS = (-2, -1, 0, 1, 2, 3)


def _moments(f, S, lo, hi):
    """What takes the bins nearest to the limits."""
    out = {}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        o = Spectrum(f.copy(), S.copy())
        for p in ("Hm0", "Tmm10", "Tm01", "Tm02", "smm10"):
            out["Spectrum.get_" + p] = num(getattr(o, "get_" + p)(lo, hi), "get_" + p)
        for m in ORDERS:
            out[f"compute_moment of order {m}"] = num(cw.compute_moment(f, S, m, lo, hi), "compute_moment")
    return out


def _parameters(f, S, lo, hi, g, obj=None):
    out = {}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        o = Spectrum(f.copy(), S.copy()) if obj is None else obj
        mix = None if obj is None else np.random.Generator(np.random.PCG64(len(f)))
        for p in OBJ:
            if mix is not None:
                # the object has been asked for something else before
                q = OBJ[int(mix.integers(0, len(OBJ)))]
                getattr(o, "get_" + q)(*((-1.0, -1.0) if mix.integers(0, 2) else (float(f[0]), float(f[-1]))))
            k = {}
            if lo is not None:
                k["fmin"] = lo
            if hi is not None:
                k["fmax"] = hi
            if g is not None and p in ("s0p", "smm10"):
                k["g"] = g
            out["Spectrum.get_" + p] = num(getattr(o, "get_" + p)(**k), "get_" + p)
        k.pop("g", None)
        for p, v in zip(FUN, pair(cw.compute_spectrum_params(f, S, **k), "compute_spectrum_params", 6)):
            out["compute_spectrum_params: " + p] = num(v, p)
        for m in ORDERS:
            out[f"compute_moment of order {m}"] = num(cw.compute_moment(f, S, m, **k), "compute_moment")
    return out


def _agree(a, b, f, S, what):
    for k in a:
        if "Tp" in k or "s0p" in k:
            # ties of the maximum may be decided by rounding in the parabola
            close(a[k], b[k], 1e-9, 0.0, f"{k}, {what}")
        else:
            close(a[k], b[k], 1e-9, 1e-12 * abs(b[k]), f"{k}, {what}")


@sub("C31", _cases(), 2000)
def range_of_the_spectrum(c):
    f, S = _build(c)
    i, j, g = c["i"], c["j"], c["g"]
    if f[0] == 0.0 and i == 0 and j == 1:  # negative orders leave out f = 0: one bin would remain
        j = c["j"] = 2
    lo, hi = _limits(c, f)
    obj = Spectrum(f.copy(), S.copy())
    if c["used"]:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            for p in OBJ:
                getattr(obj, "get_" + p)()
    got = _parameters(f, S, lo, hi, g, obj)
    if j - i >= 1:
        F, V = f[i : j + 1].copy(), S[i : j + 1].copy()
        want = _parameters(F, V, -1.0, -1.0, g)
        want2 = _parameters(F, V, float(F[0]), float(F[-1]), g)
        _agree(want2, want, F, V, f"limits equal to the ends of the axis against no limits ({len(F)} bins)")
        _agree(got, want, F, V, f"limits {lo!r}..{hi!r} (bins {i}..{j} of {len(f)}) against the cut-out part of the spectrum")
        # limits that are left out
        if i == 0:
            _agree(_parameters(f, S, None, hi, g, obj), want, F, V, f"only an upper limit {hi!r} (bin {j} of {len(f)})")
        if j == len(f) - 1:
            _agree(_parameters(f, S, lo, None, g, obj), want, F, V, f"only a lower limit {lo!r} (bin {i} of {len(f)})")
        # limits between two bins, nearer to the bins of the range
        df = c["s"]["axis"]["df"]
        a = float(f[i]) + c["inner"][0] * df if i > 0 or c["inner"][0] > 0 else float(f[i])
        b = float(f[j]) + c["inner"][1] * df if j < len(f) - 1 or c["inner"][1] < 0 else float(f[j])
        if i > 0 or f[0] > 0 or c["inner"][0] <= 0:
            _agree(_moments(f, S, a, b), _moments(F, V, -1.0, -1.0), F, V, f"limits {a!r}..{b!r} (nearest bins {i}..{j} of {len(f)}) against the cut-out part")
    # what lies outside the limits does not matter
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    T = r.uniform(0.0, 1.0, len(f)) * c["amp"] * np.max(S)
    T[i : j + 1] = S[i : j + 1]
    other = _parameters(f, T, lo, hi, g)
    _agree(other, got, f, S, f"limits {lo!r}..{hi!r} (bins {i}..{j} of {len(f)}) with other densities outside")
    if c["columns"]:
        _agree(_parameters(f[:, None], T[:, None], lo, hi, g), got, f, S, "columns")
    return bool(np.any(S[:i] > 0) or np.any(S[j + 1 :] > 0)), ["bins: " + ("2" if j - i == 1 else "3" if j - i == 2 else "4+"), "odd range" if (j - i) % 2 == 0 else "even range"]


@st.composite
def _padded(draw):
    s = draw(spectra(3, 301, (1001, 2047), zero=False))
    s["axis"]["n"] |= 1
    s["S"] = draw(densities(s["axis"]["n"], True, kinds=("noise", "peak", "jonswap", "sparse")))
    return dict(s=s, m=draw(ints(1, 60)), g=None, i=0, j=s["axis"]["n"] - 1)


@sub("C31", _padded(), 700)
def empty_bins_appended(c):
    f, S = _build(c)
    S[-1] = 0.0
    if not np.max(S) > 0:
        S[1] = 1.0
    n, m = len(f), 2 * c["m"]
    a = c["s"]["axis"]
    F = a["f0"] + np.arange(n + m) * a["df"]
    F[:n] = f
    V = np.concatenate([S, np.zeros(m)])
    x, y = _parameters(f, S, -1.0, -1.0, None), _parameters(F, V, -1.0, -1.0, None)
    _agree(y, x, f, S, f"{m} empty bins appended to {n}")
    z = _parameters(F, V, float(f[0]), float("inf"), None)
    _agree(z, x, f, S, f"{m} empty bins appended to {n}, upper limit infinite")
    return True, ["bins: " + ("3-9" if n < 10 else "10+")]
