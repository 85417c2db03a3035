from hypothesis import strategies as st

from wtb.core import close, expect, info, num, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import simpson
from wtb.sut import core_wavefunctions as cw

info(
    "C28",
    "Spectra of 3..300 or up to 4999 bins starting at f = 0 or above: peaks of any width, noise, constants, several"
    " peaks, peaks at either end, and a peak of one bin. Non-trivial: at least three bins around the peak.",
    ["A maximum in the bin at f = 0 alone is not generated (its period is infinite); bins whose density is within"
     " rounding of the fraction may belong to the interval or not."],
)


@st.composite
def _cases(draw):
    s = draw(spectra(3, 300, BIG, kinds=("list", "noise", "peak", "const", "int", "jonswap", "sparse")))
    n = s["axis"]["n"]
    c = dict(s=s, spikes=[])
    if draw(ints(0, 2)) == 0:
        c["spikes"] = draw(
            st.lists(
                st.tuples(st.one_of(st.just(n - 1), st.just(0), ints(0, n - 1)), floats(0.3, 4.0)).map(list),
                min_size=1,
                max_size=3,
            )
        )
    return c


def _build(c):
    f, S = build_spectrum(c["s"])
    top = np.max(S)
    for i, a in c["spikes"]:
        S[i] = a * top
    if f[0] == 0.0 and S[0] >= 0.6 * np.max(S):
        S[0] = 0.5 * np.max(S[1:]) if np.max(S[1:]) > 0 else 0.0
        if np.max(S[1:]) == 0:
            S[1] = top
    return f, S


def _intervals(S):
    """The possible first and last bins of the interval."""
    top = np.max(S)
    out = []
    for e in (0.0, 1e-12, -1e-12):
        i = np.nonzero(S >= 0.64 * top * (1.0 + e))[0]
        p = (int(i[0]), int(i[-1]))
        if p not in out:
            out.append(p)
    return out


def _value(f, S, lo, hi):
    if lo == hi:
        return 1.0 / f[lo]
    h = (f[-1] - f[0]) / (len(f) - 1)
    g, V = f[lo : hi + 1], S[lo : hi + 1]
    return simpson(V, h) / simpson(g * V, h)


@sub("C28", _cases(), 4000)
def definition(c):
    f, S = _build(c)
    T = num(cw.tpd(f.copy(), S.copy()), "tpd")
    iv = _intervals(S)
    want = [_value(f, S, lo, hi) for lo, hi in iv]
    expect(any(abs(T - w) <= 1e-9 * w for w in want), f"tpd: {T!r}, expected {want!r} for the bins {iv} of {len(f)}")
    n = min(hi - lo for lo, hi in iv) + 1
    return n >= 3, ["bins: " + ("1" if n == 1 else "2" if n == 2 else "3+"), "f0: " + ("0" if f[0] == 0 else "> 0")]


@st.composite
def _scaled(draw):
    c = draw(_cases())
    c["e"] = draw(ints(-20, 20))
    c["k"] = draw(ints(-6, 6))
    return c


@sub("C28", _scaled(), 1500)
def units(c):
    f, S = _build(c)
    T = num(cw.tpd(f, S), "tpd")
    expect(np.isfinite(T) and T > 0, f"tpd: {T!r}")
    T2 = num(cw.tpd(f, S * 2.0 ** c["e"]), "tpd")
    close(T2, T, 1e-9, 0.0, "tpd of the density times a power of two")
    T3 = num(cw.tpd(f * 2.0 ** c["k"], S), "tpd")
    close(T3 * 2.0 ** c["k"], T, 1e-9, 0.0, "tpd with a frequency axis times a power of two")
    lo = min(p[0] for p in _intervals(S))
    hi = max(p[1] for p in _intervals(S))
    n = hi - lo + 1
    if n % 2 or n <= 2:
        # all weights of the integration are positive, so that this is a mean over the interval
        expect(f[lo] * (1 - 1e-9) <= 1 / T <= f[hi] * (1 + 1e-9), f"tpd: {T!r} outside the interval {1 / f[hi] if f[hi] else np.inf!r} .. {1 / f[lo] if f[lo] else np.inf!r}")
    return n >= 3, ["bins: " + ("1" if n == 1 else "2" if n == 2 else "3+")]


@st.composite
def _outside(draw):
    n = draw(sizes(5, 200))
    a = dict(n=n, df=draw(st.sampled_from(DFS)), f0=draw(st.sampled_from([0.0, 1.0, 7.5])))
    a["f0"] = a["f0"] * a["df"]
    lo = draw(ints(1, n - 2))
    hi = draw(ints(lo, n - 2))
    return dict(axis=a, lo=lo, hi=hi, salt=draw(salts()), salt2=draw(salts()))


@sub("C28", _outside(), 1500)
def density_outside_the_interval_is_irrelevant(c):
    """Densities below half the maximum outside the peak do not count, whatever they are."""
    f = build_faxis(c["axis"])
    n = len(f)
    r = [np.random.Generator(np.random.PCG64(c[k])) for k in ("salt", "salt2")]
    S, S2 = (q.uniform(0.0, 0.6, n) for q in r)
    core = r[0].uniform(0.0, 1.0, c["hi"] - c["lo"] + 1)
    core[0] = r[0].uniform(0.66, 1.0)
    core[-1] = r[0].uniform(0.66, 1.0)
    core[len(core) // 2] = 1.0
    for q in (S, S2):
        q[c["lo"] : c["hi"] + 1] = core
    T, T2 = num(cw.tpd(f, S), "tpd"), num(cw.tpd(f, S2), "tpd")
    close(T2, T, 1e-9, 0.0, "tpd with other densities outside the peak")
    close(T, _value(f, S, c["lo"], c["hi"]), 1e-9, 0.0, "tpd")
    return c["hi"] > c["lo"], ["bins: " + ("1" if c["hi"] == c["lo"] else "2+")]


@st.composite
def _ties(draw):
    n = draw(sizes(4, 120))
    a = dict(n=n, df=draw(st.sampled_from(DFS)), f0=draw(st.sampled_from([1.0, 2.0, 7.5])))
    a["f0"] = a["f0"] * a["df"]
    return dict(axis=a, top=draw(st.sampled_from([25.0, 50.0, 75.0, 100.0, 12.5, 6.25])), e=draw(ints(-20, 20)), lo=draw(ints(0, n - 2)), m=draw(ints(1, min(n, 12))), salt=draw(salts()))


@sub("C28", _ties(), 600)
def bins_at_the_fraction_belong(c):
    """Densities exactly at the fraction of the maximum, in numbers for which every way to compute it is exact."""
    f = build_faxis(c["axis"])
    n = len(f)
    M = c["top"] * 2.0 ** c["e"]
    v = 0.64 * c["top"] * 2.0 ** c["e"]
    ways = (v / (0.8 * M) >= 0.8, v >= 0.64 * M, v >= 0.8 * (0.8 * M), v / M >= 0.64, v / (M * 0.8) >= 0.8)
    if not all(ways):
        return False, ["not exact"]
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    S = r.uniform(0.0, 0.55, n) * M
    lo, hi = c["lo"], min(n - 1, c["lo"] + c["m"])
    S[lo : hi + 1] = r.uniform(0.0, 1.0, hi - lo + 1) * M
    k = int(r.integers(lo, hi + 1))
    S[lo] = S[hi] = v
    if hi - lo < 2:
        S[lo] = M
    else:
        S[min(max(k, lo + 1), hi - 1)] = M
    T = num(cw.tpd(f, S), "tpd")
    close(T, _value(f, S, lo, hi), 1e-9, 0.0, f"tpd with bins exactly at the fraction ({lo}..{hi} of {n})")
    return True, ["bins: " + ("2" if hi - lo < 2 else "3+")]
