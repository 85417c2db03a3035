from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import fraction_counts, percentage_counts
from wtb.sut import core_time as ct

info(
    "C07",
    "Sets of 0..400 (or up to 30011) wave heights and periods, with ties and zeros; fractions 0..1 and percentages"
    " 0..100 as arbitrary numbers, as k/n, as thirds and tenths. Non-trivial: at least two waves, and for the"
    " statistics at least one selected wave.",
    ["floor(fraction*n) is taken in floating point, as documented; for percentages there is one answer when n*p is an"
     " exact multiple of 100, otherwise the evaluation orders n*p/100 and n*(p/100) are both accepted."],
)


@st.composite
def waves(draw, lo=0, hi=400, big=(1000, 3000, 10007, 12000, 30011)):
    n = draw(st.one_of(st.just(0), st.just(1), sizes(max(lo, 1), hi, big))) if lo == 0 else draw(sizes(lo, hi, big))
    k = draw(st.sampled_from(["list", "int", "noise"])) if n <= 30 else "noise"
    w = dict(n=n, kind=k)
    if k == "list":
        w["h"] = draw(st.lists(floats(0.0, 10.0), min_size=n, max_size=n))
    elif k == "int":
        w["h"] = draw(st.lists(st.integers(0, 4).map(float), min_size=n, max_size=n))
    else:
        w["salt"] = draw(salts())
        w["ties"] = draw(st.booleans())
    w["still"] = draw(st.sampled_from([0, 0, 0, 2, 5]))
    w["scale"] = draw(st.one_of(st.sampled_from([1.0, 1.0, 1e-4, 1e4]), logfloats(1e-9, 1e7)))
    return w


def build_waves(w):
    """Heights, and periods that identify the wave they belong to."""
    n = w["n"]
    if w["kind"] == "noise":
        r = np.random.Generator(np.random.PCG64(w["salt"]))
        h = r.rayleigh(1.0, n)
        if w["ties"]:
            h = np.round(h * 8) / 8
    else:
        h = np.array(w["h"], dtype=float)
    T = 1.0 + ((np.arange(n) * 7919) % max(n, 1)) / max(n, 1) * 9.0
    if w.get("still"):
        # waves of unknown period
        T[:: w["still"]] = 0.0
    return h * w["scale"], T


@sub("C07", waves(), 1500)
def sorting(c):
    h, T = build_waves(c)
    n = len(h)
    hs, Ts = pair(ct.sort_wave_params(h.copy(), T.copy()))
    hs, Ts = vec(hs, n, "sorted heights"), vec(Ts, n, "sorted periods")
    expect(np.all(np.diff(hs) <= 0), "heights not in descending order")
    got = sorted(zip(hs.tolist(), Ts.tolist()))
    want = sorted(zip(h.tolist(), T.tolist()))
    expect(got == want, lambda: f"(height, period) pairs changed: {[p for p in got if p not in want][:3]}")
    return n > 1, ["ties" if len(set(h.tolist())) < n else "no ties"]


def _sorted(c):
    h, T = build_waves(c["w"])
    i = np.argsort(-h, kind="stable")
    return h[i], T[i]


_frac = st.one_of(
    st.sampled_from([0.0, 1.0, 1.0 / 3.0, 0.1, 0.5, 0.01, 2.0 / 3.0]), floats(0.0, 1.0), st.none(), st.none()
)


@st.composite
def _share(draw, n):
    """A fraction that selects a drawn number of waves: any, or the first or last few; also in between two numbers."""
    n = max(1, n)
    few = min(draw(ints(0, 3)), n)
    k = draw(st.sampled_from([draw(ints(0, n)), few, n - few]))
    return min(1.0, (k + draw(st.one_of(st.just(0.0), st.just(0.5), floats(0.0, 0.999)))) / n)


@st.composite
def _fcases(draw):
    w = draw(waves())
    p = draw(_frac)
    if p is None:
        p = draw(_share(w["n"]))
    return dict(w=w, p=p)


@sub("C07", _fcases(), 2000)
def highest_fraction(c):
    h, T = _sorted(c)
    n = len(h)
    H, P = pair(ct.highest_waves_params(h.copy(), T.copy(), c["p"]))
    H, P = num(H, "mean height"), num(P, "mean period")
    opts = [(float(np.sum(h[:k]) / k), float(np.sum(T[:k]) / k)) if k > 0 else (0.0, 0.0) for k in fraction_counts(n, c["p"])]
    ok = any(abs(H - a) <= 1e-11 * a and abs(P - b) <= 1e-11 * b for a, b in opts)
    expect(ok, f"({H!r}, {P!r}) for the highest {c['p']!r} of {n} waves, expected {opts}")
    k = max(fraction_counts(n, c["p"]))
    return k > 0 and n > 1, ["selected: " + ("0" if k == 0 else "1" if k == 1 else "all" if k == n else "some")]


_perc = st.one_of(
    st.sampled_from([0.0, 100.0, 2.0, 1.0, 10.0, 50.0, 0.1, 33.0, 100.0 / 3.0]),
    ints(0, 100).map(float),
    floats(0.0, 100.0),
    st.none(),
    st.none(),
)


@st.composite
def _pcases(draw):
    w = draw(waves())
    p = draw(_perc)
    if p is not None and draw(ints(0, 3)) == 0:
        # a number of waves for which the percentage is an exact number of them
        w = draw(st.sampled_from([10, 20, 50, 100, 200, 300, 700, 1000]).map(lambda n: dict(n=n, kind="noise", salt=n, ties=False, scale=1.0)))
        p = float(draw(ints(0, 100)))
    if p is None:
        p = 100.0 * draw(_share(w["n"]))
    return dict(w=w, p=p)


@sub("C07", _pcases(), 2000)
def exceedance(c):
    h, _ = _sorted(c)
    n = len(h)
    H = num(ct.exceedance_wave_height(h.copy(), c["p"]), "exceedance height")
    opts = [float(h[k - 1]) if k > 0 else 0.0 for k in percentage_counts(n, c["p"])]
    expect(H in opts, f"{H!r} for {c['p']!r} % of {n} waves, expected {opts}")
    k = max(percentage_counts(n, c["p"]))
    return k > 0 and n > 1, ["wave: " + ("none" if k == 0 else "1" if k == 1 else "last" if k == n else "inside")]


@st.composite
def _mono(draw):
    return dict(
        w=draw(waves(1, 300, ())), p=sorted(draw(st.lists(floats(0.0, 1.0), min_size=2, max_size=8)))
    )


@sub("C07", _mono(), 1000)
def monotonic(c):
    h, T = _sorted(c)
    n = len(h)
    last_h = last_e = np.inf
    used = 0
    for p in c["p"]:
        if n * p >= 1.001:
            a = num(ct.highest_waves_params(h, T, p)[0])
            e = num(ct.exceedance_wave_height(h, 100.0 * p))
            expect(a <= last_h * (1 + 1e-12), f"mean of the highest {p!r} is {a!r}, of a smaller fraction {last_h!r}")
            expect(e <= last_e, f"height exceeded by {100 * p!r} % is {e!r}, by fewer {last_e!r}")
            expect(e <= a * (1 + 1e-12), f"exceedance height {e!r} above the mean {a!r} of the waves above it")
            expect(a <= scale_of(h) * (1 + 1e-12), f"mean height {a!r} above the maximum")
            last_h, last_e = a, e
            used += 1
    return used > 1, []
