import math
import sys
import warnings

from hypothesis import strategies as st

from wtb.core import close, expect, fail, info, pair, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import REPO, core_wavefunctions as cw

info(
    "C13",
    "Wave height over depth ratios of 0.001 (Rayleigh) to 3 (far beyond breaking), depths 1e-2..1e3 m, slopes 1:5 to"
    " 1:1000, 1..1e5 waves, tolerances 1e-3..1e-7. Non-trivial: a distribution (three points) is returned.",
    ["The second moment of the returned distribution is allowed to deviate by the tolerance that was asked for.",
     "Termination is decided by a budget of executed lines of the code under test (2 million; a normal run takes below"
     " 200 thousand), not by a clock.",
     "Cases with a normalised transition height within 1e-6 of 2.75 or a slope within 1e-9 of its limits are not judged."],
)

BUDGET = 2_000_000


class _Budget(BaseException):
    pass


def _limited(func, *a, **k):
    """Runs func, counting the executed lines of the code under test."""
    left = [BUDGET]

    def local(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            raise _Budget()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(REPO):
            return local
        return None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return func(*a, **k)
    except _Budget:
        fail(f"did not end within {BUDGET} executed lines for {a} {k}")
    finally:
        sys.settrace(old)


@st.composite
def _cases(draw, shallow=True):
    d = draw(st.one_of(st.sampled_from([1.0, 4.5, 10.0, 0.1]), logfloats(1e-2, 1e3)))
    r = draw(st.one_of(floats(0.35, 1.2), logfloats(0.3, 3.0), floats(0.3, 0.75)) if shallow else logfloats(1e-3, 1.5))
    return dict(
        d=d,
        hm0=float("%.6g" % (r * d)),
        slope=draw(st.one_of(st.sampled_from([250.0, 50.0, 20.0, 100.0, 30.0]), floats(20.0, 250.0), logfloats(5.0, 1000.0), st.none())),
        n=draw(st.one_of(st.sampled_from([1000, 100, 1, 2, 3, 700]), ints(1, 30), ints(2, 5000), st.sampled_from([20000, 100000, 10**6, 10**7, 10**9]))),
        tol=draw(st.one_of(st.none(), st.sampled_from([1e-3, 1e-4, 1e-6, 1e-7]))),
    )


def _call(c):
    k = {}
    if c["slope"] is not None:
        k["cota_slope"] = c["slope"]
    if c["tol"] is not None:
        k["tolerance"] = c["tol"]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = _limited(cw.compute_BattjesGroenendijk_wave_height_distribution, c["hm0"], c["n"], c["d"], **k)
    h, p = pair(r, "Battjes-Groenendijk")
    return h, p, [str(w.message) for w in ws if issubclass(w.category, UserWarning)]


def _setting(c):
    slope = 250.0 if c["slope"] is None else c["slope"]
    s0 = c["hm0"] / 4.0
    htr = (0.35 + 5.8 / slope) * c["d"]
    hrms = (2.69 + 3.24 * s0 / c["d"]) * s0
    return slope, s0, htr, hrms


def second_moment(htr, h1, h2):
    """Mean square height of the composite Weibull distribution, by quadrature."""
    from scipy.integrate import quad

    a, _ = quad(lambda u: u * math.exp(-((u * htr / h1) ** 2)), 0.0, 1.0, epsabs=0, epsrel=1e-11, limit=200)
    v0 = htr / h2
    if v0 < 1.5:
        b, _ = quad(lambda v: v * math.exp(-(v**3.6)), v0, 3.2, epsabs=0, epsrel=1e-11, limit=200)
        b /= v0**2
    else:
        # substitute y = (u v0)^3.6 - v0^3.6
        y0 = v0**3.6
        b, _ = quad(lambda y: math.exp(-y) * (y0 + y) ** (2 / 3.6 - 1), 0.0, 50.0, epsabs=0, epsrel=1e-11, limit=200)
        b *= math.exp(-y0) / 3.6 / v0**2
    return 2.0 * htr**2 * (a + b)


@sub("C13", _cases(), 600, 8000)
def composite_weibull(c):
    slope, s0, htr, hrms = _setting(c)
    norm = htr / hrms
    h, p, ws = _call(c)
    if abs(norm - 2.75) < 1e-6:
        return False, []
    outside = slope < 20 or slope > 250
    slope_warned = any("slope" in w for w in ws)
    expect(slope_warned == outside, f"slope 1:{slope}: warnings {ws}")
    if norm > 2.75:
        expect(np.size(h) == 0 and np.size(p) == 0, f"normalised transition height {norm!r}: {h}, {p}")
        expect(any("2.75" in w for w in ws), f"normalised transition height {norm!r}: warnings {ws}")
        return False, ["Rayleigh"]
    expect(not any("2.75" in w for w in ws), f"normalised transition height {norm!r}: warnings {ws}")
    h, p = vec(h, 3, "heights"), vec(p, 3, "exceedance probabilities")
    expect(h[0] == 0 and p[0] == 1, f"first point ({h[0]!r}, {p[0]!r})")
    close(h[1], htr, 1e-11, 0.0, "transition height")
    close(p[2], 1.0 / c["n"], 1e-12, 0.0, "probability of the design height")
    expect(0 <= p[1] <= 1, f"probability {p[1]!r} at the transition")
    labels = ["norm: %.1f" % (math.floor(norm * 2) / 2)]
    # far out in the tail of the first part (or next to one) the probability carries no information
    if not 1e-12 < p[1] < 1 - 1e-7:
        return True, labels + ["transition probability not informative"]
    y = -math.log(p[1])
    h1, h2 = htr / y ** (1 / 2.0), htr / y ** (1 / 3.6)
    tol = 1e-5 if c["tol"] is None else c["tol"]
    m2 = second_moment(htr, h1, h2)
    close(m2, hrms**2, 2 * tol + 1e-8, 0.0, "mean square wave height of the distribution")
    q = h1 * math.sqrt(math.log(c["n"]))
    if q >= htr:
        q = h2 * math.log(c["n"]) ** (1 / 3.6)
    cap = c["hm0"] * math.sqrt(math.log(c["n"]) / 2.0)
    close(h[2], min(q, cap), 1e-7, 1e-7 * htr, "design height")
    if cap < q:
        labels.append("capped by Rayleigh")
    labels.append("below the transition" if q < htr else "above the transition")
    return True, labels


@sub("C13", _cases(False), 400, 5000)
def from_deep_to_shallow(c):
    """Termination, warnings and monotonic form over the whole range of relative wave heights."""
    slope, s0, htr, hrms = _setting(c)
    norm = htr / hrms
    h, p, ws = _call(c)
    if abs(norm - 2.75) < 1e-6:
        return False, []
    expect((np.size(h) == 0) == (norm > 2.75), f"normalised transition height {norm!r}: {h}")
    if norm > 2.75:
        expect(any("2.75" in w for w in ws), f"warnings {ws}")
        return False, ["Rayleigh"]
    h, p = vec(h, 3), vec(p, 3)
    expect(np.all(h >= 0) and np.all(p >= 0) and np.all(p <= 1), f"{h}, {p}")
    # the points lie on one decreasing distribution
    if abs(h[2] - h[1]) > 1e-6 * h[1] and h[2] < c["hm0"] * math.sqrt(math.log(c["n"]) / 2.0) * (1 - 1e-9):
        expect((h[2] - h[1]) * (p[2] - p[1]) < 0, f"heights {h} with probabilities {p}")
    return True, ["composite"]


@sub("C13", st.fixed_dictionaries(dict(c=_cases(), a=logfloats(0.02, 50.0))), 300, 4000)
def scale_invariance(c):
    """All heights scale with the lengths; the probabilities do not."""
    a, c = c["a"], c["c"]
    c = dict(c, tol=1e-7)
    slope, s0, htr, hrms = _setting(c)
    if htr / hrms > 2.75 - 1e-6:
        return False, ["Rayleigh"]
    h, p, _ = _call(c)
    g, q, _ = _call(dict(c, d=c["d"] * a, hm0=c["hm0"] * a))
    h, p, g, q = vec(h, 3), vec(p, 3), vec(g, 3), vec(q, 3)
    close(g, a * h, 1e-5, 0.0, "heights")
    close(q, p, 2e-5, 1e-9, "probabilities")
    return True, []
