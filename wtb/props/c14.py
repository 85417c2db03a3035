import math

from hypothesis import strategies as st

from wtb.core import close, expect, info, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import core_dispersion as cd

info(
    "C14",
    "Radial frequencies from 1e-12 to 1e6 rad/s of both signs and zero, depths 1e-6 to 1e6 m, gravity 0.01..100; as"
    " numbers, lists and arrays of up to 400 elements (up to 4999). Non-trivial: a frequency other than zero.",
    ["For the deep-water option the sign of w is not prescribed (the tool returns w^2/g), so negative frequencies are"
     " only used with finite depth."],
)


def _residual(w, k, h, g, what):
    """Relative residual of w^2 = g k tanh(k h), evaluated without cancellation."""
    for wi, ki in zip(w, k):
        if wi == 0:
            expect(ki == 0, f"{what}: wave number {ki!r} for w = 0")
            continue
        expect(math.isfinite(ki) and ki * wi > 0, f"{what}: wave number {ki!r} for w = {wi!r}")
        a = abs(ki)
        r = g * a * math.tanh(a * h) / wi / wi - 1.0
        expect(abs(r) <= 2e-12, f"{what}: residual {r!r} for w = {wi!r}, h = {h!r}, g = {g!r}, k = {ki!r}")


_w = st.one_of(st.just(0.0), logfloats(1e-12, 1e6), logfloats(1e-3, 1e2), logfloats(0.05, 10.0))
_signed = st.tuples(_w, st.sampled_from([1.0, 1.0, -1.0])).map(lambda p: p[0] * p[1])
_h = st.one_of(st.sampled_from([1.0, 10.0, 0.5, 100.0]), logfloats(1e-6, 1e6), logfloats(0.05, 200.0))
_g = st.one_of(st.just(None), st.just(None), st.just(9.81), logfloats(0.01, 100.0))


def _call(w, h, g):
    return cd.disper(w, h) if g is None else cd.disper(w, h, g)


@sub("C14", st.fixed_dictionaries(dict(w=st.lists(_signed, min_size=1, max_size=30), h=_h, g=_g)), 4000)
def solves_relation(c):
    w = np.array(c["w"])
    g = 9.81 if c["g"] is None else c["g"]
    k = vec(_call(w.copy(), c["h"], c["g"]), len(w), "wave number")
    _residual(w, k, c["h"], g, "disper")
    return bool(np.any(w != 0)), ["with zero" if np.any(w == 0) else "no zero", "negative w" if np.any(w < 0) else "positive w"]


# dimensionless: all regimes of w^2 h / g, from extremely long to extremely short waves
@sub("C14", st.fixed_dictionaries(dict(q=st.lists(st.floats(-28.0, 12.0), min_size=1, max_size=20), h=_h, g=_g)), 3000)
def all_regimes(c):
    g = 9.81 if c["g"] is None else c["g"]
    w = np.sqrt(10.0 ** np.array(c["q"]) * g / c["h"])
    k = vec(_call(w.copy(), c["h"], c["g"]), len(w), "wave number")
    _residual(w, k, c["h"], g, "disper")
    reg = {("long" if q < -8 else "shallow" if q < -2 else "intermediate" if q < 1 else "deep") for q in c["q"]}
    # wave numbers grow with frequency
    i = np.argsort(w)
    expect(np.all(np.diff(k[i]) >= -4e-12 * k[i][1:]), "wave numbers do not grow with frequency")
    return True, sorted(reg)


@sub("C14", st.fixed_dictionaries(dict(n=sizes(31, 400, HUGE), q0=floats(-12.0, 4.0), q1=floats(-12.0, 8.0), h=_h, g=_g, zero=st.booleans())), 400)
def long_axes(c):
    """Frequency axes as the wave decomposition uses them, up to thousands of elements."""
    g = 9.81 if c["g"] is None else c["g"]
    a, b = sorted((c["q0"], c["q1"]))
    w = np.linspace(math.sqrt(10.0**a * g / c["h"]), math.sqrt(10.0**b * g / c["h"]), c["n"])
    if c["zero"]:
        w[0] = 0.0
    k = vec(_call(w.copy(), c["h"], c["g"]), len(w), "wave number")
    _residual(w, k, c["h"], g, "disper")
    return True, []


@sub("C14", st.fixed_dictionaries(dict(w=st.lists(_w, min_size=1, max_size=12), h=_h, g=_g)), 1500)
def deep_and_shallow_options(c):
    w = np.array(c["w"])
    g = 9.81 if c["g"] is None else c["g"]
    for inf in (float("inf"), np.inf):
        k = vec(_call(w.copy(), inf, c["g"]), len(w), "deep-water wave number")
        close(k, w**2 / g, 1e-14, 0.0, "deep-water wave number")
    k = vec(_call(w.copy(), -c["h"], c["g"]), len(w), "shallow-water wave number")
    close(k, w / math.sqrt(g * c["h"]), 1e-14, 0.0, "shallow-water wave number")
    k = vec(_call(-w, -c["h"], c["g"]), len(w), "shallow-water wave number")
    close(k, -w / math.sqrt(g * c["h"]), 1e-14, 0.0, "shallow-water wave number")
    return bool(np.any(w != 0)), []


@sub("C14", st.fixed_dictionaries(dict(w=st.lists(_signed, min_size=1, max_size=15), h=st.one_of(_h, _h.map(lambda v: -v)), g=_g, i=ints(0, 14))), 1500)
def elementwise(c):
    """Every element is solved on its own; numbers, lists and arrays give the same."""
    w = np.array(c["w"])
    k = vec(_call(w.copy(), c["h"], c["g"]), len(w), "wave number")
    kl = vec(_call(list(c["w"]), c["h"], c["g"]), len(w), "wave number of a list")
    close(kl, k, 0.0, 0.0, "wave numbers of list and array")
    i = c["i"] % len(w)
    for v in (c["w"][i], np.float64(c["w"][i]), np.array([c["w"][i]])):
        ks = np.ravel(np.asarray(_call(v, c["h"], c["g"]), float))
        expect(len(ks) == 1, f"{len(ks)} wave numbers for one frequency")
        close(ks[0], k[i], 1e-14, 0.0, f"wave number of the single frequency {v!r} and of the element of an array")
    j = np.arange(len(w))[::-1]
    kr = vec(_call(w[j], c["h"], c["g"]), len(w))
    close(kr, k[j], 1e-14, 0.0, "wave numbers of the reversed array")
    return len(w) > 1, []
