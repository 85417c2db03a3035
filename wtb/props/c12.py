import math

from hypothesis import strategies as st

from wtb.core import close, expect, info, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import jonswap_shape, moment
from wtb.sut import Spectrum, core_wavefunctions as cw

info(
    "C12",
    "Frequency axes of 4..300 or up to 4999 bins that mostly reach beyond the peak (sometimes only up to it, or starting above it), starting below, at or above zero; peak"
    " frequency on and between bins; gamma 1..10 (and below one); with and without tail. Non-trivial: at least three"
    " bins with a density above 1e-12 of the maximum.",
)


@st.composite
def _cases(draw):
    a = draw(faxes(6, 300, GIANT))
    if draw(ints(0, 9)) == 0:
        a["f0"] = -draw(ints(1, max(1, a["n"] // 4))) * a["df"]
    top = a["f0"] + (a["n"] - 1) * a["df"]
    lo = max(2.0 * a["df"], a["f0"] * 1.02)
    hi = max(lo * 1.01, top / 1.2)
    fp = draw(floats(lo, hi))
    if draw(ints(0, 4)) == 0:
        # exactly on a bin
        i = min(max(int(round((fp - a["f0"]) / a["df"])), 1), a["n"] - 2)
        fp = float(build_faxis(a)[i])
    beyond = draw(ints(0, 7))
    if beyond == 0 and top > 0:
        # only the low-frequency flank on the axis, or only the high-frequency flank
        fp = top * draw(floats(1.0, 2.2))
    elif beyond == 1 and a["f0"] > 0:
        fp = a["f0"] * draw(floats(0.2, 1.0))
    if fp <= 0:
        fp = 2.0 * a["df"]
    return dict(
        axis=a,
        fp=fp,
        hm0=draw(st.one_of(st.sampled_from([1.0, 2.0]), logfloats(1e-3, 30.0))),
        gamma=draw(st.one_of(st.sampled_from([3.3, 1.0, 7.0]), floats(0.5, 10.0))),
        tail=draw(st.sampled_from([0, 1, None])),
        which=draw(st.sampled_from(["jonswap", "jonswap", "jonswap-default", "pm", "pm-gamma"])),
    )


def _make(c, f, obj):
    w = c["which"]
    k = {} if c["tail"] is None else dict(l_fmax=c["tail"])
    if w == "jonswap":
        fn = cw.create_spectrum_object_jonswap if obj else cw.create_spectrum_jonswap
        return fn(f, c["fp"], c["hm0"], c["gamma"], **k), c["gamma"]
    if w == "jonswap-default":
        fn = cw.create_spectrum_object_jonswap if obj else cw.create_spectrum_jonswap
        return fn(f, c["fp"], c["hm0"], **k), 3.3
    fn = cw.create_spectrum_object_piersonmoskowitz if obj else cw.create_spectrum_piersonmoskowitz
    if w == "pm-gamma":
        # with an explicit peak enhancement it is a JONSWAP spectrum
        return fn(f, c["fp"], c["hm0"], c["gamma"], **k), c["gamma"]
    return fn(f, c["fp"], c["hm0"], **k), 1.0


@sub("C12", _cases(), 2500)
def shape_and_energy(c):
    f = build_faxis(c["axis"])
    n = len(f)
    S, gamma = _make(c, f.copy(), False)
    S = vec(S, n, "density")
    shape = jonswap_shape(f, c["fp"], gamma)
    hi = float("inf") if c["tail"] == 1 else None
    m0 = moment(f, shape, 0, f[0], hi)
    if not m0 > 0 or not np.sum(shape > 1e-12 * np.max(shape)) >= 3:
        return False, ["degenerate"]
    want = shape * (c["hm0"] / 4.0) ** 2 / m0
    # the exponent -1.25 (f/fp)^-4 amplifies rounding far below the peak
    with np.errstate(all="ignore"):
        e = 1.25 * (np.where(f > 0, f, np.inf) / c["fp"]) ** -4.0
    close(S, want, 1e-9 + 1e-14 * np.where(f > 0, e, 0.0), 1e-200, "density")
    expect(np.all(S[f <= 0] == 0), "density below or at f = 0")
    close(4 * math.sqrt(moment(f, S, 0, f[0], hi)), c["hm0"], 1e-8, 0.0, "wave height of the spectrum")
    near = np.argmin(np.abs(f - c["fp"]))
    return True, [
        c["which"],
        "tail" if c["tail"] == 1 else "no tail",
        "starts below 0" if f[0] < 0 else "starts at 0" if f[0] == 0 else "starts above 0",
        "fp on a bin" if f[near] == c["fp"] else "fp between bins",
    ]


@sub("C12", _cases(), 800)
def object_variant(c):
    f = build_faxis(c["axis"])
    S, _ = _make(c, f.copy(), False)
    o, _ = _make(c, f.copy(), True)
    if not np.all(np.isfinite(S)):
        return False, ["degenerate"]
    expect(isinstance(o, Spectrum), f"returned {type(o)}")
    close(vec(o.f, len(f), "f"), f, 0.0, 0.0, "frequencies of the object")
    close(vec(o.sVarDens, len(f), "sVarDens"), vec(S, len(f)), 1e-12, 1e-200, "densities of the object")
    return scale_of(S) > 0, [c["which"]]


@sub("C12", _cases(), 800)
def definitions_agree(c):
    """Pierson-Moskowitz is JONSWAP with gamma 1; the density is quadratic in the wave height; the
    shape only depends on f/fp."""
    f = build_faxis(c["axis"])
    k = {} if c["tail"] is None else dict(l_fmax=c["tail"])
    pm = cw.create_spectrum_piersonmoskowitz(f, c["fp"], c["hm0"], **k)
    j1 = cw.create_spectrum_jonswap(f, c["fp"], c["hm0"], 1.0, **k)
    pm, j1 = vec(pm, len(f)), vec(j1, len(f))
    if not np.all(np.isfinite(j1)):
        return False, ["degenerate"]
    close(pm, j1, 1e-12, 1e-200, "Pierson-Moskowitz and JONSWAP with gamma 1")
    j2 = vec(cw.create_spectrum_jonswap(f, c["fp"], 3.0 * c["hm0"], 1.0, **k), len(f))
    close(j2, 9.0 * j1, 1e-10, 1e-200, "density for three times the wave height")
    a = 2.0
    j3 = vec(cw.create_spectrum_jonswap(a * f, a * c["fp"], c["hm0"], c["gamma"], **k), len(f))
    j4 = vec(cw.create_spectrum_jonswap(f, c["fp"], c["hm0"], c["gamma"], **k), len(f))
    close(j3 * a, j4, 1e-9, 1e-200, "density on the doubled axis with doubled peak frequency")
    return scale_of(j1) > 0, []
