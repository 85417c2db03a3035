from hypothesis import strategies as st

from wtb.core import close, expect, info, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import band_average, bands_used, band_counts
from wtb.sut import core_spectral as cs

info(
    "C03",
    "Frequency axes of 2..300 or up to 4999 bins (starting at zero or not), real, integer-valued or complex"
    " spectra, and a requested spacing drawn relative to the original one. Non-trivial: at least one complete"
    " band of two or more bins.",
    ["When requested/original spacing lies within 1e-7 of a half, both neighbouring band widths are accepted."],
)


@st.composite
def _cases(draw):
    a = draw(faxes(2, 300, GIANT))
    n = a["n"]
    kind = draw(st.sampled_from(["real", "real", "int", "complex", "negative"]))
    c = dict(axis=a, kind=kind)
    if kind == "real":
        c["S"] = draw(densities(n))
    else:
        c["salt"] = draw(salts())
    c["q"] = draw(
        st.one_of(
            st.just(0.0),
            floats(0.001, 0.49),
            ints(1, max(2, n // 2)).map(float),
            ints(1, min(12, n)).flatmap(lambda k: floats(-0.49, 0.49).map(lambda e: k + e)),
            ints(1, n).flatmap(lambda k: floats(-0.45, 0.45).map(lambda e: k + e)),
            floats(0.6 * n, 1.4 * n),
        )
    )
    c["omit"] = draw(st.booleans())
    return c


@sub("C03", _cases(), 2500)
def bands(c):
    f = build_faxis(c["axis"])
    n = len(f)
    if c["kind"] == "real":
        S = build_density(c["S"], n)
    else:
        z = cnoise(c["salt"], n)
        if c["kind"] == "complex":
            S = z
        elif c["kind"] == "int":
            S = np.round(3 * np.abs(z)).astype(int)
        else:
            S = z.real
    df = f[1] - f[0]
    want_df = c["q"] * df
    if c["q"] == 0.0 and c["omit"]:
        r = cs.frequency_averaging(f.copy(), S.copy())
    else:
        r = cs.frequency_averaging(f.copy(), S.copy(), want_df)
    fc, Sc = pair(r)
    kind = "c" if c["kind"] == "complex" else "f"
    fc = vec(fc, None, "frequencies")
    Sc = vec(Sc, len(fc), "densities", kind=kind)
    qs = [q for q in band_counts(want_df, df, n) if n // q == len(fc)]
    expect(qs, f"{len(fc)} bands out of {n} bins for a ratio of {c['q']}")
    qs = bands_used(qs, f, fc)
    wf, wS = band_average(f, S, qs[0])
    close(fc, wf, 1e-10, 1e-12 * df, "frequencies")
    close(Sc, wS, 1e-10, 1e-12 * scale_of(S), "densities")
    if qs[0] == 1:
        close(fc, f, 0.0, 0.0, "frequencies left as they are")
        close(Sc, S.astype(Sc.dtype), 0.0, 0.0, "densities left as they are")
    m = len(fc) * qs[0]
    close(complex(np.sum(Sc) * qs[0]), complex(np.sum(S[:m])), 1e-9, 1e-11 * m * scale_of(S), "energy of the complete bands")
    return qs[0] >= 2 and len(fc) > 0, [
        c["kind"],
        "bins per band: " + ("1" if qs[0] == 1 else "2-9" if qs[0] < 10 else "10+"),
        "incomplete last band" if n % qs[0] else "whole bands",
        "no band" if len(fc) == 0 else "bands",
    ]


@sub("C03", st.fixed_dictionaries(dict(a=faxes(8, 300, HUGE), salt=salts(), q1=ints(1, 6), q2=ints(1, 5))), 700)
def repeated(c):
    """Averaging in two steps is averaging in one step, on the bands both have."""
    f = build_faxis(c["a"])
    n = len(f)
    S = np.abs(cnoise(c["salt"], n))
    df = f[1] - f[0]
    q1, q2 = c["q1"], c["q2"]
    f1, S1 = cs.frequency_averaging(f, S, q1 * df)
    if len(f1) < 2:
        return False, []
    f2, S2 = cs.frequency_averaging(f1, S1, q2 * (f1[1] - f1[0]))
    f3, S3 = cs.frequency_averaging(f, S, q1 * q2 * df)
    f2, f3 = vec(f2, None), vec(f3, None)
    expect(len(f2) == len(f3), f"{len(f2)} bands in two steps ({q1}, {q2}), {len(f3)} in one, of {n} bins")
    close(f2, f3, 1e-10, 1e-12 * df, "frequencies")
    close(vec(S2, len(f2)), vec(S3, len(f2)), 1e-10, 0.0, "densities")
    return q1 > 1 and q2 > 1 and len(f2) > 0, []
