from hypothesis import strategies as st

from wtb.core import close, expect, info, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import band_average, band_counts
from wtb.sut import core_spectral as cs

info(
    "C22",
    "Pairs of complex coefficients on 4..300 or up to 5001 bins (noise, of very different sizes, partly coherent, Fourier coefficients of records,"
    " with empty parts), requested spacings from none to a third of the axis, complex constants. Non-trivial: bands of"
    " two or more bins with energy.",
    ["Exact values are compared for bands whose averaged auto-spectra exceed 1e-9: below 1e-10 a band counts as empty."],
)


@st.composite
def _cases(draw):
    a = draw(faxes(4, 300, (1000, 1024, 5001)))
    n = a["n"]
    return dict(
        axis=a,
        kind=draw(st.sampled_from(["noise", "mixed", "mixed", "record", "real", "wide", "lists"] if n <= 40 else ["noise", "mixed", "record", "real", "wide"])),
        salt=draw(salts()),
        mix=draw(floats(0.0, 1.0)),
        v=draw(st.lists(st.integers(-3, 3), min_size=4 * n, max_size=4 * n)) if n <= 40 else None,
        k=draw(st.one_of(st.just(0.0), floats(0.1, 3.0), floats(2.0, max(2.1, n / 3.0)), ints(2, max(2, n // 3)).map(float))),
        scale=draw(st.one_of(st.just(1.0), logfloats(4e-5, 1e5))),
        empty=draw(st.one_of(st.none(), st.none(), st.sampled_from(["first", "second", "both"]))),
        at=draw(floats(0.0, 1.0)),
    )


def _build(c):
    n = c["axis"]["n"]
    f = build_faxis(c["axis"])
    Z = cnoise(c["salt"], 3 * n)
    X, Y = Z[:n].copy(), Z[n : 2 * n].copy()
    k = c["kind"]
    if k == "mixed":
        Y = c["mix"] * X * (1 + 0.5j) + (1 - c["mix"]) * Y
    elif k == "record":
        x = Z[:n].real
        y = c["mix"] * np.roll(x, 2) + (1 - c["mix"]) * Z[n : 2 * n].real
        m = 2 * n - 1
        X, Y = np.fft.fft(np.concatenate([x, x[:-1]]))[:n], np.fft.fft(np.concatenate([y, y[:-1]]))[:n]
    elif k == "wide":
        # coefficients of very different sizes
        X, Y = X * 10.0 ** (-3 * np.abs(Z[2 * n :].real)), Y * 10.0 ** (-3 * np.abs(Z[2 * n :].imag))
    elif k == "real":
        X, Y = X.real.copy(), Y.real.copy()
    elif k == "lists":
        v = np.array(c["v"], float)
        X, Y = v[:n] + 1j * v[n : 2 * n], v[2 * n : 3 * n] + 1j * v[3 * n :]
    X, Y = X * c["scale"], Y * c["scale"]
    if c["empty"]:
        i = int(c["at"] * n)
        for Q, w in ((X, "first"), (Y, "second")):
            if c["empty"] in (w, "both"):
                Q[max(0, i - n // 4) : i + n // 4 + 1] = 0.0
    return f, X, Y


def _reference(f, X, Y, q):
    fb, s11 = band_average(f, np.abs(X) ** 2, q)
    _, s22 = band_average(f, np.abs(Y) ** 2, q)
    _, s12 = band_average(f, X * np.conj(Y), q)
    with np.errstate(all="ignore"):
        return fb, np.abs(s12) ** 2 / (s11 * s22), s11, s22


def _call(f, X, Y, df, what="coherence"):
    r = cs.coherence(f, X, Y) if df is None else cs.coherence(f, X, Y, df)
    g, c2 = pair(r, what)
    g = vec(g, None, what + " frequencies")
    return g, vec(c2, len(g), what)


@sub("C22", _cases(), 2000)
def definition(c):
    f, X, Y = _build(c)
    n, step = len(f), c["axis"]["df"]
    df = c["k"] * step
    g, c2 = _call(f.copy(), X.copy(), Y.copy(), df)
    qs = [q for q in band_counts(df, step, n) if n // q == len(g)]
    expect(qs, f"{len(g)} bands for {n} bins and spacing {c['k']} bins")
    expect(np.all(np.isfinite(c2)), f"not finite: {c2!r}")
    expect(np.all(c2 >= 0) and np.all(c2 <= 1 + 1e-10), f"outside 0..1: {c2[~((c2 >= 0) & (c2 <= 1 + 1e-10))][:5]!r}")
    q = qs[0] if len(qs) == 1 else min(qs, key=lambda v: abs(_reference(f, X, Y, v)[0][0] - g[0]))
    fb, want, s11, s22 = _reference(f, X, Y, q)
    close(g, fb, 1e-10, 1e-12 * scale_of(f), "frequencies of the coherence")
    live = (s11 > 1e-9) & (s22 > 1e-9)
    close(c2[live], want[live], 1e-9, 1e-11, "coherence")
    dead = (s11 == 0) | (s22 == 0)
    close(c2[dead], np.zeros(int(np.sum(dead))), 0.0, 1e-12, "coherence of a band without energy")
    if c["k"] == 0.0:
        g0, c0 = _call(f, X, Y, None)
        close(c0, c2, 0.0, 0.0, "coherence with the default spacing")
    return bool(np.any(live)) and q >= 2, [c["kind"], "bins per band: " + ("1" if q == 1 else "2-9" if q < 10 else "10+"), "empty part" if c["empty"] else "energy everywhere"]


@sub("C22", st.fixed_dictionaries(dict(c=_cases(), a=logfloats(0.2, 50.0), pa=floats(-3.1, 3.1), b=logfloats(0.2, 50.0), pb=floats(-3.1, 3.1))), 1000)
def symmetry_and_scaling(c):
    a, b = c["a"] * np.exp(1j * c["pa"]), c["b"] * np.exp(1j * c["pb"])
    c = dict(c["c"])
    c["scale"] = max(c["scale"], 0.1)
    f, X, Y = _build(c)
    n, step = len(f), c["axis"]["df"]
    df = c["k"] * step
    g, c2 = _call(f, X, Y, df)
    live = np.ones(len(g), bool)
    q = n // len(g) if len(g) else 1
    for q in band_counts(df, step, n):
        if n // q == len(g):
            _, _, s11, s22 = _reference(f, X, Y, q)
            live &= (s11 > 1e-7) & (s22 > 1e-7)
    _, d2 = _call(f, Y, X, df)
    close(d2, c2, 1e-10, 1e-13, "coherence of the exchanged signals")
    _, d2 = _call(f, a * X, b * Y, df)
    close(d2[live], c2[live], 1e-9, 1e-12, "coherence of the scaled signals")
    _, d2 = _call(f, np.conj(X), np.conj(Y), df)
    close(d2, c2, 1e-10, 1e-13, "coherence of the conjugated signals")
    for Z, what in ((a * X, "a multiple of"), (X, "exactly")):
        _, d2 = _call(f, X, Z, df)
        for q in band_counts(df, step, n):
            if n // q == len(g):
                _, _, s11, s22 = _reference(f, X, Z, q)
                full = (s11 > 1e-7) & (s22 > 1e-7)
                close(d2[full], np.ones(int(np.sum(full))), 0.0, 1e-10, f"coherence with {what} itself")
    return bool(np.any(live)), []
