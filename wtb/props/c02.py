from hypothesis import strategies as st

from wtb.core import close, expect, info, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import band_average, bands_used, band_counts, dft_at
from wtb.sut import Series, core_spectral as cs

info(
    "C02",
    "Records as in C01, with a requested resolution drawn as multiple of the resolution of the record (0, below"
    " half, around whole multiples, wider than the axis). Non-trivial: the record has energy between zero and"
    " Nyquist.",
    ["Density at f = 0 and at the Nyquist frequency may be counted once or twice (the folded spectrum of the tool"
     " counts them twice); only 0 < f < Nyquist is compared with the variance of the component."],
)


def _fine(t, x, f, S, what, twice=False):
    """Checks the spectrum on the finest axis against the Fourier components; returns (df, reference)."""
    n = len(x)
    m = n // 2 + 1
    dt = (t[-1] - t[0]) / (n - 1)
    df = 1.0 / (n * dt)
    f, S = vec(f, m, what + " frequencies"), vec(S, m, what + " densities")
    close(f, np.arange(m) * df, 1e-9 + 8 * float(np.spacing(np.max(np.abs(t)))) / dt, 0.0, what + " frequencies")
    expect(np.all(S >= 0), what + " density is negative")
    a2 = float(np.sum(np.abs(x)) ** 2)
    ks = np.arange(m) if n <= 256 else np.array(sorted({0, 1, 2, m - 2, m - 1} | {(7 * j * j + 3) % m for j in range(12)}))
    X = dft_at(x, ks)
    ref = 2.0 * np.abs(X) ** 2 / (df * n * n)
    tol = 1e-10 * a2 / (df * n * n) * 1e-2
    rt = 1e-9 + 1e-12 * n + 16 * float(np.spacing(np.max(np.abs(t)))) / dt
    for j, k in enumerate(ks):
        if k == 0 or 2 * k == n:
            expect(
                abs(S[k] - ref[j]) <= tol + rt * ref[j] or abs(S[k] - ref[j] / 2) <= tol + rt * ref[j],
                f"{what}: density {S[k]!r} at bin {k} of {n} samples, expected {ref[j]!r} or half of it",
            )
        else:
            close(S[k], ref[j], rt, tol, f"{what}: density at bin {k} of {n} samples")
    return df, f, S


_recs = records(2, 400, HUGE)


@sub("C02", st.fixed_dictionaries(dict(r=records(2, 400, GIANT))), 1500)
def energy_per_component(c):
    t, x = build_record(c["r"])
    n = len(t)
    f, S = pair(cs.compute_spectrum_time_series(t.copy(), x.copy()))
    df, f, S = _fine(t, x, f, S, "compute_spectrum_time_series")
    # Parseval: without the mean and the Nyquist component the density integrates to the variance
    k = np.arange(len(f))
    inner = (k > 0) & (2 * k != n)
    v = np.mean((x - np.mean(x)) ** 2)
    if n % 2 == 0:
        nyq = np.sum(x * (-1.0) ** np.arange(n)) / n
        v = v - nyq**2
    close(
        float(np.sum(S[inner]) * (f[1] - f[0])), float(v), 1e-8, 1e-12 * (scale_of(x) ** 2 + 1e-300), "integral of the density and variance"
    )
    return bool(np.any(S[inner] > 0)), ["odd" if n % 2 else "even"]


@st.composite
def _with_resolution(draw):
    r = draw(_recs)
    a = r["axis"]
    m = a["n"] // 2 + 1
    q = draw(
        st.one_of(
            st.just(0.0),
            floats(0.01, 0.45),
            floats(0.55, 3.0),
            ints(1, max(2, m // 2)).map(float),
            ints(1, max(2, m // 2)).flatmap(lambda k: floats(-0.4, 0.4).map(lambda e: k + e)),
            floats(1.0, 1.5 * m),
        )
    )
    return dict(r=r, q=q)


@sub("C02", _with_resolution(), 1500)
def resolution_and_routes(c):
    """Record, Fourier coefficients and Series give the same spectrum; a coarse one averages the fine one."""
    t, x = build_record(c["r"])
    n = len(t)
    f0, X, odd = cs.time2freq_nyquist(t, x)
    df = f0[1] - f0[0]
    want_df = c["q"] * df
    fa, Sa = pair(cs.compute_spectrum_time_series(t.copy(), x.copy(), want_df))
    fb, Sb = pair(cs.compute_spectrum_freq_series(f0.copy(), X.copy(), n, want_df))
    fa, Sa = vec(fa, None), vec(Sa, len(fa))
    fb, Sb = vec(fb, len(fa)), vec(Sb, len(fa))
    top = scale_of(Sa)
    close(fb, fa, 1e-12, 0.0, "frequencies from the record and from its coefficients")
    close(Sb, Sa, 1e-10, 1e-14 * top, "densities from the record and from its coefficients")
    # against averaging the fine spectrum, which the other check compares with the components
    ff, Sf = cs.compute_spectrum_time_series(t, x)
    _, ff, Sf = _fine(t, x, ff, Sf, "compute_spectrum_time_series")
    qs = [q for q in band_counts(want_df, df, len(ff)) if len(ff) // q == len(fa)]
    expect(qs, f"{len(fa)} bands out of {len(ff)} bins for a ratio of {c['q']}")
    qs = bands_used(qs, ff, fa)
    q = qs[0]
    wf, wS = band_average(ff, Sf, q)
    close(fa, wf, 1e-9, 1e-12 * df, "frequencies of the bands")
    close(Sa, wS, 1e-9, 1e-12 * scale_of(Sf), "densities of the bands")
    m = len(fa) * q
    close(float(np.sum(Sa) * q), float(np.sum(Sf[:m])), 1e-9, 1e-12 * scale_of(Sf), "energy of the bands")
    labels = ["bins per band: " + ("1" if q == 1 else "2-9" if q < 10 else "10+")]
    if len(fa) >= 2:
        sp = Series(t.copy(), x.copy()).get_spectrum_raw(want_df)
        close(vec(sp.f, len(fa), "Series.get_spectrum_raw f"), fa, 1e-12, 0.0, "Series.get_spectrum_raw frequencies")
        close(vec(sp.sVarDens, len(fa)), Sa, 1e-10, 1e-14 * top, "Series.get_spectrum_raw densities")
        labels.append("through Series")
    return bool(np.any(x != x[0])), labels


@sub("C02", st.fixed_dictionaries(dict(r=records(20, 400, HUGE, dt=st.sampled_from([0.1, 0.2, 0.25, 0.5, 1.0, 0.4])))), 500)
def default_resolution(c):
    """Without argument, the Series spectrum has a resolution of 0.01 Hz."""
    t, x = build_record(c["r"])
    ff, Sf = cs.compute_spectrum_time_series(t, x)
    df = ff[1] - ff[0]
    if any(len(ff) // q < 2 for q in band_counts(0.01, df, len(ff))):
        return False, ["too short"]
    sp = Series(t.copy(), x.copy()).get_spectrum_raw()
    f, S = vec(sp.f, None), vec(sp.sVarDens, None)
    ok = [q for q in band_counts(0.01, df, len(ff)) if len(ff) // q == len(f)]
    expect(ok, f"{len(f)} bands out of {len(ff)} bins of {df} Hz")
    ok = bands_used(ok, ff, f)
    wf, wS = band_average(ff, Sf, ok[0])
    close(f, wf, 1e-9, 1e-12 * df, "frequencies")
    close(S, wS, 1e-9, 1e-12 * scale_of(Sf), "densities")
    return bool(np.any(x != x[0])), ["averaged" if ok[0] > 1 else "fine"]


@sub("C02", st.fixed_dictionaries(dict(n=sizes(2, 300, HUGE), salt=salts(), df=logfloats(1e-4, 1.0), k=st.integers(-4, 4), first=st.one_of(st.just(0), st.just(0), ints(1, 9)), last=st.one_of(st.just(0), ints(0, 9)))), 700)
def from_coefficients(c):
    """The density of given Fourier coefficients, with an axis that need not belong to a record."""
    n, df = c["n"], c["df"]
    m = n // 2 + 1
    k = np.arange(m)
    if c["first"] + c["last"] + 2 <= m:
        # a band of the components only
        k = k[c["first"] : m - c["last"]]
    m = len(k)
    X = cnoise(c["salt"], m) * 10.0 ** c["k"]
    f = k * df
    fg, Sg = pair(cs.compute_spectrum_freq_series(f.copy(), X.copy(), n))
    close(vec(fg, m), f, 1e-12, 0.0, "frequencies")
    Sg = vec(Sg, m, "densities")
    ref = 2 * np.abs(X) ** 2 / (df * n * n)
    inner = (k > 0) & (2 * k != n)
    close(Sg[inner], ref[inner], 1e-9, 0.0, "densities")
    for j in np.flatnonzero(~inner):
        expect(
            abs(Sg[j] - ref[j]) <= 1e-9 * ref[j] or abs(Sg[j] - ref[j] / 2) <= 1e-9 * ref[j],
            f"density {Sg[j]!r} at bin {j}, expected {ref[j]!r} or half of it",
        )
    return True, []
