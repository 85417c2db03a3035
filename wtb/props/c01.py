from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import dft_at
from wtb.sut import Series, core_spectral as cs

info(
    "C01",
    "Records are generated as (start time, step, length 2..400 or up to 100003, sample values: lists with zeros,"
    " small alphabets, sums of sines, noise, spikes; scales 1e-6..1e5, offsets). Non-trivial: at least one"
    " sample differs from zero.",
    ["numpy's fft is trusted only as implementation detail of the code under test: coefficients are compared with"
     " the defining sum at all bins (n <= 256) or at sampled bins (larger n)."],
)


def _ftol(t, dt):
    return 1e-9 + 8 * float(np.spacing(np.max(np.abs(t)))) / dt


def _bins(n, salt):
    if n <= 256:
        return list(range(n))
    r = np.random.Generator(np.random.PCG64(salt))
    return sorted({0, 1, 2, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1} | set(int(k) for k in r.integers(0, n, 12)))


def _check_coefficients(t, x, f, X, fold, what):
    n = len(x)
    dt = (t[-1] - t[0]) / (n - 1)
    m = n // 2 + 1 if fold else n
    f = vec(f, m, what + " frequencies")
    X = vec(X, m, what + " coefficients", kind="c")
    close(f, np.arange(m) / (n * dt), _ftol(t, dt), 0.0, what + " frequencies")
    ks = [k for k in _bins(n, 5) if k < m]
    a = np.sum(np.abs(x)) + 1e-300
    close(X[ks], dft_at(x, ks), 0.0, 1e-11 * a, what + " coefficients")
    return f, X


_recs = st.fixed_dictionaries(dict(r=records(2, 400, HUGE)))
_long = st.fixed_dictionaries(dict(r=records(2, 400, GIANT)))


@sub("C01", _long, 1500)
def unfolded(c):
    t, x = build_record(c["r"])
    n = len(t)
    f, X = pair(cs.time2freq(t.copy(), x.copy()))
    f, X = _check_coefficients(t, x, f, X, False, "time2freq")
    # symmetry of the transform of a real record
    close(X[1:], np.conj(X[1:][::-1]), 0.0, 1e-11 * np.sum(np.abs(x)), "conjugate symmetry")
    y = vec(cs.freq2time(X), n, "freq2time")
    close(y, x, 0.0, 1e-12 * scale_of(x), "record after time2freq and freq2time")
    return bool(np.any(x != 0)), ["odd" if n % 2 else "even", "n>=1000" if n >= 1000 else "n<1000"]


@sub("C01", _long, 1500)
def folded(c):
    t, x = build_record(c["r"])
    n = len(t)
    f, X, odd = pair(cs.time2freq_nyquist(t.copy(), x.copy()), n=3)
    f, X = _check_coefficients(t, x, f, X, True, "time2freq_nyquist")
    expect(bool(odd) == bool(n % 2), f"odd flag {odd!r} for {n} samples")
    fu, Xu = pair(cs.unfold_spectrum(f, X, odd))
    fu = vec(fu, n, "unfolded frequencies")
    Xu = vec(Xu, n, "unfolded coefficients", kind="c")
    dt = (t[-1] - t[0]) / (n - 1)
    close(fu, np.arange(n) / (n * dt), _ftol(t, dt), 0.0, "unfolded frequencies")
    close(Xu[: len(X)], X, 0.0, 1e-11 * np.sum(np.abs(x)), "unfolded coefficients up to Nyquist")
    close(Xu[1:], np.conj(Xu[1:][::-1]), 0.0, 1e-11 * np.sum(np.abs(x)), "conjugate symmetry of the unfolded coefficients")
    y = vec(cs.freq2time(Xu), n, "freq2time")
    close(y, x, 0.0, 1e-12 * scale_of(x), "record after time2freq_nyquist, unfold_spectrum and freq2time")
    return bool(np.any(x != 0)), ["odd" if n % 2 else "even", "n>=1000" if n >= 1000 else "n<1000"]


@sub("C01", _recs, 700)
def series_components(c):
    t, x = build_record(c["r"])
    n = len(t)
    s = Series(t.copy(), x.copy())
    f, X, odd = pair(s.get_fourier_comp(), n=3)
    _check_coefficients(t, x, f, X, True, "Series.get_fourier_comp")
    expect(bool(odd) == bool(n % 2), f"odd flag {odd!r} for {n} samples")
    f2, X2, odd2 = cs.time2freq_nyquist(t, x)
    close(vec(f, None), vec(f2, None), 1e-12, 0.0, "Series frequencies")
    close(vec(X, None, kind="c"), vec(X2, None, kind="c"), 0.0, 1e-13 * np.sum(np.abs(x)), "Series coefficients")
    return bool(np.any(x != 0)), ["odd" if n % 2 else "even"]


@sub("C01", st.fixed_dictionaries(dict(r=records(2, 300, HUGE, t0=False), shift=floats(-1e4, 1e4))), 500)
def start_time(c):
    """The coefficients do not depend on the start time."""
    t, x = build_record(c["r"])
    f0, X0, odd0 = cs.time2freq_nyquist(t, x)
    f1, X1, odd1 = cs.time2freq_nyquist(t + c["shift"], x)
    n = len(t)
    m = n // 2 + 1
    close(vec(X1, m, kind="c"), vec(X0, m, kind="c"), 0.0, 1e-13 * np.sum(np.abs(x)), "coefficients of the shifted record")
    tol = _ftol(t + c["shift"], c["r"]["axis"]["dt"])
    close(vec(f1, m), vec(f0, m), tol, 0.0, "frequencies of the shifted record")
    fu0, Xu0 = cs.time2freq(t, x)
    fu1, Xu1 = cs.time2freq(t + c["shift"], x)
    close(vec(Xu1, n, kind="c"), vec(Xu0, n, kind="c"), 0.0, 1e-13 * np.sum(np.abs(x)), "unfolded coefficients of the shifted record")
    close(vec(fu1, n), vec(fu0, n), tol, 0.0, "unfolded frequencies of the shifted record")
    return bool(np.any(x != 0)) and c["shift"] != 0, []


@sub("C01", st.fixed_dictionaries(dict(n=sizes(2, 400, GIANT), df=logfloats(1e-4, 1.0), salt=salts(), k=st.integers(-6, 6))), 600)
def from_frequency_domain(c):
    """Any folded coefficients (real at zero and Nyquist) belong to one real record: unfolding and
    transforming back gives its values, and transforming that record gives the coefficients again."""
    n = c["n"]
    m = n // 2 + 1
    X = cnoise(c["salt"], m) * 10.0 ** c["k"]
    X[0] = X[0].real
    if n % 2 == 0:
        X[-1] = X[-1].real
    f = np.arange(m) * c["df"]
    fu, Xu = pair(cs.unfold_spectrum(f.copy(), X.copy(), bool(n % 2)))
    fu, Xu = vec(fu, n, "unfolded frequencies"), vec(Xu, n, "unfolded coefficients", kind="c")
    close(fu, np.arange(n) * c["df"], 1e-9, 0.0, "unfolded frequencies")
    want = np.zeros(n, dtype=complex)
    want[:m] = X
    for k in range(m, n):
        want[k] = np.conj(X[n - k])
    close(Xu, want, 0.0, 0.0, "unfolded coefficients")
    y = vec(cs.freq2time(Xu), n, "freq2time")
    a = np.sum(np.abs(want))
    i = np.arange(n)
    for j in (range(n) if n <= 40 else sorted({0, 1, n // 2, n - 1, c["salt"] % n})):
        v = np.sum(want * np.exp(2j * np.pi * ((i * j) % n) / n)).real / n
        close(num(y[j]), v, 0.0, 1e-11 * a / n, f"sample {j} of the record")
    t = np.arange(n) / (n * c["df"])
    f2, X2, odd = cs.time2freq_nyquist(t, y)
    close(vec(X2, m, kind="c"), X, 0.0, 1e-11 * a, "coefficients of the synthesised record")
    return True, ["odd" if n % 2 else "even"]
