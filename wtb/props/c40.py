from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import Series, core_spectral as cs, core_time as ct

info(
    "C40",
    "Records of 2..400 or up to 4999 samples on any time axis, with zeros only where they lie single between values of"
    " opposite signs, and the same samples in the opposite order on the same axis. Non-trivial: for waves, at least one"
    " wave; for the other analyses, a record that is not constant.",
    ["A zero that touches the level without crossing it, or several zeros in a row, count differently in the two"
     " directions (first and last zero), so that records with such zeros are left out.",
     "Of equal highest (lowest) samples of a wave the time of the first is given; mirrored times are required where there is only one.",
     "Welch spectra are compared for segments that fill the record and the boxcar window (the other windows are periodic, not symmetric)."],
)

KINDS = ("list", "alpha", "sines", "noise", "waves", "waves", "steps", "wide", "spike")


def _usable(x):
    z = np.flatnonzero(x == 0)
    if len(z) == 0:
        return True
    if z[0] == 0 or z[-1] == len(x) - 1:
        return False
    return bool(np.all(np.sign(x[z - 1]) * np.sign(x[z + 1]) < 0))


@sub("C40", st.fixed_dictionaries(dict(r=records(2, 400, BIG, kinds=KINDS), kind=st.sampled_from(["down", "up"]), level=st.sampled_from([0.0, 0.0, 1e-3, -0.3, 0.7]))), 1500)
def waves(c):
    t, x = build_record(c["r"])
    n = len(t)
    x = x + c["level"] * (float(np.std(x)) if n > 2 else 0.0)
    eps = 1e-9 + 4 * time_noise(t) / float(t[1] - t[0])
    if not _usable(x) or near_sample(x, eps) or near_sample(x[::-1], eps):
        return False, ["zeros or crossings next to a sample"]
    y = x[::-1].copy()
    end = float(t[0]) + float(t[-1])
    u = end - t[::-1]
    kind, other = c["kind"], "up" if c["kind"] == "down" else "down"
    n0, t0 = pair(ct.determine_zero_crossing(t.copy(), x.copy(), kind))
    n1, t1 = pair(ct.determine_zero_crossing(u.copy(), y.copy(), other))
    t0 = vec(t0)
    t1 = vec(t1, len(t0), f"{other}-crossings of the record run backwards")
    expect(num(n0) == num(n1), f"{n0!r} waves, {n1!r} when run backwards")
    tol = 16 * time_noise(t)
    close(t1, (end - t0)[::-1], 0.0, tol, "crossings of the record run backwards")
    w0 = pair(ct.determine_params_individual_waves(t0, t.copy(), x.copy()), n=6)
    w1 = pair(ct.determine_params_individual_waves(t1, u.copy(), y.copy()), n=6)
    m = max(len(t0) - 1, 0)
    w0 = [vec(v, m) for v in w0]
    w1 = [vec(v, m)[::-1] for v in w1]
    for name, a, b, tl in zip(("heights", "periods", "crests", "troughs"), w0, w1, (0.0, tol, 0.0, 0.0)):
        close(b, a, 0.0, tl, f"{name} of the waves run backwards")
    for k in range(m):
        q = (t >= t0[k]) & (t <= t0[k + 1])
        for j, v in ((4, w0[2][k]), (5, w0[3][k])):
            if np.sum(x[q] == v) == 1:
                close(w1[j][k], end - w0[j][k], 0.0, tol, f"crest or trough time of wave {k} run backwards")

    # the statistics of the object: down-waves of the record, up-waves of the one run backwards
    a, b = Series(t.copy(), x.copy()), Series(u.copy(), y.copy())
    if hasattr(b, "_determine_individual_waves"):
        b._determine_individual_waves("up")
        expect(num(a.nwave) == num(b.nwave), f"{a.nwave!r} waves, {b.nwave!r} when run backwards")
        close(vec(b.hwave, a.nwave)[::-1], vec(a.hwave), 0.0, 0.0, "wave heights of the Series run backwards")
        if a.nwave:
            close(num(b.get_Hrms()), num(a.get_Hrms()), 1e-12, 0.0, "Hrms")
            close(num(pair(b.get_Hs())[0]), num(pair(a.get_Hs())[0]), 1e-12, 0.0, "Hs")
            close(num(b.get_exceedance_waveheight(10.0)), num(a.get_exceedance_waveheight(10.0)), 0.0, 0.0, "exceeded height")
    return m > 0, [kind, "zeros" if np.any(x == 0) else "no zeros"]


@sub("C40", st.fixed_dictionaries(dict(
    r=records(3, 400, HUGE, kinds=KINDS), other=salts(), df=st.one_of(st.just(0.0), floats(1.0, 9.0)), lo=floats(-0.1, 1.0), hi=floats(0.0, 1.3), parts=ints(1, 8), lap=floats(0.0, 0.8),
)), 1200)
def analyses(c):
    t, x = build_record(c["r"])
    n = len(t)
    y = x[::-1].copy()
    sx = scale_of(x)
    dt = float(t[-1] - t[0]) / (n - 1)
    df = 1.0 / (n * dt)
    a, b = Series(t.copy(), x.copy()), Series(t.copy(), y.copy())
    for name in ("max", "min"):
        close(num(getattr(b, name)()), num(getattr(a, name)()), 0.0, 0.0, name)
    close(num(b.mean()), num(a.mean()), 1e-12, 1e-13 * sx, "mean")
    close(num(b.var()), num(a.var()), 1e-9, 1e-24 * sx**2 * n, "variance")

    f, X, odd = pair(a.get_fourier_comp(), n=3)
    g, Y, odd2 = pair(b.get_fourier_comp(), n=3)
    X, Y = vec(X, n // 2 + 1, kind="c"), vec(Y, n // 2 + 1, kind="c")
    ph = np.exp(2j * np.pi * np.arange(n // 2 + 1) / n)
    close(Y, ph * np.conj(X), 0.0, 1e-11 * n * sx, "Fourier components of the record run backwards")
    close(vec(g), vec(f), 0.0, 0.0, "frequencies")

    want = c["df"] * df if n >= 40 else 0.0
    S = pair(cs.compute_spectrum_time_series(t.copy(), x.copy(), want))
    R = pair(cs.compute_spectrum_time_series(t.copy(), y.copy(), want))
    close(vec(R[0]), vec(S[0]), 0.0, 0.0, "frequencies of the density")
    close(vec(R[1]), vec(S[1]), 1e-9, 1e-12 * sx**2 * n * dt, "density of the record run backwards")
    p, q = a.get_spectrum_raw(want), b.get_spectrum_raw(want)
    close(vec(q.sVarDens), vec(p.sVarDens), 1e-9, 1e-12 * sx**2 * n * dt, "raw spectrum of the Series run backwards")

    lo, hi = c["lo"] * 0.5 / dt, c["hi"] * 0.5 / dt
    # limits off the components: rounding decides nothing
    if min(abs(v / df - round(v / df)) for v in (lo, hi)) > 1e-6:
        u = a.get_bandpassfilter(lo, hi)
        v = b.get_bandpassfilter(lo, hi)
        close(vec(v.xTime, n)[::-1], vec(u.xTime, n), 0.0, 1e-11 * sx, "filtered record run backwards")
        close(vec(v.time, n), vec(u.time, n), 0.0, 0.0, "time axis of the filtered record")

    z = build_signal(dict(kind="noise", salt=c["other"]), n)
    Z, V = np.fft.rfft(z), np.fft.rfft(z[::-1])
    fc, co = pair(cs.coherence(vec(f), X / max(sx, 1e-300), Z, want))
    gc, cp = pair(cs.coherence(vec(f), Y / max(sx, 1e-300), V, want))
    # (components that vanish but for rounding have no coherence)
    if sx > 0 and np.min(np.abs(X)) > 1e-6 * sx * n**0.5:
        close(vec(cp), vec(co), 1e-6, 1e-7, "coherence of two records run backwards")

    # segments that fill the record
    seg = n // c["parts"]
    if seg >= 4:
        step = max(1, seg - int(c["lap"] * seg))
        m = (n - seg) // step * step + seg
        P = pair(cs.compute_spectrum_welch_wrapper(x[:m].copy(), dt, nperseg=seg, noverlap=seg - step, window_type="boxcar"))
        if seg > step or m == n:
            Q = pair(cs.compute_spectrum_welch_wrapper(x[:m][::-1].copy(), dt, nperseg=seg, noverlap=seg - step, window_type="boxcar"))
            if seg > step:
                close(vec(Q[1]), vec(P[1]), 1e-9, 1e-12 * sx**2 * n * dt, "Welch density of the record run backwards")
    return bool(np.std(x) > 1e-9 * sx), ["odd" if odd else "even", "averaged" if want else "raw"]
