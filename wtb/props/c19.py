import math

from hypothesis import strategies as st

from wtb.core import close, expect, fail, info, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import Series, Spectrum, core_spectral as cs

info(
    "C19",
    "Records of 2..600 or up to 4999 samples, requested resolutions from below 1/duration to fs/2 and the default, and"
    " explicit segment lengths 2..n+50, overlaps 0..segment-1, FFT lengths, and windows hann, hamming, boxcar, blackman"
    " and bartlett. Reference: Welch's estimate by explicit sums. Non-trivial: a record that is not constant.",
    ["Explicit settings are valid ones: overlap below the segment length, FFT length at least the segment length.",
     "For an odd segment length half overlap may be rounded up or down, and a ratio fs/resolution half-way between two"
     " integers may be rounded either way.",
     "Requested resolutions above 2/3 of the sampling rate (segments of a single sample, without variance) are not generated."],
)

WINDOWS = ("hann", "hamming", "boxcar", "blackman", "bartlett")


def window(name, n):
    """Periodic window by its formula."""
    u = 2 * np.pi * np.arange(n) / n
    if name == "boxcar" or n == 1:
        return np.ones(n)
    if name == "hann":
        return 0.5 - 0.5 * np.cos(u)
    if name == "hamming":
        return 0.54 - 0.46 * np.cos(u)
    if name == "blackman":
        return 0.42 - 0.5 * np.cos(u) + 0.08 * np.cos(2 * u)
    return 1.0 - np.abs(2.0 * np.arange(n) / n - 1.0)


def welch(x, dt, nper, nover, nfft, name):
    w = window(name, nper)
    step = nper - nover
    P = 0.0
    m = 0
    for i in range(0, len(x) - nper + 1, step):
        s = x[i : i + nper]
        X = np.fft.fft((s - np.sum(s) / nper) * w, nfft)[: nfft // 2 + 1]
        P = P + np.abs(X) ** 2
        m += 1
    P = P * dt / np.sum(w**2) / m
    P[1:] *= 2.0
    if nfft % 2 == 0:
        P[-1] /= 2.0
    return np.arange(nfft // 2 + 1) / (nfft * dt), P


def roundings(v):
    return sorted({int(math.floor(v + 0.5 + e)) for e in (-1e-9 * max(v, 1), 1e-9 * max(v, 1))})


def _options(x, dt, segs, nover, nfft, name):
    out = []
    for s in segs:
        s = min(s, len(x)) if s else min(256, len(x))
        halves = {s // 2, (s + 1) // 2} if not nover else {nover}
        for h in halves:
            out.append(welch(x, dt, s, min(h, s - 1), nfft or s, name))
    return out


def _matches(f, S, opts, x, dt, what):
    f, S = vec(f, None, what + " frequencies"), vec(S, None, what + " densities")
    expect(np.all(S >= 0), what + ": negative density")
    msg = None
    for wf, wS in opts:
        if len(f) != len(wf):
            msg = msg or f"{what}: {len(f)} frequencies instead of {len(wf)}"
            continue
        try:
            close(f, wf, 1e-9, 0.0, what + " frequencies")
            close(S, wS, 1e-9, 1e-13 * (scale_of(wS) + dt * scale_of(x) ** 2), what + " densities")
            return
        except Exception as e:
            msg = str(e)
    fail(msg)


@st.composite
def _cases(draw):
    r = draw(records(2, 600, HUGE))
    n, dt = r["axis"]["n"], r["axis"]["dt"]
    mode = draw(st.sampled_from(["df", "df", "df", "explicit", "explicit", "default", "series-default"]))
    c = dict(r=r, mode=mode, window=draw(st.sampled_from(("hann", "hann") + WINDOWS)))
    if mode == "df":
        # in units of 1/duration
        k = draw(st.one_of(floats(0.1, 1.5), floats(1.0, max(2.0, n / 2.0)), ints(1, max(2, n // 2)).map(float), logfloats(1.0, max(2.0, n / 2.0))))
        if draw(st.booleans()):
            # a resolution that gives a segment of a round (or any) number of samples
            seg = [q for q in (2, 3, 4, 8, 16, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024, 2000, 2048, 2050, 3000, 4096, 5000, 6000, 8192, 10000, 16384) if q <= n]
            k = n / draw(st.one_of(ints(2, n), st.sampled_from(seg), st.sampled_from(seg[-3:])).map(float))
        c["df"] = k
    elif mode == "explicit":
        seg = draw(st.one_of(st.just(0), ints(2, n + 50), ints(2, n + 50), ints(2, min(n, 40))))
        real = min(seg, n) if seg else min(256, n)
        c["seg"] = seg
        c["over"] = draw(st.one_of(st.just(0), ints(0, real - 1)))
        c["fft"] = draw(st.one_of(st.just(0), st.just(0), st.just(real), ints(max(real, seg), max(real, seg) + 60)))
    elif mode == "series-default":
        # sampling rates for which the default of 0.01 Hz gives several segments
        r["axis"]["dt"] = draw(st.sampled_from([1.0, 0.5, 2.0, 4.0, 10.0]))
    return c


@sub("C19", _cases(), 2000)
def standard_estimate(c):
    t, x = build_record(c["r"])
    dt = c["r"]["axis"]["dt"]
    n = len(x)
    w = c["window"]
    mode = c["mode"]
    s = Series(t, x)
    dtr = float(s.dt)
    labels = [mode]
    if mode in ("df", "series-default"):
        df = c["df"] / (n * dt) if mode == "df" else 0.01
        segs = [max(1, min(q, n)) for q in roundings(1 / dtr / df)]
        if min(segs) < 2:
            return False, ["segments of one sample"]
        if mode == "df":
            r = s.get_spectrum(dfDesired=df, windows_type=w) if w != "hann" else s.get_spectrum(dfDesired=df)
        else:
            w = "hann"
            r = s.get_spectrum()
        opts = _options(x, dtr, segs, 0, 0, w)
        expect(isinstance(r, Spectrum), f"get_spectrum returned {type(r)}")
        _matches(r.f, r.sVarDens, opts, x, dt, "get_spectrum")
        labels.append("one segment" if segs[0] == n else "odd segments" if segs[0] % 2 else "even segments")
    elif mode == "default":
        f, S = pair(cs.compute_spectrum_welch_wrapper(x, dt), "compute_spectrum_welch_wrapper")
        _matches(f, S, _options(x, dt, [0], 0, 0, "hann"), x, dt, "compute_spectrum_welch_wrapper")
    else:
        seg, over, nfft = c["seg"], c["over"], c["fft"]
        f, S = pair(cs.compute_spectrum_welch_wrapper(x, dt, seg, over, nfft, w), "compute_spectrum_welch_wrapper")
        _matches(f, S, _options(x, dt, [seg], over, nfft, w), x, dt, "compute_spectrum_welch_wrapper")
        r = s.get_spectrum(nperseg=seg, noverlap=over, nfft=nfft, windows_type=w, use_dfDesired=False)
        _matches(r.f, r.sVarDens, _options(x, dtr, [seg], over, nfft, w), x, dt, "get_spectrum with explicit settings")
        r = s.get_spectrum(seg, over, nfft, w, 0.37, False)
        _matches(r.f, r.sVarDens, _options(x, dtr, [seg], over, nfft, w), x, dt, "get_spectrum with explicit settings (positional)")
        labels += ["segment beyond the record"] if seg > n else []
        labels += ["zero padding"] if nfft > (min(seg, n) or 256) else []
    return scale_of(x - np.mean(x)) > 0, labels


@sub("C19", st.fixed_dictionaries(dict(r=records(2, 400, HUGE), k=st.one_of(floats(0.2, 4.0), floats(2.0, 40.0)), off=floats(-100.0, 100.0), a=st.sampled_from([2.0, 0.5, 3.0, -1.0, 1e-3]))), 800)
def offset_and_amplitude(c):
    t, x = build_record(c["r"])
    n, dt = len(x), c["r"]["axis"]["dt"]
    k = min(c["k"], n / 2.0)
    df = k / (n * dt)
    sc = scale_of(x)
    off = c["off"] * (sc if sc > 0 else 1.0)

    def spec(y):
        o = Series(t, y).get_spectrum(dfDesired=df)
        return vec(o.f), vec(o.sVarDens)

    if min(roundings(n / k)) < 2:
        return False, []
    f, S = spec(x)
    g, P = spec(x + off)
    # rounding of the offset signal, amplified by its squared size relative to the signal
    tol = 1e-12 * dt * (abs(off) + sc) * n * (sc + 1e-12 * (abs(off) + sc))
    close(g, f, 0.0, 0.0, "frequencies with an offset")
    close(P, S, 1e-7, tol, "densities with an offset")
    g, P = spec(c["a"] * x)
    close(g, f, 0.0, 0.0, "frequencies of the scaled record")
    close(P, c["a"] ** 2 * S, 1e-9, 1e-13 * c["a"] ** 2 * (scale_of(S) + dt * sc**2), "densities of the scaled record")
    return scale_of(x - np.mean(x)) > 0, ["one segment" if k <= 1 else "segments"]
