from hypothesis import strategies as st

from wtb.core import close, expect, info, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import dft_at
from wtb.sut import Series, core_spectral as cs

info(
    "C04",
    "Records of 2..400 (or up to 4999) samples and band edges drawn as bin number plus fraction, below zero, at"
    " zero, on bins, beyond Nyquist or infinite. Non-trivial: the band holds some but not all of the components.",
    ["A lower edge at or below zero says nothing about the mean: it may be kept or removed.",
     "Edges on a bin are only used in the adjacent-bands relation, as the last bits of the frequency axis decide there"
     " (the rule flow <= f < fhigh is checked on bins with exactly representable axes)."],
)


def _edge(v, n, df):
    return float("inf") if v == "inf" else v * df


@st.composite
def _edges(draw, n):
    """Band edges in bins, at least 0.05 bin away from any bin (so that rounding cannot matter)."""
    top = n // 2
    if top >= 3 and draw(ints(0, 2)):
        # a band inside the axis
        lo = draw(ints(0, top - 1))
        hi = draw(ints(lo, top))
        u, v = draw(floats(0.05, 0.95)), draw(floats(0.05, 0.95))
        return min(lo + u, hi + v), max(lo + u, hi + v)
    e = st.one_of(
        st.tuples(st.integers(0, top + 1), floats(0.05, 0.95)).map(lambda p: p[0] + p[1]),
        st.tuples(st.integers(max(0, top - 2), top + 1), floats(0.05, 0.95)).map(lambda p: p[0] + p[1]),
        st.sampled_from([-1.5, 0.0, 0.25, 0.75]),
        st.integers(top + 2, 3 * top + 5).map(lambda k: k + 0.5),
    )
    lo = draw(e)
    hi = draw(st.one_of(e, e, st.just("inf")))
    if hi != "inf" and hi < lo and draw(ints(0, 3)):
        # now and then the limits stay the wrong way round: no component fits
        lo, hi = hi, lo
    return lo, hi


@st.composite
def _cases(draw):
    r = draw(records(2, 400, HUGE))
    lo, hi = draw(_edges(r["axis"]["n"]))
    return dict(r=r, lo=lo, hi=hi)


def _mask(n, lo, hi):
    """Folded components inside the band; the last one also when the upper edge is at or above Nyquist."""
    k = np.arange(n // 2 + 1)
    h = float("inf") if hi == "inf" else hi
    m = (k >= lo) & (k < h)
    if h >= n / 2.0 and lo <= k[-1]:
        m[-1] = True
    return m


def _reference(x, mask):
    n = len(x)
    X = np.fft.rfft(x)
    y = np.zeros_like(X)
    y[mask] = X[mask]
    return np.fft.irfft(y, n)


def _compare(z, x, c, what):
    n = len(x)
    z = vec(z, n, what)
    mask = _mask(n, c["lo"], c["hi"])
    tol = 1e-11 * scale_of(x) * max(1.0, np.log2(n))
    if c["lo"] <= 0:
        # the mean may be kept or removed
        mask[0] = False
        want = _reference(x, mask)
        mean = np.mean(x)
        expect(
            min(np.max(np.abs(z - want)), np.max(np.abs(z - want - mean))) <= tol,
            lambda: f"{what}: not the components of the band, off by {np.max(np.abs(z - want))!r}",
        )
    else:
        close(z, _reference(x, mask), 0.0, tol, what)
        expect(abs(np.mean(z)) <= tol, f"{what}: mean {np.mean(z)!r} of the filtered record")
    return mask


@sub("C04", _cases(), 2500)
def record_filter(c):
    t, x = build_record(c["r"])
    n = len(t)
    df = 1.0 / (n * (t[-1] - t[0]) / (n - 1))
    lo, hi = _edge(c["lo"], n, df), _edge(c["hi"], n, df)
    z = cs.bandpassfilter(t.copy(), x.copy(), lo, hi)
    mask = _compare(z, x, c, "bandpassfilter")
    labels = ["odd" if n % 2 else "even"]
    inside = int(np.sum(mask))
    labels.append("empty band" if inside == 0 else "full band" if inside >= len(mask) - 1 else "partial band")
    if mask[-1]:
        labels.append("up to Nyquist")
    return 0 < inside < len(mask) - 1 and bool(np.any(x != 0)), labels


@sub("C04", _cases(), 800)
def series_filter(c):
    t, x = build_record(c["r"])
    n = len(t)
    df = 1.0 / (n * (t[-1] - t[0]) / (n - 1))
    s = Series(t.copy(), x.copy())
    z = s.get_bandpassfilter(_edge(c["lo"], n, df), _edge(c["hi"], n, df))
    expect(isinstance(z, Series), f"get_bandpassfilter returned {type(z)}")
    close(vec(z.time, n, "time axis"), t, 0.0, 0.0, "time axis of the filtered series")
    mask = _compare(z.xTime, x, c, "Series.get_bandpassfilter")
    return 0 < int(np.sum(mask)) < len(mask) - 1, []


@st.composite
def _coeffs(draw):
    n = draw(sizes(2, 300, GIANT))
    lo, hi = draw(_edges(n))
    return dict(n=n, df=draw(logfloats(1e-4, 1.0)), salt=draw(salts()), lo=lo, hi=hi)


@sub("C04", _coeffs(), 1200)
def coefficient_filter(c):
    n, df = c["n"], c["df"]
    m = n // 2 + 1
    X = cnoise(c["salt"], m)
    f = np.arange(m) * df
    z = vec(cs.applybandfilter(f.copy(), X.copy(), _edge(c["lo"], n, df), _edge(c["hi"], n, df)), m, "applybandfilter", kind="c")
    # for given coefficients the last bin is the end of the axis, whatever the parity of the record
    k = np.arange(m)
    h = float("inf") if c["hi"] == "inf" else c["hi"]
    mask = (k >= c["lo"]) & (k < h)
    if c["lo"] <= 0:
        mask[0] = False
        expect(z[0] == 0 or z[0] == X[0], f"coefficient at zero frequency {z[0]!r}")
        z[0] = 0
    close(z, np.where(mask, X, 0.0), 0.0, 0.0, "applybandfilter")
    return bool(0 < np.sum(mask) < m), []


@st.composite
def _on_bins(draw):
    n = draw(sizes(4, 128, (256, 512, 1024)))
    top = n // 2
    lo = draw(ints(1, top))
    return dict(n=n, salt=draw(salts()), lo=lo, hi=draw(ints(lo, top)), p=draw(st.integers(-6, 2)))


@sub("C04", _on_bins(), 800)
def edges_on_bins(c):
    """flow <= f < fhigh with edges exactly on a bin (axes with exactly representable frequencies)."""
    n, df = c["n"], 2.0 ** c["p"]
    m = n // 2 + 1
    X = cnoise(c["salt"], m)
    f = np.arange(m) * df
    z = vec(cs.applybandfilter(f.copy(), X.copy(), c["lo"] * df, c["hi"] * df), m, "applybandfilter", kind="c")
    k = np.arange(m)
    mask = (k >= c["lo"]) & (k < c["hi"])
    got = z.copy()
    if c["hi"] == m - 1 and n % 2 == 0:
        mask[-1] = c["lo"] <= m - 1
    elif c["hi"] == m - 1:
        # an odd record ends half a bin before Nyquist: whether its last bin counts is open
        mask[-1] = False
        got[-1] = 0
    if c["lo"] == m - 1:
        # the band [f_last, f_last]: empty, or the last bin
        expect(z[-1] == 0 or z[-1] == X[-1], f"coefficient of the last bin {z[-1]!r}")
        got[-1] = 0
        mask[-1] = False
    close(got, np.where(mask, X, 0.0), 0.0, 0.0, "applybandfilter with edges on bins")
    return c["hi"] > c["lo"], []


@st.composite
def _three(draw):
    r = draw(records(6, 400, HUGE, kinds=("list", "sines", "noise", "waves", "spike")))
    top = r["axis"]["n"] // 2
    e = st.one_of(ints(1, top + 1).map(float), st.tuples(ints(0, top), floats(0.01, 0.99)).map(lambda p: p[0] + p[1]))
    ab = sorted(draw(st.lists(e, min_size=3, max_size=3, unique=True)))
    if ab[0] <= 0:
        ab[0] = 0.4
        ab = sorted(ab)
    return dict(r=r, e=ab)


@sub("C04", _three(), 1500)
def adjacent_bands(c):
    """Two adjacent bands add up to the joint band; filtering twice equals filtering once. Edges may
    lie on bins: the same edge is then the end of one band and the start of the next."""
    t, x = build_record(c["r"])
    n = len(t)
    df = 1.0 / (n * (t[1] - t[0]))
    a, b, d = (v * df for v in c["e"])
    f0, X, _ = cs.time2freq_nyquist(t, x)
    if b >= f0[-1]:
        # an edge at or beyond the last bin: nothing is left for a second band
        b = (a + min(d, f0[-1])) / 2.0
        if b >= f0[-1]:
            return False, ["degenerate"]
    if a > b or b > d:
        return False, ["degenerate"]
    tol = 1e-11 * scale_of(x) * max(1.0, np.log2(n))
    z1 = vec(cs.bandpassfilter(t, x, a, b), n)
    z2 = vec(cs.bandpassfilter(t, x, b, d), n)
    z = vec(cs.bandpassfilter(t, x, a, d), n)
    close(z1 + z2, z, 0.0, tol, "sum of two adjacent bands and the joint band")
    zz = vec(cs.bandpassfilter(t, z, a, d), n)
    close(zz, z, 0.0, tol, "filtered twice and filtered once")
    o = vec(cs.bandpassfilter(t, z1, b, d), n)
    close(o, np.zeros(n), 0.0, tol, "one band filtered out of the other")
    on = any(float(v).is_integer() for v in c["e"])
    return bool(np.any(np.abs(z1) > tol) and np.any(np.abs(z2) > tol)), ["edge on a bin" if on else "edges off bins"]


@sub("C04", st.fixed_dictionaries(dict(n=sizes(8, 300), k=st.integers(0, 10**6), lo=floats(0.06, 0.94), dt=dts(), ph=floats(0, 6.28), off=floats(-5, 5))), 600)
def single_component(c):
    """A single cosine passes unchanged through a band around it, and not at all outside it."""
    n, dt = c["n"], c["dt"]
    k = 1 + c["k"] % ((n - 1) // 2)
    i = np.arange(n)
    wave = np.cos(2 * np.pi * ((i * k) % n) / n + c["ph"])
    x = wave + c["off"]
    t = i * dt
    df = 1.0 / (n * dt)
    z = vec(cs.bandpassfilter(t, x, (k - c["lo"]) * df, (k + 1 - c["lo"]) * df), n)
    if k - c["lo"] > 0:
        close(z, wave, 0.0, 1e-10 * (1 + abs(c["off"])), "component inside the band")
    z = vec(cs.bandpassfilter(t, x, (k + c["lo"]) * df, 10 * n * df), n)
    close(z, np.zeros(n), 0.0, 1e-10 * (1 + abs(c["off"])), "component below the band")
    X = dft_at(x, [k])
    expect(abs(X[0]) > 0, "no component")
    return True, []
