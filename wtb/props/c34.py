from hypothesis import strategies as st

from wtb.core import close, expect, info, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.sut import Series, core_time as ct

info(
    "C34",
    "Records of 3..400 or up to 30011 samples and all stretches of them with at least two samples; two records one"
    " after the other; arbitrary samples outside the waves asked for. Non-trivial:"
    " a stretch that holds a wave, but not all of the record.",
    ["Crossing times are compared within the rounding of the time axis; the first wave of a tie keeps its time."],
)


@st.composite
def _cases(draw):
    r = draw(records(3, 400, HUGE))
    n = r["axis"]["n"]
    i = draw(st.one_of(st.just(0), ints(0, min(n - 2, 5)), ints(0, n - 2)))
    j = draw(st.one_of(st.just(n), ints(i + 2, n), ints(max(i + 2, n - 5), n)))
    return dict(r=r, i=i, j=j, kind=draw(st.sampled_from(["down", "up"])))


def _cross(t, x, kind):
    n, tc = pair(ct.determine_zero_crossing(t, x, kind), "determine_zero_crossing")
    return int(n), np.ravel(np.asarray(tc, float))


def _waves(t, x, tc):
    r = pair(ct.determine_params_individual_waves(tc, t, x), "determine_params_individual_waves", 6)
    return [np.ravel(np.asarray(v, float)) for v in r]


def _touch(t, tc):
    """A crossing is within rounding of a sample without being on it."""
    d = np.abs(tc[:, None] - t[None, :]) if len(tc) * len(t) < 4e6 else np.abs(tc - t[np.clip(np.searchsorted(t, tc), 0, len(t) - 1)])[:, None]
    return bool(np.any((d > 0) & (d < 1e-6 * (t[1] - t[0]))))


@sub("C34", _cases(), 2000)
def stretches(c):
    """The waves of a stretch of a record are the waves of the record that lie inside the stretch."""
    t, x = build_record(c["r"])
    i, j, kind = c["i"], c["j"], c["kind"]
    n0, tc = _cross(t, x, kind)
    n1, tp = _cross(t[i:j].copy(), x[i:j].copy(), kind)
    # samples before a crossing, by definition
    a, b = x[:-1], x[1:]
    at = np.nonzero((a >= 0) & (b < 0) if kind == "down" else (a <= 0) & (b > 0))[0]
    expect(len(at) == len(tc), f"{len(tc)} crossings instead of {len(at)}")
    inside = (at >= i) & (at + 1 < j)
    tol = time_noise(t) + 1e-12 * c["r"]["axis"]["dt"]
    close(tp, tc[inside], 0.0, tol, f"{kind}-crossings of the samples {i}..{j - 1} of {len(t)}")
    expect(n1 == max(len(tp) - 1, 0), f"{n1} waves for {len(tp)} crossings")
    k = np.nonzero(inside)[0]
    if len(k) < 2:
        return False, ["no wave in the stretch"]
    if _touch(t, tc) or near_sample(x, 1e-9 + time_noise(t) / (t[1] - t[0])):
        return False, ["crossing next to a sample"]
    whole = _waves(t, x, tc)
    part = _waves(t[i:j].copy(), x[i:j].copy(), tp)
    size = scale_of(x)
    first, m = int(k[0]), len(k) - 1
    for q, (u, v) in enumerate(zip(part, whole)):
        name = f"result {q} for the waves"
        expect(len(u) == m and len(v) == len(tc) - 1, f"{name}: {len(u)} and {len(v)} values for {m} and {len(tc) - 1} waves")
        close(u, v[first : first + m], 1e-12, tol + 1e-13 * size, f"{name} of the samples {i}..{j - 1} of {len(t)}")
    if kind == "down":
        s, p = Series(t, x), Series(t[i:j].copy(), x[i:j].copy())
        expect(p.nwave == m and s.nwave == len(tc) - 1, f"Series: {p.nwave} and {s.nwave} waves instead of {m} and {len(tc) - 1}")
        close(vec(p.hwave, m), vec(s.hwave)[first : first + m], 1e-12, 0.0, "heights of the Series of the stretch")
        close(vec(p.twave, m), vec(s.twave)[first : first + m], 0.0, 2 * tol, "periods of the Series of the stretch")
    return j - i < len(t), [kind, "long" if len(t) > 4999 else "short"]


@st.composite
def _joined(draw):
    a = draw(axes(4, 300, (2000, 4001)))
    n = a["n"]
    k = draw(ints(2, n - 2))
    return dict(axis=a, k=k, x=draw(signals(k)), y=draw(signals(n - k)), kind=draw(st.sampled_from(["down", "up"])))


@sub("C34", _joined(), 1000)
def joined_records(c):
    """One record after another: all waves of both, and at most the ones across the joint in between."""
    t = build_axis(c["axis"])
    n, k, kind = len(t), c["k"], c["kind"]
    x, y = build_signal(c["x"], k), build_signal(c["y"], n - k)
    _, tx = _cross(t[:k].copy(), x, kind)
    _, ty = _cross(t[k:].copy(), y, kind)
    z = np.concatenate([x, y])
    nz, tz = _cross(t, z, kind)
    a, b = z[k - 1], z[k]
    hit = (a >= 0 and b < 0) if kind == "down" else (a <= 0 and b > 0)
    mid = [t[k - 1] + (t[k] - t[k - 1]) * (a / (a - b))] if hit else []
    tol = time_noise(t) + 1e-12 * c["axis"]["dt"]
    close(tz, np.concatenate([tx, mid, ty]), 0.0, tol, f"{kind}-crossings of two records one after the other")
    expect(nz == max(len(tz) - 1, 0), f"{nz} waves for {len(tz)} crossings")
    if _touch(t, tz) or near_sample(z, 1e-9 + time_noise(t) / (t[1] - t[0])):
        return False, ["crossing next to a sample"]
    if len(tx) >= 2:
        hx = _waves(t[:k].copy(), x, tx)[0]
        close(_waves(t, z, tz)[0][: len(hx)], hx, 1e-12, 0.0, "heights of the waves of the first record")
    if len(ty) >= 2:
        hy = _waves(t[k:].copy(), y, ty)[0]
        close(_waves(t, z, tz)[0][-len(hy) :], hy, 1e-12, 0.0, "heights of the waves of the second record")
    return len(tx) >= 2 and len(ty) >= 2, [kind, "crossing at the joint" if hit else "no crossing at the joint"]


@st.composite
def _parts(draw):
    n = draw(sizes(3, 200, (1000,)))
    return dict(n=n, salt=draw(salts()), x=draw(signals(n, kinds=("alpha", "list", "waves", "noise"))), at=draw(ints(0, n - 1)), f=draw(floats(0.0, 1.0)))


@sub("C34", _parts(), 700)
def outside_samples_are_irrelevant(c):
    """What happens outside the crossings given does not matter for the waves between them."""
    n = c["n"]
    t = np.arange(n) * 0.5
    x = build_signal(c["x"], n)
    _, tc = _cross(t, x, "down")
    if len(tc) < 3 or _touch(t, tc):
        return False, ["fewer than two waves"]
    m = len(tc) - 1
    lo = int(c["at"] * m / n) % m
    hi = lo + 1 + int(c["f"] * (m - lo - 1))
    cut = tc[lo : hi + 1]
    ref = _waves(t, x, tc)
    y = x.copy()
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    out = (t < cut[0]) | (t > cut[-1])
    y[out] = r.normal(size=int(np.sum(out))) * 1e3
    got = _waves(t, y, cut)
    for q, (u, v) in enumerate(zip(got, ref)):
        close(u, v[lo:hi], 0.0, 0.0, f"result {q} for waves {lo}..{hi - 1} of {m} with other samples outside")
    return hi - lo < m, ["one wave" if hi - lo == 1 else "more waves"]
