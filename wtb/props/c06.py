from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import crossings
from wtb.sut import Series, core_time as ct

info(
    "C06",
    "Records as in C05 with the crossings of a reference implementation, or with arbitrary interval bounds on and"
    " between samples. Non-trivial: at least one wave.",
    ["A sample within 1e-6 step of an interval bound (without being exactly on it) may or may not count."],
)

KINDS = ("list", "alpha", "alpha", "sines", "noise", "waves", "waves", "steps")


def _waves(tc, t, x):
    """Per wave the acceptable (crest, trough, time of crest, time of trough) combinations."""
    eps = 1e-6 * (t[1] - t[0])
    out = []
    for a, b in zip(tc[:-1], tc[1:]):
        opts = []
        # bounds that are not exactly on a sample but within rounding of one: both readings
        la = [a] if not np.any((np.abs(t - a) < eps) & (t != a)) else [a - eps, a + eps]
        lb = [b] if not np.any((np.abs(t - b) < eps) & (t != b)) else [b - eps, b + eps]
        for u in la:
            for v in lb:
                i = np.nonzero((t >= u) & (t <= v))[0]
                if len(i) == 0:
                    continue
                xs = x[i]
                hi, lo = xs.max(), xs.min()
                opts.append((hi, lo, t[i[np.nonzero(xs == hi)[0][0]]], t[i[np.nonzero(xs == lo)[0][0]]]))
        out.append(opts)
    return out


def _check(got, tc, t, x, what, ttol=0.0):
    h, T, ac, at, tcr, ttr = pair(got, what, 6)
    nw = max(len(tc) - 1, 0)
    h, T, ac, at, tcr, ttr = (
        vec(v, nw, f"{what}: {k}")
        for v, k in ((h, "heights"), (T, "periods"), (ac, "crests"), (at, "troughs"), (tcr, "crest times"), (ttr, "trough times"))
    )
    if nw == 0:
        return
    close(T, np.diff(tc), 1e-12, ttol, what + ": periods")
    close(h, ac - at, 0.0, 0.0, what + ": heights and crests minus troughs")
    for i, opts in enumerate(_waves(tc, t, x)):
        if not opts:
            continue
        g = (ac[i], at[i], tcr[i], ttr[i])
        expect(
            any(g == o for o in opts),
            lambda: f"{what}: wave {i} from {tc[i]!r} to {tc[i + 1]!r} has (crest, trough, times) {g}, expected {opts[0]}",
        )


_cases = st.fixed_dictionaries(
    dict(r=records(2, 400, HUGE, kinds=KINDS), kind=st.sampled_from(["down", "up"]))
)


@sub("C06", _cases, 2500)
def waves_between_crossings(c):
    t, x = build_record(c["r"])
    tc = crossings(t, x, c["kind"])
    got = ct.determine_params_individual_waves(tc.copy(), t.copy(), x.copy())
    _check(got, tc, t, x, "determine_params_individual_waves")
    w = max(len(tc) - 1, 0)
    return w > 0, ["waves: " + ("0" if w == 0 else "1" if w == 1 else "2+"), c["kind"]]


@st.composite
def _intervals(draw):
    n = draw(sizes(4, 60))
    a = dict(n=n, dt=draw(st.sampled_from([0.5, 0.25, 1.0, 2.0])), t0=draw(st.sampled_from([0.0, -8.0, 100.0])), how="arange")
    # increasing bounds, at least one step apart, on a sample or clearly between two
    pos = draw(
        st.lists(
            st.tuples(ints(0, n - 1), st.sampled_from([0.0, 0.0, 0.25, 0.5, 0.7])), min_size=0, max_size=8, unique_by=lambda p: p[0]
        )
    )
    b = sorted(k + e for k, e in pos if k + e <= n - 1)
    keep = []
    for v in b:
        if not keep or v - keep[-1] >= 1.0:
            keep.append(v)
    return dict(axis=a, x=draw(signals(n, kinds=("list", "alpha", "alpha", "noise"), list_max=60)), b=keep)


@sub("C06", _intervals(), 1500)
def arbitrary_intervals(c):
    """Interval bounds anywhere: samples exactly on a bound belong to the waves on both sides."""
    t, x = build_record(c)
    a = c["axis"]
    tc = np.array([a["t0"] + v * a["dt"] for v in c["b"]])
    got = ct.determine_params_individual_waves(tc.copy(), t.copy(), x.copy())
    _check(got, tc, t, x, "determine_params_individual_waves")
    return len(tc) > 1, ["bound on a sample" if any(float(v).is_integer() for v in c["b"]) else "bounds between samples"]


@sub("C06", _cases, 1500)
def series_waves(c):
    t, x = build_record(c["r"])
    s = Series(t.copy(), x.copy())
    tc = crossings(t, x, "down")
    nw = max(len(tc) - 1, 0)
    expect(num(s.nwave) == nw, f"Series.nwave {s.nwave!r} for {len(tc)} crossings")
    h = vec(s.hwave, nw, "Series.hwave")
    T = vec(s.twave, nw, "Series.twave")
    tt = 1e-9 * (t[1] - t[0]) + 8 * time_noise(t)
    if nw:
        close(T, np.diff(tc), 0.0, tt, "Series.twave")
        close(float(np.sum(T)), tc[-1] - tc[0], 1e-12 * nw, tt, "sum of the periods and time from first to last crossing")
        for i, opts in enumerate(_waves(tc, t, x)):
            expect(
                not opts or any(h[i] == o[0] - o[1] for o in opts),
                lambda: f"Series.hwave[{i}] {h[i]!r}, expected {opts[0][0] - opts[0][1]!r}",
            )
    return nw > 0, ["waves: " + ("0" if nw == 0 else "1" if nw == 1 else "2+")]
