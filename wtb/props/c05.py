from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import crossings
from wtb.sut import Series, core_time as ct

info(
    "C05",
    "Records of 2..400 (or up to 100003) samples, among them records over small alphabets with zeros, plateaus at"
    " zero and touching zeros; both crossing types in mixed letter case. Non-trivial: at least one crossing.",
)

KINDS = ("list", "alpha", "alpha", "sines", "noise", "waves", "spike", "steps")


def _ttol(t):
    return 1e-10 * (t[1] - t[0]) + 4 * time_noise(t)


def _check(t, x, got, kind, what):
    n, tc = pair(got, what)
    n = num(n, what + " number of waves")
    tc = vec(tc, None, what + " crossing times")
    want = crossings(t, x, kind)
    expect(
        len(tc) == len(want),
        lambda: f"{what}: {len(tc)} {kind}-crossings at {tc[:5]}, expected {len(want)} at {want[:5]}",
    )
    expect(n == max(len(want) - 1, 0), f"{what}: {n} waves for {len(want)} crossings")
    close(tc, want, 0.0, _ttol(t), what + " crossing times")
    expect(np.all(np.diff(tc) >= 0), what + ": crossings not in time order")
    return want


@st.composite
def _cases(draw, big=HUGE):
    return dict(
        r=draw(records(2, 400, big, kinds=KINDS)),
        kind=draw(st.sampled_from(["down", "up"])),
        case=draw(st.sampled_from(["lower", "upper", "title", "swap"])),
        default=draw(st.booleans()),
    )


def _spell(c):
    k = c["kind"]
    return {"lower": k, "upper": k.upper(), "title": k.title(), "swap": k[:1] + k[1:].upper()}[c["case"]]


@sub("C05", _cases(GIANT), 2500)
def crossing_times(c):
    t, x = build_record(c["r"])
    if c["default"] and c["kind"] == "down":
        got = ct.determine_zero_crossing(t.copy(), x.copy())
    else:
        got = ct.determine_zero_crossing(t.copy(), x.copy(), _spell(c))
    want = _check(t, x, got, c["kind"], "determine_zero_crossing")
    z = "zeros" if np.any(x == 0) else "no zeros"
    return len(want) > 0, [c["kind"], z, "crossings: " + ("0" if len(want) == 0 else "1" if len(want) == 1 else "2+")]


@sub("C05", _cases(), 1000)
def series_crossings(c):
    t, x = build_record(c["r"])
    s = Series(t.copy(), x.copy())
    got = s.get_crossing() if c["default"] and c["kind"] == "down" else s.get_crossing(_spell(c))
    want = _check(t, x, got, c["kind"], "Series.get_crossing")
    nd = max(len(crossings(t, x, "down")) - 1, 0)
    expect(num(s.nwave) == nd, f"Series.nwave {s.nwave!r} for {nd} down-crossing waves")
    return len(want) > 0, [c["kind"]]


@sub("C05", _cases(), 1000)
def mirrored_and_scaled(c):
    """Up-crossings of x are down-crossings of -x; positive factors change nothing."""
    t, x = build_record(c["r"])
    o = {"down": "up", "up": "down"}[c["kind"]]
    n0, t0 = ct.determine_zero_crossing(t, x, c["kind"])
    n1, t1 = ct.determine_zero_crossing(t, -x, o)
    t0 = vec(t0, None)
    expect(n0 == n1, f"{n0} {c['kind']}-crossing waves, {n1} {o}-crossing waves of the mirrored record")
    close(vec(t1, len(t0)), t0, 0.0, _ttol(t), "crossings of the mirrored record")
    for k in (2.0**-20, 8.0, 2.0**30, 2.0**-600):
        n2, t2 = ct.determine_zero_crossing(t, k * x, c["kind"])
        expect(n2 == n0, f"{n0} waves, {n2} after multiplying with {k}")
        close(vec(t2, len(t0)), t0, 0.0, _ttol(t), f"crossings after multiplying with {k}")
    return len(t0) > 0, [c["kind"]]


@sub("C05", st.fixed_dictionaries(dict(v=st.lists(st.sampled_from([-1.0, 0.0, 1.0]), min_size=2, max_size=9), t0=st.sampled_from([0.0, -2.0, 0.3]))), 1500, 6000)
def signs(c):
    """Short records of signs: every pattern of touching, staying at, and crossing zero."""
    x = np.array(c["v"])
    t = c["t0"] + np.arange(len(x)) * 0.5
    a = _check(t, x, ct.determine_zero_crossing(t, x, "down"), "down", "determine_zero_crossing")
    b = _check(t, x, ct.determine_zero_crossing(t, x, "up"), "up", "determine_zero_crossing")
    return len(a) + len(b) > 0, ["zeros" if 0.0 in c["v"] else "no zeros"]
