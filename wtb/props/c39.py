from hypothesis import strategies as st

from wtb.core import close, expect, info, num, pair, scale_of, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import crossings
from wtb.props.c06 import KINDS, _check
from wtb.sut import Series, core_spectral as cs

info(
    "C39",
    "Records of 2..300 or up to 4999 samples, up- and down-crossings in any case, cut-off frequencies of 0 (none), of"
    " whole components and between components up to beyond Nyquist, minimum heights of 0, of the height of a wave, and"
    " of a part or more than the whole of the highest. Non-trivial: at least one wave and an option that is not the"
    " default.",
    ["The slowly varying part is the one that the band-pass filter returns from 0 to the cut-off frequency (judged by C04).",
     "Records of which a sample lies within rounding (1e-9 of the largest) of the slowly varying part without being on"
     " it are left out: whether it is a crossing depends on rounding."],
)


def _waves(s, c):
    """The results by the call as drawn: options by name, in order, or left out when they are the default."""
    a = (c["type"], c["fc"], c["low"])
    if c["how"] == "position":
        return s._determine_individual_waves(*a)
    k = {}
    if c["type"] != "down" or c["how"] == "named":
        k["typeCross"] = c["type"]
    if c["fc"] != 0 or c["how"] == "named":
        k["fcutoff"] = c["fc"]
    if c["low"] != 0 or c["how"] == "named":
        k["minimum_wave"] = c["low"]
    return s._determine_individual_waves(**k)


@st.composite
def _cases(draw):
    return dict(
        r=draw(records(2, 300, BIG, kinds=KINDS)),
        level=draw(st.sampled_from([0.0, 0.0, 0.5, -2.0])),
        type=draw(st.sampled_from(["down", "down", "up", "up", "Down", "UP"])),
        fc=draw(st.one_of(st.just(None), st.just(None), ints(1, 200), floats(0.01, 1.3))),
        low=draw(st.one_of(st.none(), st.none(), floats(0.0, 1.1), ints(0, 400))),
        how=draw(st.sampled_from(["short", "named", "position"])),
        before=draw(st.sampled_from(["nothing", "nothing", "sort", "up", "options"])),
    )


@sub("C39", _cases(), 1500)
def options(c):
    t, x = build_record(c["r"])
    n = len(t)
    x = x + c["level"] * (float(np.std(x)) if n > 2 else 0.0)
    s = Series(t.copy(), x.copy())
    if not hasattr(s, "_determine_individual_waves"):
        return False, ["no such method"]
    df = 1.0 / (n * float(s.dt))
    fc = c["fc"]
    fc = 0 if fc is None else (fc % (n // 2 + 1)) * df if isinstance(fc, int) else fc * 0.5 / float(s.dt)
    kind = c["type"].lower()
    y = x
    if fc != 0:
        y = x - vec(cs.bandpassfilter(t, x, 0, fc), n)
        m = scale_of(x)
        if np.any((np.abs(y) < 1e-9 * m) & (y != 0)) or np.any(y == 0) and fc > 0:
            return False, ["within rounding"]
    if c["before"] == "sort" and s.nwave:
        s.get_Hs()
    elif c["before"] == "up":
        s.get_crossing("up")
    elif c["before"] == "options":
        s._determine_individual_waves("up", 0.1 / float(s.dt), 0.3 * scale_of(x))

    # all waves, without a minimum
    full = pair(_waves(s, dict(c, fc=fc, low=0)), "results", 7)
    want = crossings(t, y, kind)
    tc = vec(full[6], len(want), "crossings")
    if len(want):
        # rounding of the level moves a crossing by as much as the slope there is gentle
        d = np.abs(np.diff(y))
        i = np.clip(np.searchsorted(t, want, side="right") - 1, 0, n - 2)
        slack = (t[1] - t[0]) * (1e-9 + (0.0 if fc == 0 else 1e-12) * scale_of(x) / np.maximum(np.maximum(d[i], d[np.maximum(i - 1, 0)] * 0), 1e-300))
        slack = np.minimum(slack, t[1] - t[0]) + 8 * time_noise(t)
        expect(np.all(np.abs(tc - want) <= slack), lambda: f"{kind}-crossings {tc[:5]}, expected {want[:5]}")
    _check(full[:6], tc, t, x, "waves", 8 * time_noise(t))
    h = vec(full[0], max(len(tc) - 1, 0))

    # with a minimum
    low = 0
    if c["low"] is not None and len(h):
        low = float(np.sort(h)[c["low"] % len(h)]) if isinstance(c["low"], int) else c["low"] * float(np.max(h))
    r = pair(_waves(s, dict(c, fc=fc, low=low)), "results", 7)
    keep = h >= low
    m = int(np.sum(keep))
    for name, got, all_ in zip(("heights", "periods", "crests", "troughs", "crest times", "trough times"), r, full):
        close(vec(got, m, name), vec(all_)[keep], 0.0, 0.0, f"{name} of the waves of at least {low!r}")
    close(vec(r[6], len(tc)), tc, 0.0, 0.0, "all crossings")
    expect(num(s.nwave) == m, f"nwave is {s.nwave!r} with {m} waves")
    close(vec(s.hwave, m), h[keep], 0.0, 0.0, "hwave")
    close(vec(s.twave, m), vec(full[1])[keep], 0.0, 0.0, "twave")
    if len(tc):
        left = np.append(tc[:-1][keep], tc[-1])
        close(vec(s.tCross, len(left), "tCross"), left, 0.0, 0.0, "start of the remaining waves and the last crossing")
    if m:
        # the statistics are those of the waves left
        close(float(s.get_Hmax()), float(np.max(h[keep])), 0.0, 0.0, "highest wave")
        close(float(s.get_Hrms()), float(np.sqrt(np.mean(h[keep] ** 2))), 1e-12, 0.0, "root-mean-square height")

    # back to the default
    again = pair(s._determine_individual_waves(), "results", 7)
    new = Series(t.copy(), x.copy())
    close(vec(s.hwave, new.nwave), vec(new.hwave), 0.0, 0.0, "heights with the default options again")
    close(vec(s.twave, new.nwave), vec(new.twave), 0.0, 0.0, "periods with the default options again")
    close(vec(again[6]), vec(s.tCross), 0.0, 0.0, "crossings with the default options again")
    close(vec(s.time), t, 0.0, 0.0, "time axis")
    close(vec(s.xTime), x, 0.0, 0.0, "record")
    return len(h) > 0 and (kind == "up" or fc != 0 or low != 0), [
        kind, "cut-off" if fc else "no cut-off", "minimum" if low else "no minimum", "waves left out" if m < len(h) else "all waves",
    ]
