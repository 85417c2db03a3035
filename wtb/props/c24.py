import math
import os
import pathlib
import shutil
import tempfile

from hypothesis import strategies as st
from matplotlib.figure import Figure

from wtb.core import close, expect, fail, info, rejects, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.oracles import crossings
from wtb.sut import Series, Spectrum, WaveHeights, core_wavefunctions as cw, plt

info(
    "C24",
    "Records, spectra and wave lists of 1..300 entries, all plot methods with all their options, on fresh objects and"
    " after other computations; the data are read back from the lines of the returned figure. Non-trivial: at least two"
    " points in the plotted data.",
    ["Lines are recognised by their data, not by label, order or style.",
     "Of the exceedance plot, the plotted probability of the i-th highest of n waves has to lie in [(i-1)/n, i/n]; the"
     " Rayleigh line may use i/n or i/(n+1).",
     "Normalised plots are not drawn of fewer than three waves: their significant height, the mean of the highest"
     " floor(n/3) waves, is zero.",
     "The pixels are left to matplotlib: of a written file only its existence and format are checked."],
)


def _lines(fig):
    expect(isinstance(fig, Figure), f"returned {type(fig)}")
    out = []
    for ax in fig.axes:
        for ln in ax.lines:
            out.append((np.asarray(ln.get_xdata(orig=True), float).ravel(), np.asarray(ln.get_ydata(orig=True), float).ravel()))
    return out


def _has(lines, x, y, rtol, what):
    """One of the lines goes through the points (x, y) in this order; its index."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    sx, sy = (float(np.max(np.abs(v))) if v.size else 0.0 for v in (x, y))
    for i, (a, b) in enumerate(lines):
        if len(a) == len(x) and len(b) == len(y):
            if np.all(np.abs(a - x) <= rtol * sx) and np.all(np.abs(b - y) <= rtol * sy):
                return i
    shown = [(a[:4].tolist(), b[:4].tolist(), len(a)) for a, b in lines]
    fail(f"{what}: no line with x {x[:4]}.. y {y[:4]}.. ({len(x)} points), the lines start with {shown}")


def _file_of(save):
    """The file to write: as drawn, or just its extension."""
    return dict(ext=save, name="figure", object=False) if isinstance(save, str) else save


class _Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="wtb-c24-")
        self.cwd = tempfile.mkdtemp(prefix="wtb-c24-")
        self.back = os.getcwd()
        os.chdir(self.cwd)
        return self

    def path(self, save):
        """save: "" or a dict of the extension, the name before it and whether it is a path object."""
        if not save:
            return ""
        save = _file_of(save)
        p = os.path.join(self.d, save["name"] + save["ext"])
        if save.get("relative"):
            p = os.path.relpath(p)
        return pathlib.Path(p) if save["object"] else p

    def check(self, save, what):
        if save:
            save = _file_of(save)
            p = os.path.join(self.d, save["name"] + save["ext"])
            expect(os.path.exists(p), f"{what}: no file {os.path.basename(p)!r}, but {os.listdir(self.d)}")
            with open(p, "rb") as fh:
                head = fh.read(8)
            magic = {".png": b"\x89PNG", ".svg": b"<?xml", ".pdf": b"%PDF"}[save["ext"]]
            expect(head.startswith(magic), f"{what}: file starts with {head!r}")
            expect(len(os.listdir(self.d)) == 1, f"{what}: wrote {os.listdir(self.d)}")
        else:
            expect(not os.listdir(self.d), f"{what}: wrote {os.listdir(self.d)}")
        expect(not os.listdir(self.cwd), f"{what}: wrote {os.listdir(self.cwd)} in the working directory")

    def __exit__(self, *a):
        os.chdir(self.back)
        plt.close("all")
        shutil.rmtree(self.cwd, ignore_errors=True)
        shutil.rmtree(self.d, ignore_errors=True)


_file = st.fixed_dictionaries(
    dict(
        ext=st.sampled_from([".png", ".png", ".svg", ".pdf"]),
        name=st.sampled_from(["figure", "figure", "figure v1.2", "a.b.c", "plot_50%", "Golf \u00e9"]),
        object=st.sampled_from([False, False, True]),
        relative=st.sampled_from([False, False, True]),
    )
)
_save = st.one_of(st.just(""), st.just(""), _file)


@sub("C24", st.fixed_dictionaries(dict(r=records(2, 300, kinds=("list", "alpha", "sines", "noise", "waves", "spike")), cross=st.booleans(), save=_save, before=st.sampled_from(["", "up", "sort", "spectrum", "band"]))), 150, 2500)
def series(c):
    t, x = build_record(c["r"])
    s = Series(t.copy(), x.copy())
    if c["before"] == "up":
        s.get_crossing("up")
    elif c["before"] == "sort" and s.nwave:
        s.get_Hs()
    elif c["before"] == "spectrum" and len(t) > 8:
        s.get_spectrum(dfDesired=3 / (len(t) * s.dt))
    elif c["before"] == "band" and len(t) > 8:
        s.get_bandpassfilter(0.1 / s.dt, 0.3 / s.dt)
    with _Scratch() as d:
        fig = s.plot(d.path(c["save"]), plot_crossing=True) if c["cross"] else s.plot(savepath=d.path(c["save"]))
        d.check(c["save"], "Series.plot")
        lines = _lines(fig)
        _has(lines, t, x, 0.0, "record")
        want = crossings(t, x, "down")
        if c["cross"]:
            sx = float(np.max(np.abs(t)))
            ok = any(len(a) == len(want) and np.all(b == 0) and np.all(np.abs(a - want) <= 1e-9 * (t[1] - t[0]) + 1e-14 * sx) for a, b in lines)
            expect(ok, lambda: f"no line through the crossings {want[:5]} at level 0: {[(a[:5], b[:5]) for a, b in lines]}")
        else:
            expect(len(lines) == 1, f"{len(lines)} lines without crossings")
    close(vec(s.time), t, 0.0, 0.0, "time axis after plotting")
    close(vec(s.xTime), x, 0.0, 0.0, "record after plotting")
    return True, ["crossings" if c["cross"] and len(want) else "none", "file" + (_file_of(c["save"])["ext"] if c["save"] else "")]


PERIODS = ("Tps", "Tmm10", "Tm02")


@st.composite
def _spectrum_cases(draw):
    return dict(
        s=draw(spectra(4, 200)),
        calls=draw(st.lists(st.sampled_from(PERIODS + ("Hm0", "Tm01", "smm10", "s0p", "Tmm10_HF")), max_size=5)),
        lim=draw(st.lists(st.tuples(floats(0.0, 0.4), floats(0.6, 1.5)), max_size=5)),
        periods=draw(st.sampled_from([None, True, False])),
        save=draw(_save),
        labels=draw(st.booleans()),
        xlim=draw(st.one_of(st.none(), st.sampled_from([0.0, -1.0, 0.001, 2.0]), floats(-0.5, 0.9))),
    )


@sub("C24", _spectrum_cases(), 150, 2500)
def spectrum(c):
    f, S = build_spectrum(c["s"])
    if f[0] == 0:
        S[0] = 0.0
    if not np.sum(S) > 0:
        return False, []
    s = Spectrum(f.copy(), S.copy())
    have = {}
    for i, m in enumerate(c["calls"]):
        if i < len(c["lim"]):
            # parameters of a part of the spectrum
            lo, hi = c["lim"][i]
            top = f[math.ceil(hi * (len(f) - 1))] if hi <= 1 else hi * f[-1]
            getattr(s, "get_" + m)(f[int(lo * (len(f) - 1))], top)
        else:
            getattr(s, "get_" + m)()
        if m in PERIODS:
            have[m] = 1
        if m == "s0p":
            have["Tps"] = 1
        if m in ("smm10", "Tmm10_HF"):
            have["Tmm10"] = 1
    want = {m: float(getattr(s, m)) for m in have if hasattr(s, m)}
    if any(not np.isfinite(v) or v <= 0 for v in want.values()):
        return False, ["no period"]
    attrs = {k: float(getattr(s, k)) for k in ("Hm0", "Tps", "Tmm10", "Tm02", "Tm01", "s0p", "smm10") if hasattr(s, k)}
    k = {}
    if c["periods"] is not None:
        k["plot_periods"] = c["periods"]
    if c["labels"]:
        k.update(xlabel="frequency", ylabel="density")
    if c["xlim"] is not None:
        k["xlim"] = c["xlim"] * float(f[-1])
    with _Scratch() as d:
        fig = s.plot(savepath=d.path(c["save"]), **k)
        d.check(c["save"], "Spectrum.plot")
        lines = _lines(fig)
        i = _has(lines, f, S, 0.0, "density")
        rest = [ln for j, ln in enumerate(lines) if j != i]
        if c["periods"] is False:
            expect(not rest, f"{len(rest)} more lines without periods")
        else:
            direct = {m for m in c["calls"] if m in PERIODS}
            for m, T in want.items():
                hit = [ln for ln in rest if np.all(np.abs(ln[0] * T - 1) <= 1e-9)]
                if m in direct:
                    expect(hit, f"no line at the frequency of {m} = {T!r}: {[ln[0] for ln in rest]}")
            for ln in rest:
                expect(any(np.all(np.abs(ln[0] * T - 1) <= 1e-9) for T in want.values()), f"line at {ln[0]}, the computed periods are {want}")
            expect(len(rest) <= len(want), f"{len(rest)} lines for periods {want}")
        if c["xlim"] is not None:
            got = [float(v) for v in fig.axes[0].get_xlim()]
            close(got[0], k["xlim"], 1e-12, 0.0, f"left limit of the frequency axis {got}")
        if c["labels"]:
            expect(fig.axes[0].get_xlabel() == "frequency" and fig.axes[0].get_ylabel() == "density", "labels of the axes")
    close(vec(s.f), f, 0.0, 0.0, "frequencies after plotting")
    close(vec(s.sVarDens), S, 0.0, 0.0, "densities after plotting")
    for q, v in attrs.items():
        close(float(getattr(s, q)), v, 0.0, 0.0, q + " after plotting")
    return True, ["periods: " + str(len(want)), "file" + (_file_of(c["save"])["ext"] if c["save"] else "")]


@st.composite
def _wave_cases(draw):
    n = draw(st.one_of(ints(1, 3), ints(1, 10), ints(2, 300), ints(2, 300)))
    return dict(
        n=n,
        salt=draw(salts()),
        ties=draw(st.booleans()),
        freak=draw(st.sampled_from([0, 0, 3, 8, 40])),
        scale=draw(st.one_of(st.just(1.0), logfloats(1e-3, 1e3), logfloats(1e-9, 1e-3))),
        plot=draw(st.sampled_from(["exceedance", "Rayleigh", "Rayleigh", "Rayleigh", "hist", "hist"])),
        normalize=draw(st.booleans()),
        bg=draw(st.sampled_from(["no", "no", "yes", "yes", "missing"])),
        depth=draw(st.sampled_from([1.0, 2.0, 5.0, 100.0])),
        slope=draw(st.sampled_from([None, 30.0, 100.0])),
        hm0=draw(floats(0.3, 4.0)),
        save=draw(_save),
        before=draw(st.sampled_from(["", "sort", "Hs", "exceedance"])),
        series=draw(ints(0, 3)) == 0,
    )


def _pairs(o):
    return sorted(zip(np.asarray(o.hwave, float).tolist(), np.asarray(o.twave, float).tolist()))


@sub("C24", _wave_cases(), 350, 6000)
def wave_heights(c):
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    if c["series"]:
        i = np.arange(8 * c["n"] + 20)
        o = Series(i * 0.5, c["scale"] * (np.cos(0.8 * i) + 0.5 * r.normal(size=len(i))))
        if o.nwave < 1:
            return False, []
    else:
        h = r.rayleigh(1.0, c["n"]) + 0.01
        if c["ties"]:
            h = np.ceil(3 * h)
        if c.get("freak"):
            # one wave that is far higher than the others
            h[c["salt"] % len(h)] *= c["freak"]
        o = WaveHeights(c["scale"] * h, r.uniform(2, 9, c["n"]))
    if c["before"] == "sort":
        o.sort()
    elif c["before"] == "Hs":
        o.get_Hs()
    elif c["before"] == "exceedance":
        o.get_exceedance_waveheight(10.0)
    n = int(o.nwave)
    H = np.sort(np.asarray(o.hwave, float))[::-1]
    pairs = _pairs(o)
    fresh = WaveHeights(np.array(o.hwave, float), np.array(o.twave, float))
    Hs, H2 = float(fresh.get_Hs()[0]), float(fresh.get_H2p_Rayleigh())
    if Hs == 0.0 and c["plot"] == "Rayleigh" and c["normalize"]:
        return False, ["Hs is zero"]
    with _Scratch() as d:
        if c["plot"] == "exceedance":
            fig = o.plot_exceedance_waveheight(d.path(c["save"]))
            lines = _lines(fig)
            expect(len(lines) == 1, f"{len(lines)} lines")
            a, P = lines[0]
            expect(len(a) == n and len(P) == n, f"{len(a)} points for {n} waves")
            o2 = np.argsort(-a, kind="stable") if not np.all(np.diff(a) <= 0) else np.arange(n)
            close(a[o2], H, 1e-12, 0.0, "plotted wave heights")
            expect(np.all(np.diff(P[o2]) >= 0), f"probabilities do not decrease with the height: {P[:6]}")
            i = np.arange(1, n + 1)
            expect(np.all(P[o2] >= (i - 1) / n - 1e-12) and np.all(P[o2] <= i / n + 1e-12), f"exceedance probabilities {P[:6]} of {n} waves")
        elif c["plot"] == "Rayleigh":
            k = dict(normalize=True) if c["normalize"] else {}
            if c["bg"] != "no":
                k.update(plot_BG=True, water_depth=c["depth"])
                if c["slope"] is not None:
                    k["cota_slope"] = c["slope"]
                if c["bg"] == "yes":
                    k["hm0"] = c["hm0"]
            if c["bg"] == "missing":
                rejects(lambda: o.plot_exceedance_waveheight_Rayleigh(**k), "plot with the Battjes-Groenendijk line and without Hm0")
                expect(_pairs(o) == pairs, "the set of waves changed")
                return True, ["Rayleigh, without Hm0"]
            fig = o.plot_exceedance_waveheight_Rayleigh(d.path(c["save"]), **k)
            lines = _lines(fig)
            norm = Hs if c["normalize"] else 1.0
            i = np.arange(1, n + 1)
            x = np.sqrt(np.abs(np.log(i / n)))
            _has(lines, x, H / norm, 1e-10, "wave heights against sqrt(-ln(rank/n))")
            y1 = H2 / norm * np.sqrt(np.abs(np.log(i / n)) / -math.log(0.02))
            y2 = H2 / norm * np.sqrt(np.abs(np.log(i / (n + 1.0))) / -math.log(0.02))
            ok = any(len(a) == n and np.all(np.abs(a - x) <= 1e-10) and any(np.all(np.abs(b - y) <= 1e-9 * H2 / norm) for y in (y1, y2)) for a, b in lines)
            expect(ok, lambda: f"no Rayleigh line through the 2 % height {H2 / norm!r}: {[(a[:3], b[:3]) for a, b in lines]}, expected {x[:3]} {y1[:3]}")
            m = 2
            if c["bg"] == "yes":
                bg = [c["hm0"], n, c["depth"]] + ([] if c["slope"] is None else [c["slope"]])
                hb, pb = cw.compute_BattjesGroenendijk_wave_height_distribution(*bg)
                hb, pb = np.ravel(hb), np.ravel(pb)
                if hb.size:
                    _has(lines, np.sqrt(np.abs(np.log(pb))), hb / norm, 1e-9, "Battjes-Groenendijk line")
                    m = 3
            expect(m <= len([ln for ln in lines if len(ln[0])]) <= m, f"{len(lines)} lines, expected {m}")
        else:
            fig = o.plot_hist_waveheight(d.path(c["save"]))
            expect(isinstance(fig, Figure), f"returned {type(fig)}")
            bars = [(p.get_x(), p.get_width(), p.get_height()) for ax in fig.axes for p in ax.patches]
            expect(sum(b[2] for b in bars) == n, f"bars with {sum(b[2] for b in bars)} of {n} waves")
            for j, (x0, w, cnt) in enumerate(bars):
                lo, hi = x0 + 1e-9 * w, x0 + w - 1e-9 * w
                inside = int(np.sum((H > lo) & (H < hi)))
                border = int(np.sum((H >= x0 - 1e-9 * w) & (H <= x0 + w + 1e-9 * w)))
                expect(inside <= cnt <= border, f"bar {x0!r}..{x0 + w!r} has {cnt} waves, expected {inside}..{border}")
        d.check(c["save"], c["plot"])
    expect(_pairs(o) == pairs, "the set of waves changed")
    expect(int(o.nwave) == n, "the number of waves changed")
    close(float(o.get_Hs()[0]), Hs, 1e-12, 0.0, "Hs after plotting")
    return n > 1, [c["plot"], "normalised" if c["normalize"] else "not normalised", "file" + (_file_of(c["save"])["ext"] if c["save"] else "")]
