import os
import random
import sys
import warnings

from hypothesis import strategies as st

from wtb import sut
from wtb.core import expect, info, sub
from wtb.gens import *  # noqa: F401,F403
from wtb.props import c21
from wtb.props.c21 import FUNCS
from wtb.sut import Series, Spectrum, WaveHeights, plt

info(
    "C37",
    "Pairs of calls out of the table of all public functions, constructors and computing methods: the first one is"
    " interrupted before up to six drawn lines of its execution (anywhere in the package), the second one is run there to"
    " its end, and the first one resumed, which is what a switch between threads or a signal handler does; and single"
    " calls, also with NaN and plots, around which the settings of the process are compared. Non-trivial: an interruption"
    " inside the package, or a call that returned.",
    ["Functions that draw random phases use numpy's global generator by definition and are not interrupted.",
     "Interruptions are placed between lines of the package, by a trace function of this process."],
)

NAMES = sorted(k for k in FUNCS if not k.startswith("spectrum2timeseries"))
_ROOT = os.path.join(sut.REPO, sut.PKG)


def _run(func, args):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return [np.array(a) for a in c21._flat(func.call(**args))]


class _Interrupter:
    """Counts the lines of the package that are executed, and calls ``action`` before some of them."""

    def __init__(self, points, action):
        self.points, self.action, self.count, self.done = set(points), action, 0, 0
        self.where = {}

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.action is None:
                self.where.setdefault((frame.f_code, frame.f_lineno), []).append(self.count)
            if self.count in self.points:
                sys.settrace(None)
                try:
                    self.action()
                finally:
                    self.done += 1
                    sys.settrace(self._global)
        return self._local

    def _global(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(_ROOT) else None

    def run(self, func, args):
        old = sys.gettrace()
        sys.settrace(self._global)
        try:
            return _run(func, args)
        finally:
            sys.settrace(old)


@st.composite
def _cases(draw):
    def one():
        n = draw(sizes(16, 120, (300,)))
        return dict(name=draw(st.sampled_from(NAMES)), n=n, salt=draw(salts()), zero=draw(st.booleans()), int=False, t0=draw(st.sampled_from([0.0, 5.0])), positive=False)

    a, b = one(), one()
    if draw(ints(0, 1)):
        b["name"] = a["name"]
    return dict(a=a, b=b, at=draw(st.lists(floats(0.0, 1.0, 4), min_size=1, max_size=6)))


def _arguments(c):
    base, _ = c21._base(c)
    return FUNCS[c["name"]], {k: np.array(v) for k, v in FUNCS[c["name"]].args(base).items()}


def _same(got, want, what):
    c21._same(got, want, 1e-12, what)


@sub("C37", _cases(), 1500)
def interrupted_calls(c):
    (fa, aa), (fb, ab) = _arguments(c["a"]), _arguments(c["b"])
    na, nb = c["a"]["name"], c["b"]["name"]
    want_a, want_b = _run(fa, aa), _run(fb, ab)
    count = _Interrupter((), None)
    count.run(fa, aa)
    if count.count == 0:
        return False, ["no line of the package"]
    for at in c["at"]:
        k = 1 + min(int(at * count.count), count.count - 1)
        inner = []
        i = _Interrupter([k], lambda: inner.append(_run(fb, ab)))
        got = i.run(fa, aa)
        what = f"{na} interrupted at line {k} of {count.count} by {nb}"
        for r in inner:
            _same(r, want_b, what + ": result of the latter")
        _same(got, want_a, what + ": result of the former")
    return True, ["same function" if na == nb else "two functions"]


@st.composite
def _same_sizes(draw):
    a = draw(_cases())["a"]
    return dict(a=a, salt=draw(salts()), pick=draw(salts()))


@sub("C37", _same_sizes(), 500)
def interrupted_at_every_line(c):
    """Two calls of one function with arguments of the same size; each line is interrupted at its first and last execution."""
    name = c["a"]["name"]
    fa, aa = _arguments(c["a"])
    fb, ab = _arguments(dict(c["a"], salt=c["salt"]))
    want_a, want_b = _run(fa, aa), _run(fb, ab)
    count = _Interrupter((), None)
    count.run(fa, aa)
    points = sorted({k for hits in count.where.values() for k in (hits[0], hits[-1])})
    if len(points) > 60:
        r = np.random.Generator(np.random.PCG64(c["pick"]))
        points = sorted(r.choice(points, 60, replace=False))
    for k in points:
        inner = []
        i = _Interrupter([k], lambda: inner.append(_run(fb, ab)))
        got = i.run(fa, aa)
        what = f"{name} interrupted at line {k} of {count.count} by the same function"
        for r in inner:
            _same(r, want_b, what + ": result of the latter")
        _same(got, want_a, what + ": result of the former")
    differ = any(np.shape(p) != np.shape(q) or not np.array_equal(p, q, equal_nan=p.dtype.kind != "c") for p, q in zip(want_a, want_b))
    return bool(points) and differ, ["lines: " + ("60+" if len(points) >= 60 else "20+" if len(points) >= 20 else "<20")]


@sub("C37", _cases(), 700)
def interrupted_twice(c):
    """All drawn points in one execution, and the interrupting call interrupted itself."""
    (fa, aa), (fb, ab) = _arguments(c["a"]), _arguments(c["b"])
    want_a, want_b = _run(fa, aa), _run(fb, ab)
    ca, cb = _Interrupter((), None), _Interrupter((), None)
    ca.run(fa, aa)
    cb.run(fb, ab)
    if not ca.count or not cb.count:
        return False, ["no line of the package"]
    inner = []

    def action():
        k = 1 + min(int(c["at"][0] * cb.count), cb.count - 1)
        deep = _Interrupter([k], lambda: inner.append((_run(fa, aa), want_a)))
        inner.append((deep.run(fb, ab), want_b))

    points = {1 + min(int(at * ca.count), ca.count - 1) for at in c["at"]}
    got = _Interrupter(points, action).run(fa, aa)
    what = f"{c['a']['name']} and {c['b']['name']}, interrupting each other"
    for r, w in inner:
        _same(r, w, what)
    _same(got, want_a, what)
    return bool(inner), ["interruptions: " + ("1" if len(points) == 1 else "2+")]


# ---------------------------------------------------------------- settings of the process


def _settings(randomness):
    s = dict(
        errors=np.geterr(),
        printing={k: v for k, v in np.get_printoptions().items()},
        warnings=[repr(f) for f in warnings.filters],
        directory=os.getcwd(),
        environment=dict(os.environ),
        recursion=sys.getrecursionlimit(),
        figures=plt.get_fignums(),
        matplotlib={k: repr(v) for k, v in plt.rcParams.items()},
        backend=plt.get_backend(),
        random=random.getstate(),
        trace=sys.gettrace(),
    )
    if randomness:
        s["numpy random state"] = repr(np.random.get_state())
    return s


_PLOTS = ("Series.plot", "Spectrum.plot", "WaveHeights.plots", "text")


@st.composite
def _single(draw):
    return dict(
        name=draw(st.sampled_from(sorted(FUNCS) + list(_PLOTS))),
        n=draw(sizes(16, 80, (257, 600))),
        salt=draw(salts()),
        zero=draw(st.booleans()),
        int=False,
        t0=0.0,
        positive=False,
        bad=draw(st.sampled_from(["no", "no", "nan", "reversed", "short"])),
        which=draw(ints(0, 5)),
        raising=draw(st.booleans()),
    )


def _plot(name, b):
    if name == "text":
        for o in (Series(b["t"], b["x"]), Spectrum(b["f"], b["S"]), WaveHeights(b["h"], b["T"])):
            str(o), repr(o), format(o)
    elif name == "Series.plot":
        Series(b["t"], b["x"]).plot(plot_crossing=True)
    elif name == "Spectrum.plot":
        s = Spectrum(b["f"], b["S"])
        s.get_Tps()
        s.plot()
    else:
        w = WaveHeights(b["h"], b["T"])
        w.plot_hist_waveheight()
        w.plot_exceedance_waveheight()
        w.plot_exceedance_waveheight_Rayleigh(normalize=True)


@sub("C37", _single(), 700)
def settings_stay(c):
    """Error handling, warning filters, random states, figures and the like are as before after any call."""
    name = c["name"]
    base, _ = c21._base(dict(c, name=NAMES[0]) if name in _PLOTS else c)
    if name in _PLOTS:
        # the settings that a figure may need are made before
        args = None
    else:
        args = {k: np.array(v) for k, v in FUNCS[name].args(base).items()}
        k = sorted(args)[c["which"] % len(args)]
        if c["bad"] == "nan":
            args[k] = args[k].astype(complex if args[k].dtype.kind == "c" else float)
            args[k].reshape(-1)[c["salt"] % args[k].size] = np.nan
        elif c["bad"] == "reversed":
            args[k] = args[k][::-1].copy()
        elif c["bad"] == "short":
            args[k] = args[k][:-1].copy()
    ok = True
    old = np.seterr(all="raise" if c["raising"] and c["bad"] == "no" and args is not None else "warn")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.random.seed(c["salt"])
            plt.close("all")
            before = _settings(not name.startswith("spectrum2timeseries"))
            try:
                _plot(name, base) if args is None else FUNCS[name].call(**args)
            except Exception:
                ok = False
            after = _settings(not name.startswith("spectrum2timeseries"))
    finally:
        np.seterr(**old)
        plt.close("all")
    for k in before:
        if args is None and k == "figures":
            continue
        expect(after[k] == before[k], lambda: f"{name} changed the {k} of the process: {_difference(before[k], after[k])}")
    return ok, ["returned" if ok else "raised", "plot" if args is None else "computation"]


def _difference(a, b):
    if isinstance(a, dict):
        return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
    return (str(a)[:200], str(b)[:200])


# ---------------------------------------------------------------- calls that fail inside

_SPECTRUM = tuple("get_" + q for q in ("Hm0", "Hm0_HF", "Hm0_LF", "Tps", "Tp", "Tmm10", "Tmm10_HF", "Tmm10_LF", "Tm01", "Tm02", "s0p", "smm10", "smm10_HF")) + ("create_series", "plot")
_WAVES = ("sort", "get_Hrms", "get_Hmax", "get_Hs", "get_H2p_Rayleigh", "get_exceedance_waveheight", "highest_waves")
_WAVE_PLOTS = ("plot_hist_waveheight", "plot_exceedance_waveheight", "plot_exceedance_waveheight_Rayleigh")
_SERIES = ("get_crossing", "get_spectrum", "get_spectrum_raw", "get_bandpassfilter", "get_fourier_comp", "get_skewness", "get_asymmetry", "max", "min", "mean", "var", "plot")
_FAILING = [("Spectrum", m) for m in _SPECTRUM] + [("WaveHeights", m) for m in _WAVES + _WAVE_PLOTS] + [("Series", m) for m in _SERIES + _WAVES + _WAVE_PLOTS]
_SPOILED = ("short", "nan", "text", "none", "empty", "two-dimensional", "no")


@st.composite
def _objects(draw):
    kind, method = draw(st.sampled_from(_FAILING))
    return dict(
        kind=kind,
        method=method,
        spoil=draw(st.sampled_from(_SPOILED)),
        first=draw(st.booleans()),
        args=draw(st.sampled_from(["right", "right", "text", "none", "missing", "strange"])),
        path=draw(st.sampled_from(["", "folder", "format"])),
        salt=draw(salts()),
        raising=draw(st.booleans()),
    )


_ARGS = dict(create_series=(0.0, 30.0, 0.5), get_exceedance_waveheight=(20.0,), highest_waves=(0.4,), get_bandpassfilter=(0.1, 0.4))


@sub("C37", _objects(), 900)
def settings_stay_when_methods_fail(c):
    """Methods of objects whose arrays were spoiled afterwards, with unusable arguments, and plots to unusable files."""
    n = 24
    r = np.random.Generator(np.random.PCG64(c["salt"]))
    x = np.cos(1.3 * np.arange(n)) + 0.3 * r.normal(size=n)
    if c["kind"] == "Spectrum":
        o, names = Spectrum(np.arange(1, n + 1) * 0.05, r.uniform(0.1, 1.0, n)), ("f", "sVarDens")
        o.get_Tps()
    elif c["kind"] == "Series":
        o, names = Series(np.arange(n) * 0.5, x), ("time", "xTime")
        if c["method"] in _WAVES + _WAVE_PLOTS:
            names = ("hwave", "twave")
    else:
        o, names = WaveHeights(r.uniform(0.1, 1.0, n), r.uniform(2.0, 5.0, n)), ("hwave", "twave")
    which = names[0 if c["first"] else 1]
    v = getattr(o, which)
    if c["spoil"] == "short":
        v = v[:-3]
    elif c["spoil"] == "nan":
        v = v.copy()
        v[1] = np.nan
    elif c["spoil"] == "text":
        v = np.array(["a"] * len(v))
    elif c["spoil"] == "none":
        v = None
    elif c["spoil"] == "empty":
        v = v[:0]
    elif c["spoil"] == "two-dimensional":
        v = np.stack([v, v], axis=1)
    setattr(o, which, v)
    a, k = _ARGS.get(c["method"], ()), {}
    if c["args"] == "missing":
        a = a[:-1]
    elif c["args"] in ("text", "none"):
        a = tuple("x" if c["args"] == "text" else None for _ in a)
    elif c["args"] == "strange":
        k = dict(nosuch=1)
    if c["method"].startswith("plot") and c["path"]:
        # a folder that does not exist, or a format that matplotlib does not know: nothing is written
        k["savepath"] = os.path.join(_NOWHERE, "figure.png") if c["path"] == "folder" else os.path.join(os.sep, "tmp", "figure.nosuchformat")
    draws = c["method"] == "create_series"
    old = np.seterr(all="raise" if c["raising"] else "warn")
    ok = True
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.random.seed(c["salt"])
            plt.close("all")
            before = _settings(not draws)
            try:
                getattr(o, c["method"])(*a, **k)
            except Exception:
                ok = False
            after = _settings(not draws)
            os.chdir(before["directory"])
    finally:
        np.seterr(**old)
        plt.close("all")
    for q in before:
        if q == "figures" and c["method"].startswith("plot"):
            continue
        expect(after[q] == before[q], lambda: f"{c['kind']}.{c['method']} changed the {q} of the process: {_difference(before[q], after[q])}")
    return not ok, ["returned" if ok else "raised", "arrays: " + c["spoil"]]


_NOWHERE = os.path.join(os.sep, "tmp", "wtb-no-such-folder-c37")
