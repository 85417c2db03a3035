import os
import shutil
import tempfile
import warnings

from hypothesis import strategies as st

from wtb.core import close, expect, info, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.props.c09 import limits, to_f
from wtb.sut import Spectrum, core_spectral as cs, core_wavefunctions as cw, plt

info(
    "C18",
    "Histories of 2..14 calls of all thirteen parameter methods (limits absent, inside, beyond the axis or infinite,"
    " positional or by name, gravities 1.6..25), series creation, plots and use of the stored arrays in other functions,"
    " interleaved over two Spectrum objects. Reference model: a new object for every call. Non-trivial: at least three"
    " parameter calls with two different limits.",
    ["When a parameter computes another one on its way, the attribute of that other one may keep its value or take the"
     " value for the limits of the call."],
)

PARAMS = ("Hm0", "Hm0_HF", "Hm0_LF", "Tps", "Tp", "Tmm10", "Tmm10_HF", "Tmm10_LF", "Tm01", "Tm02", "s0p", "smm10", "smm10_HF")
STEEP = ("s0p", "smm10", "smm10_HF")


@st.composite
def _op(draw, axs, plots):
    i = draw(st.sampled_from([0, 0, 1]))
    k = draw(st.sampled_from(["param"] * 8 + ["create", "extern"] + (["plot", "plot", "plotfile"] if plots else [])))
    op = dict(obj=i, op=k)
    if k == "param":
        op["name"] = draw(st.sampled_from(PARAMS))
        op["lo"], op["hi"] = draw(st.one_of(limits(axs[i]), st.just((None, None))))
        op["style"] = draw(st.sampled_from(["name", "name", "positional"]))
        if op["name"] in STEEP:
            op["g"] = draw(st.one_of(st.none(), st.sampled_from([9.81, 9.8, 1.62]), floats(1.6, 25.0)))
    return op


@st.composite
def _cases(draw, plots=False):
    ss = [draw(spectra(4, 120, (401, 700, 1000, 2500, 5001))) for _ in range(2)]
    axs = [s["axis"] for s in ss]
    ops = draw(st.lists(_op(axs, plots), min_size=2, max_size=6 if plots else 14))
    return dict(s=ss, ops=ops)


def _arguments(op, a):
    lo, hi = to_f(op["lo"], a), to_f(op["hi"], a)
    if op["style"] == "positional":
        args = [-1.0 if lo is None else lo, -1.0 if hi is None else hi]
        if op.get("g") is not None:
            args.append(op["g"])
        return args, {}
    k = {}
    if lo is not None:
        k["fmin"] = lo
    if hi is not None:
        k["fmax"] = hi
    if op.get("g") is not None:
        k["g"] = op["g"]
    return [], k


def _outcome(o, name, args, kw):
    """Value and number of warnings of a parameter call; None as value when it raises."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            v = getattr(o, "get_" + name)(*args, **kw)
        except Exception:
            return None, 0
    n = sum(issubclass(w.category, UserWarning) for w in ws)
    a = np.asarray(v)
    expect(a.ndim == 0 and a.dtype.kind in "fiu", f"get_{name}: {v!r}")
    return float(a), n


def _near(a, b):
    return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-12 * abs(b)


def _history(c):
    data = [build_spectrum(s) for s in c["s"]]
    objs = [Spectrum(f.copy(), S.copy()) for f, S in data]
    d = tempfile.mkdtemp(prefix="wtb-c18-")
    attrs = [{}, {}]
    calls, lims = 0, set()
    try:
        for j, op in enumerate(c["ops"]):
            i = op["obj"]
            o, (f, S) = objs[i], data[i]
            what = f"call {j}"
            if op["op"] == "param":
                name = op["name"]
                args, kw = _arguments(op, c["s"][i]["axis"])
                what = f"call {j}, get_{name}{tuple(args)}{kw}"
                new = Spectrum(f.copy(), S.copy())
                want, nw = _outcome(new, name, args, kw)
                got, ng = _outcome(o, name, args, kw)
                expect((got is None) == (want is None), f"{what}: gives {got!r}, on a new object {want!r}")
                if want is not None:
                    expect(_near(got, want), f"{what}: gives {got!r}, on a new object {want!r}")
                    expect((ng > 0) == (nw > 0), f"{what}: {ng} warnings, on a new object {nw}")
                    expect(hasattr(o, name), f"{what}: no attribute {name}")
                    v = getattr(o, name)
                    expect(np.ndim(v) == 0 and _near(float(v), got), f"{what}: returned {got!r}, attribute {v!r}")
                    calls += 1
                    lims.add((i, op["lo"], op["hi"]))
                for p in PARAMS:
                    has = hasattr(o, p)
                    before = attrs[i].get(p)
                    now = float(getattr(o, p)) if has else None
                    if want is not None and p != name:
                        ok = [before] + ([float(getattr(new, p))] if hasattr(new, p) else [])
                        expect(
                            any((now is None) == (q is None) and (now is None or _near(now, q)) for q in ok),
                            f"{what}: attribute {p} is {now!r}, was {before!r}",
                        )
                    if has:
                        attrs[i][p] = now
            elif op["op"] == "create":
                o.create_series(0.0, 20.0 * 0.25 / f[-1], 0.25 / f[-1])
            elif op["op"] == "extern":
                cw.compute_spectrum_params(o.f, o.sVarDens)
                cw.compute_tps(o.f, o.sVarDens)
                cs.frequency_averaging(o.f, o.sVarDens, 2 * c["s"][i]["axis"]["df"])
            else:
                try:
                    o.plot(savepath=os.path.join(d, "p.png")) if op["op"] == "plotfile" else o.plot()
                finally:
                    plt.close("all")
            for q, (oo, (ff, SS)) in enumerate(zip(objs, data)):
                close(vec(oo.f, len(ff), what + ": f"), ff, 0.0, 0.0, what + ": stored frequencies")
                close(vec(oo.sVarDens, len(SS), what + ": sVarDens"), SS, 0.0, 0.0, what + ": stored densities")
                expect(oo.nf == len(ff), f"{what}: nf {oo.nf!r}")
                if q != i or op["op"] != "param":
                    for p in PARAMS:
                        now = float(getattr(oo, p)) if hasattr(oo, p) else None
                        was = attrs[q].get(p)
                        expect(
                            (now is None) == (was is None) and (now is None or _near(now, was)),
                            f"{what}: attribute {p} of {'another' if q != i else 'the'} object is {now!r}, was {was!r}",
                        )
    finally:
        shutil.rmtree(d, ignore_errors=True)
        plt.close("all")
    return calls >= 3 and len(lims) >= 2, ["calls: " + ("0-2" if calls < 3 else "3-6" if calls < 7 else "7+")]


@sub("C18", _cases(), 1500)
def parameters(c):
    return _history(c)


@sub("C18", _cases(True), 120, 2000)
def parameters_and_plots(c):
    return _history(c)


@st.composite
def _damaged(draw):
    a = draw(faxes(4, 60))
    n = a["n"]
    return dict(
        axis=a,
        S=draw(densities(n)),
        at=draw(st.lists(st.tuples(ints(0, n - 1), st.sampled_from(["nan", "nan", "inf", "-1"])), min_size=1, max_size=4)),
        calls=draw(st.lists(st.tuples(st.sampled_from(PARAMS), st.booleans()), min_size=1, max_size=6)),
    )


@sub("C18", _damaged(), 500)
def missing_densities(c):
    """Densities that are missing (NaN), infinite or negative: the calls do as on a new object, and leave them as they are."""
    f, S = build_faxis(c["axis"]), build_density(c["S"], c["axis"]["n"])
    for i, v in c["at"]:
        S[i] = float(v)
    o = Spectrum(f.copy(), S.copy())
    with np.errstate(all="ignore"):
        for name, limited in c["calls"]:
            kw = dict(fmin=float(f[1]), fmax=float(f[-1])) if limited else {}
            got, _ = _outcome(o, name, [], kw)
            want, _ = _outcome(Spectrum(f.copy(), S.copy()), name, [], kw)
            expect((got is None) == (want is None), f"get_{name} gives {got!r}, on a new object {want!r}")
            if want is not None:
                expect(_near(got, want), f"get_{name} gives {got!r}, on a new object {want!r}")
            for a, b, q in ((o.f, f, "frequencies"), (o.sVarDens, S, "densities")):
                a = np.asarray(a, float).ravel()
                expect(np.array_equal(a, b, equal_nan=True), f"get_{name} changed the stored {q}: {a} instead of {b}")
    return len(c["calls"]) > 1, []
