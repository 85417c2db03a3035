import copy
import pickle
import warnings

from hypothesis import strategies as st

from wtb.core import close, expect, info, sub, vec
from wtb.gens import *  # noqa: F401,F403
from wtb.props import c21
from wtb.props.c09 import limits, to_f
from wtb.sut import Series, Spectrum, WaveHeights

info(
    "C35",
    "Wave lists, spectra and records; histories of 2..8 steps, each a computation or a change of the object's data (single"
    " values written in place, all values scaled in place, another array assigned, waves re-ordered); and objects that are"
    " copied (copy, deepcopy, pickle) between two computations. Non-trivial: at least one computation after a change.",
    ["The individual waves of a Series are determined when it is made, so that only the functions of its record are"
     " compared after a change of the record.",
     "The size of the data does not change."],
)

_WAVES = ("Hrms", "Hmax", "Hs", "H2p", "frac", "exc")
_SPECTRUM = ("Hm0", "Hm0_HF", "Hm0_LF", "Tps", "Tp", "Tmm10", "Tmm10_HF", "Tmm10_LF", "Tm01", "Tm02", "s0p", "smm10", "smm10_HF")
_SERIES = ("max", "min", "mean", "var", "skewness", "asymmetry", "fourier", "raw", "welch", "crossing", "filter")
_changes = st.one_of(
    st.tuples(st.just("value"), ints(0, 10**6), floats(0.05, 4.0)).map(list),
    st.tuples(st.just("scale"), st.sampled_from([2.0, 0.5, 3.0, 0.1])).map(list),
    st.tuples(st.just("assign"), salts(), ints(0, 3)).map(list),
    st.tuples(st.just("swap"), ints(0, 10**6)).map(list),
)


@st.composite
def _cases(draw):
    kind = draw(st.sampled_from(["waves", "spectrum", "series"]))
    c = dict(kind=kind, copy=draw(st.sampled_from(["no", "no", "copy", "deepcopy", "pickle"])))
    if kind == "spectrum":
        c["s"] = draw(spectra(6, 200, (1000,), kinds=("noise", "peak", "const", "jonswap"), scales=False))
        c["lim"] = draw(st.one_of(st.just((None, None)), limits(c["s"]["axis"])))
        names = _SPECTRUM
    elif kind == "series":
        c["r"] = draw(records(16, 200, (1000,), scales=False, kinds=("noise", "waves", "sines")))
        names = _SERIES
    else:
        c["n"] = draw(sizes(2, 200))
        c["salt"] = draw(salts())
        c["p"] = draw(floats(0.05, 1.0))
        names = _WAVES
    calls = st.sampled_from(names).map(lambda v: ["call", v])
    c["ops"] = draw(st.lists(st.one_of(calls, calls, _changes), min_size=2, max_size=8))
    return c


def _value(o, name, c):
    """Result of one computation; None when it raises."""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            r = _compute(o, name, c)
        except Exception:
            return None
        return [np.array(v) for v in c21._flat(r)]


def _compute(o, name, c):
    if c["kind"] == "waves":
        if name == "frac":
            return o.highest_waves(c["p"])
        if name == "exc":
            return o.get_exceedance_waveheight(100.0 * c["p"])
        if name == "H2p":
            return o.get_H2p_Rayleigh()
        return getattr(o, "get_" + name)()
    if c["kind"] == "spectrum":
        lo, hi = (to_f(v, c["s"]["axis"]) for v in c["lim"])
        k = {}
        if lo is not None:
            k["fmin"] = lo
        if hi is not None:
            k["fmax"] = hi
        return getattr(o, "get_" + name)(**k)
    T = c["r"]["axis"]["n"] * c["r"]["axis"]["dt"]
    if name in ("max", "min", "mean", "var"):
        return getattr(o, name)()
    if name == "fourier":
        return list(o.get_fourier_comp())
    if name == "raw":
        s = o.get_spectrum_raw(2.0 / T)
        return [s.f, s.sVarDens]
    if name == "welch":
        s = o.get_spectrum(dfDesired=4.0 / T)
        return [s.f, s.sVarDens]
    if name == "crossing":
        return list(o.get_crossing())
    if name == "filter":
        s = o.get_bandpassfilter(1.6 / T, 4.4 / T)
        return [s.xTime]
    return getattr(o, "get_" + name)()


def _change(o, op, attr):
    """Changes the data of the object: attr is the name of the attribute with the values."""
    v = np.asarray(getattr(o, attr), float)
    if op[0] == "value":
        getattr(o, attr)[op[1] % len(v)] = op[2]
    elif op[0] == "scale":
        a = getattr(o, attr)
        a *= op[1]
    elif op[0] == "assign":
        r = np.random.Generator(np.random.PCG64(op[1]))
        new = r.uniform(0.1, 3.0, len(v)) if attr != "xTime" else r.normal(size=len(v))
        keep = op[2] if len(op) > 2 else 0
        if keep & 1:
            # other values between the same first, last and largest values
            new[[0, -1]] = v[[0, -1]]
        if keep & 2 and len(v) > 3:
            new[1:-1] = np.clip(new[1:-1], np.min(v), np.max(v))
            new[int(np.argmax(v))] = np.max(v)
        setattr(o, attr, new)
    else:
        k = op[1] % len(v)
        a = getattr(o, attr)
        a[[0, k]] = a[[k, 0]]


def _make(c):
    if c["kind"] == "waves":
        r = np.random.Generator(np.random.PCG64(c["salt"]))
        return WaveHeights(r.uniform(0.1, 3.0, c["n"]), r.uniform(2.0, 9.0, c["n"])), "hwave"
    if c["kind"] == "spectrum":
        f, S = build_spectrum(c["s"])
        return Spectrum(f, S), "sVarDens"
    t, x = build_record(c["r"])
    return Series(t, x), "xTime"


def _fresh(o, c):
    if c["kind"] == "waves":
        return WaveHeights(np.array(o.hwave), np.array(o.twave))
    if c["kind"] == "spectrum":
        return Spectrum(np.array(o.f), np.array(o.sVarDens))
    return Series(np.array(o.time), np.array(o.xTime))


def _equal(got, want, what):
    expect((got is None) == (want is None), f"{what}: {got!r} and {want!r}")
    if got is None:
        return
    expect(len(got) == len(want), f"{what}: {len(got)} and {len(want)} results")
    for a, b in zip(got, want):
        fin = np.isfinite(b) if b.dtype.kind in "fc" else None
        top = float(np.max(np.abs(b[fin]))) if b.size and fin is not None and np.any(fin) else 0.0
        close(a, b, 1e-11, 1e-13 * top, what)


@sub("C35", _cases(), 2500)
def current_data(c):
    o, attr = _make(c)
    changed = judged = False
    half = len(c["ops"]) // 2
    for j, op in enumerate(c["ops"]):
        if j == half and c["copy"] != "no":
            o = dict(copy=copy.copy, deepcopy=copy.deepcopy, pickle=lambda v: pickle.loads(pickle.dumps(v)))[c["copy"]](o)
        if op[0] == "call":
            what = f"step {j}, {op[1]} of the {c['kind']}"
            new = _fresh(o, c)
            _equal(_value(o, op[1], c), _value(new, op[1], c), what + ", and that of a new object with the present data")
            judged = judged or changed
        else:
            _change(o, op, attr)
            changed = True
    return judged, [c["kind"], c["copy"]]


@sub("C35", st.fixed_dictionaries(dict(c=_cases(), changes=st.lists(_changes, min_size=1, max_size=2))), 700)
def all_functions_around_a_change(c):
    """Every function of the object is called, the data are changed, and every function is called again."""
    case = c["c"]
    o, attr = _make(case)
    names = dict(waves=_WAVES, spectrum=_SPECTRUM, series=_SERIES)[case["kind"]]
    for name in names:
        _value(o, name, case)
    for op in c["changes"]:
        _change(o, op, attr)
    got = [_value(o, name, case) for name in names]
    new = _fresh(o, case)
    for name, v in zip(names, got):
        _equal(v, _value(new, name, case), f"{name} of the {case['kind']} after a change of its data, and that of a new object")
    return True, [case["kind"], c["changes"][-1][0]]


@sub("C35", _cases(), 1000)
def copies_are_independent(c):
    """Work on a deep copy or on an unpickled object leaves the original alone, and the other way round."""
    o, attr = _make(c)
    how = "pickle" if c["copy"] == "pickle" else "deepcopy"
    half = len(c["ops"]) // 2
    for op in c["ops"][:half]:
        if op[0] == "call":
            _value(o, op[1], c)
    d = copy.deepcopy(o) if how == "deepcopy" else pickle.loads(pickle.dumps(o))
    expect(type(d) is type(o) and repr(d) == repr(o) and str(d) == str(o), f"{d!r} after {how} of {o!r}")
    state = {k: np.array(v) for k, v in vars(o).items()}
    copied = {k: np.array(v) for k, v in vars(d).items()}
    expect(set(state) == set(copied), f"{how}: attributes {sorted(set(state) ^ set(copied))}")
    for k in state:
        if state[k].dtype.kind in "fiubc":
            close(copied[k], state[k], 0.0, 0.0, f"attribute {k} after {how}")
    worked = False
    for a, b, want, which in ((d, o, state, "copy"), (o, d, copied, "original")):
        for op in c["ops"][half:]:
            if op[0] == "call":
                _value(a, op[1], c)
            else:
                _change(a, op, attr)
                worked = True
        if a is d:
            now = {k: np.array(v) for k, v in vars(b).items()}
            for k in want:
                if want[k].dtype.kind in "fiubc":
                    close(vec(np.ravel(now[k])), vec(np.ravel(want[k])), 0.0, 0.0, f"attribute {k} of the original after work on the {which} ({how})")
    return worked, [c["kind"], how]


@sub("C35", st.fixed_dictionaries(dict(c=c21._cases(), salt=salts(), how=st.sampled_from(["noise", "one", "twice"]))), 1500)
def arrays_changed_between_calls(c):
    """A function called again with the same arrays sees the values that they have by then."""
    func = c21.FUNCS[c["c"]["name"]]
    name = c["c"]["name"]
    c1 = dict(c["c"], int=False)
    args = {k: np.array(v) for k, v in func.args(c21._base(c1)[0]).items()}
    if c["how"] == "noise":
        later = {k: np.array(v) for k, v in func.args(c21._base(dict(c1, salt=c["salt"]))[0]).items()}
    else:
        later = {k: v.copy() for k, v in args.items()}
        for k in ("x", "S", "X", "h", "w", "y"):
            if k in later and (k != "h" or name in ("WaveHeights", "sort_wave_params")) and name[:5] != "decom":
                if c["how"] == "twice":
                    later[k] *= 2.0
                else:
                    v = later[k].reshape(-1)
                    v[c["salt"] % v.size] = 0.5 * (np.max(v.real) + np.min(v.real)) + 0.1
    if any(later[k].shape != args[k].shape for k in args):
        return False, []
    np.random.seed(5)
    c21._run(func, args, name)
    for k in args:
        args[k][...] = later[k]
    np.random.seed(5)
    got = c21._run(func, args, name + ", second call")
    np.random.seed(5)
    want = c21._run(func, {k: v.copy() for k, v in later.items()}, name)
    c21._same(got, want, 0.0, name + " with the same arrays after a change of their values")
    return True, [name]
