"""Registry of generated checks, and the helpers the checks use to state an expectation."""
import numpy as np


class Violation(Exception):
    """The code under test broke the property on the current case."""


REGISTRY = {}  # property id -> list of Sub
INFO = {}  # property id -> (rule, assumptions)


class Sub:
    def __init__(self, prop, name, strategy, func, quick, thorough):
        self.prop, self.name, self.strategy, self.func = prop, name, strategy, func
        self.quick, self.thorough = quick, thorough


def sub(prop, strategy, quick, thorough=None):
    """Registers ``func(case) -> (nontrivial, labels)`` as generated check of a property.

    ``strategy`` generates JSON-serialisable cases: the case alone determines what is executed.
    """

    def deco(func):
        REGISTRY.setdefault(prop, []).append(
            Sub(prop, func.__name__, strategy, func, quick, thorough or quick * 20)
        )
        return func

    return deco


def info(prop, rule, assumptions=()):
    INFO[prop] = (rule, list(assumptions))


# ---------------------------------------------------------------- expectations


def fail(msg):
    raise Violation(msg)


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _short(a):
    with np.printoptions(threshold=12, edgeitems=4, precision=17):
        return repr(a)


def vec(x, n=None, what="result", kind="f"):
    """x as a one-dimensional numeric array of n entries; anything else is a violation."""
    try:
        a = np.asarray(x)
    except Exception as e:  # ragged and the like
        raise Violation(f"{what}: not an array: {e!r}")
    if a.dtype == object or a.dtype.kind not in "fiubc":
        raise Violation(f"{what}: not numeric: {_short(x)}")
    if kind == "f" and a.dtype.kind == "c":
        raise Violation(f"{what}: complex instead of real: {_short(x)}")
    if a.size == 0 and (n is None or n == 0):
        return np.zeros(0, dtype=complex if kind == "c" else float)
    if a.ndim != 1:
        raise Violation(f"{what}: {a.ndim} dimensions instead of one: {_short(x)}")
    if n is not None and len(a) != n:
        raise Violation(f"{what}: {len(a)} entries instead of {n}")
    return a.astype(complex if kind == "c" else float)


def num(x, what="result"):
    """x as float; anything that is not a single real number is a violation."""
    try:
        a = np.asarray(x)
    except Exception as e:
        raise Violation(f"{what}: not a number: {e!r}")
    if a.dtype == object or a.dtype.kind not in "fiub" or a.ndim != 0:
        raise Violation(f"{what}: not a single real number: {_short(x)}")
    return float(a)


def pair(x, what="result", n=2):
    """x as tuple of n results."""
    try:
        t = tuple(x)
    except TypeError:
        raise Violation(f"{what}: not a sequence of {n} results: {_short(x)}")
    if len(t) != n:
        raise Violation(f"{what}: {len(t)} results instead of {n}")
    return t


def close(got, want, rtol=0.0, atol=0.0, what="result"):
    """|got - want| <= atol + rtol * |want| everywhere, nan equal to nan, inf equal to inf."""
    try:
        got, want = np.asarray(got), np.asarray(want)
    except Exception as e:
        raise Violation(f"{what}: not an array: {e!r}")
    if got.dtype.kind not in "fiubc":
        raise Violation(f"{what}: not numeric: {_short(got)}")
    if got.dtype.kind == "b":
        got = got.astype(int)
    if want.dtype.kind == "b":
        want = want.astype(int)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape} instead of {want.shape}")
    with np.errstate(all="ignore"):
        tol = np.asarray(atol) + rtol * np.abs(want)
        diff = np.abs(got - want)
        ok = (diff <= tol) | (got == want) | (np.isnan(got) & np.isnan(want))
    if not np.all(ok):
        bad = np.argwhere(~ok)[0]
        ix = tuple(int(i) for i in bad)
        raise Violation(
            f"{what}: {int(np.sum(~ok))} of {ok.size} values differ, first at {list(ix)}: got"
            f" {got[ix]!r}, expected {want[ix]!r} (tolerance {np.broadcast_to(tol, got.shape)[ix]!r})"
        )


def same(got, want, what="result"):
    """Bit-for-bit the same values (nan equal to nan)."""
    close(got, want, 0.0, 0.0, what)


def rejects(func, what):
    """func() has to raise an ordinary exception."""
    try:
        r = func()
    except Exception:
        return
    raise Violation(f"{what}: accepted, returned {_short(r)}")


def scale_of(x):
    x = np.asarray(x)
    return float(np.max(np.abs(x))) if x.size else 0.0
