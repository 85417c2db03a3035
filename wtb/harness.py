"""Runs the generated checks of one property, and writes its evidence file."""
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NPROC = 8
SHRINK_S = 40.0  # time spent on shrinking a failure, after which the best case so far is reported
CASE_S = 60  # seconds for one case, which takes milliseconds: beyond, the code is taken not to return
SAMPLES = 2  # samples per generated check in the evidence file


class _StopShrink(BaseException):
    pass


class _CaseTimeout(BaseException):
    pass


def _on_alarm(*_):
    raise _CaseTimeout()


def _setup_env():
    """Private matplotlib configuration directory (a copy, so that the font cache is at hand)."""
    d = tempfile.mkdtemp(prefix="wtb-mpl-")
    src = "/opt/vp/mplconfig"
    if os.path.isdir(src):
        for f in glob.glob(src + "/*.json"):
            shutil.copy(f, d)
    os.environ["MPLCONFIGDIR"] = d
    return d


def _digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _shorten(x, limit=1500):
    s = json.dumps(x)
    return x if len(s) <= limit else {"shortened": s[:limit]}


def run_case(subcheck, case):
    """Executes one case. Returns (nontrivial, labels), raises Violation, or an error of the harness."""
    import numpy as np

    from wtb.core import Violation
    from wtb.sut import REPO

    np.random.seed(20240229)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_S)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            r = subcheck.func(case)
    except Violation:
        raise
    except _CaseTimeout:
        raise Violation(f"did not return within {CASE_S} seconds") from None
    except Exception as e:
        # an exception out of the code under test on a case that it has to handle breaks the
        # property; an exception that did not pass through it is an error of this harness
        for fr in traceback.extract_tb(e.__traceback__):
            if fr.filename.startswith(REPO + "/deltares_wave_toolbox/"):
                raise Violation(
                    f"raised {type(e).__name__}: {e} (at {os.path.relpath(fr.filename, REPO)}:{fr.lineno})"
                ) from e
        o = getattr(e, "obj", None) if isinstance(e, AttributeError) else None
        if type(o).__module__.startswith("deltares_wave_toolbox.") and not e.name.startswith("_"):
            raise Violation(f"an object of {type(o).__name__} has no attribute {e.name!r}") from e
        raise
    finally:
        signal.alarm(0)
    if r is None:
        return True, []
    if isinstance(r, tuple):
        return bool(r[0]), list(r[1])
    return bool(r), []


def _find_sub(prop, name):
    from wtb.core import REGISTRY

    importlib.import_module("wtb.props." + prop.lower())
    for s in REGISTRY[prop]:
        if s.name == name:
            return s
    raise KeyError(f"{prop}: no check named {name}")


def _job(args):
    """One shard: max_examples generated cases of one check, with a seed of its own."""
    prop, name, shard, n, seed = args
    out = dict(
        sub=name, shard=shard, evaluations=0, nontrivial=set(), labels={}, samples=[], violation=None, error=None
    )
    try:
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings
        from hypothesis import seed as hseed

        from wtb.core import Violation

        s = _find_sub(prop, name)
        st = dict(fail=None, t0=None, recent=[])

        def inner(case):
            if st["t0"] is not None and time.monotonic() - st["t0"] > SHRINK_S:
                raise _StopShrink()
            try:
                nontrivial, labels = run_case(s, case)
            except Violation as v:
                if st["t0"] is None:
                    st["t0"] = time.monotonic()
                    st["first"] = (case, str(v), list(st["recent"]))
                st["fail"] = (case, str(v))
                if "did not return within" in str(v):
                    raise _StopShrink()
                raise
            finally:
                if st["t0"] is None:
                    st["recent"] = (st["recent"] + [case])[-40:]
            if st["t0"] is not None:
                return
            out["evaluations"] += 1
            if nontrivial:
                out["nontrivial"].add(_digest(case))
                if len(out["samples"]) < SAMPLES and out["evaluations"] % 7 == 3:
                    out["samples"].append(_shorten(dict(check=name, case=case)))
            for lb in labels:
                out["labels"][lb] = out["labels"].get(lb, 0) + 1

        test = given(s.strategy)(inner)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            verbosity=Verbosity.quiet,
            print_blob=False,
            report_multiple_bugs=False,
        )(test)
        hs = int(hashlib.sha256(f"{seed}/{prop}/{name}/{shard}".encode()).hexdigest()[:15], 16)
        test = hseed(hs)(test)
        try:
            test()
        except _StopShrink:
            pass
        except BaseException:
            if st["fail"] is None:
                raise
        if st["fail"] is not None:
            out["violation"] = dict(
                case=st["fail"][0],
                message=st["fail"][1],
                first_case=st["first"][0],
                first_message=st["first"][1],
                before=st["first"][2],
            )
    except BaseException as e:
        out["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    return out


def _replay_job(args):
    """Executes cases in order in this process; returns the message of the last one, or None."""
    prop, name, cases = args
    from wtb.core import Violation

    s = _find_sub(prop, name)
    msg = None
    for c in cases:
        try:
            run_case(s, c)
            msg = None
        except Violation as v:
            msg = str(v)
    return msg


def _child(func, arg, conn):
    conn.send(func(arg))
    conn.close()


class _Ended(Exception):
    """A process of the check ended without a result."""


def _results(ctx, tasks, nproc):
    """Runs (func, arg) tasks, each in a process of its own, at most nproc at a time; yields (func, result).

    There are no threads and no shared locks, so that a process that is ended from outside is noticed (its pipe
    closes; the task is tried once more), and the processes can be killed at any moment.
    """
    todo = [(func, arg, 2) for func, arg in tasks]
    live = {}
    try:
        while todo or live:
            while todo and len(live) < nproc:
                task = todo.pop(0)
                r, w = ctx.Pipe(duplex=False)
                p = ctx.Process(target=_child, args=(task[0], task[1], w))
                p.start()
                w.close()
                live[r] = (p, task)
            for r in mp.connection.wait(list(live)):
                p, (func, arg, tries) = live.pop(r)
                try:
                    out = r.recv()
                except EOFError:
                    p.join()
                    if tries == 1:
                        raise _Ended(f"{func.__name__} ended with exit code {p.exitcode} and without a result")
                    todo.insert(0, (func, arg, tries - 1))
                    continue
                finally:
                    r.close()
                p.join(10)
                if p.is_alive():
                    p.kill()
                    p.join()
                yield func, out
    finally:
        for p, _ in live.values():
            p.kill()
        for p, _ in live.values():
            p.join()


def _isolated(ctx, func, arg):
    for _, out in _results(ctx, [(func, arg)], 1):
        return out


def _corpus(prop):
    path = os.path.join(VERIF, "corpus", prop + ".jsonl")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [json.loads(line) for line in fh if line.strip()]


def _corpus_job(args):
    """Replays saved cases (regressions of repaired defects and of planted bugs)."""
    prop, entries = args
    from wtb.core import Violation

    bad, errors, good, labels = [], [], [], 0
    for e in entries:
        try:
            s = _find_sub(prop, e["check"])
            nt, _ = run_case(s, e["case"])
            good.append((_digest(e["case"]), e["check"], nt))
        except Violation as v:
            bad.append(dict(sub=e["check"], case=e["case"], message=str(v)))
        except Exception as ex:
            errors.append(f"corpus {e['check']}: {type(ex).__name__}: {ex}\n{traceback.format_exc()}")
    return bad, errors, good


def known_findings(prop):
    """Open findings of this property (known_findings.jsonl); fixed entries suppress nothing."""
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                if line.strip():
                    d = json.loads(line)
                    if d["property"] == prop and d["status"] == "open":
                        out.append(d)
    return out


def _replay_main(prop, path):
    with open(path) as fh:
        d = json.load(fh)
    msg = _replay_job((d["property"], d["check"], d.get("before", []) + [d["case"]]))
    if msg:
        print(f"{d['check']}: {msg}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the case passes")
    return 0


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("WTB_SCALE", "1"))
    only = os.environ.get("WTB_ONLY")
    mpldir = _setup_env()
    sys.path.append(HYP)  # at the end: numpy and scipy are those the code under test runs with
    try:
        if "--replay" in argv:
            return _replay_main(prop, argv[argv.index("--replay") + 1])
        return _main(prop, tier, seed, scale, only)
    finally:
        shutil.rmtree(mpldir, ignore_errors=True)


def _main(prop, tier, seed, scale, only):
    t_start = time.monotonic()
    from wtb.core import INFO, REGISTRY

    importlib.import_module("wtb.props." + prop.lower())
    subs = [s for s in REGISTRY[prop] if not only or s.name in only.split(",")]
    ctx = mp.get_context("fork")

    jobs = []
    for s in subs:
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        # shards of limited size: they run in parallel, and no shard gets long
        per = max(1, s.quick // 3) if tier == "quick" else max(s.quick, 1)
        nsh = max(1, -(-total // per))
        for k in range(nsh):
            jobs.append((prop, s.name, k, -(-total // nsh), seed))

    violations, errors = [], []
    agg = {s.name: dict(evaluations=0, nontrivial=set(), labels={}, samples=[]) for s in subs}
    corpus = _corpus(prop) if not only else []
    good = []
    tasks = [(_corpus_job, (prop, corpus))] + [(_job, j) for j in jobs]
    for func, r in _results(ctx, tasks, NPROC):
        if func is _corpus_job:
            bad, cerr, good = r
            errors += cerr
            violations += bad
            continue
        a = agg[r["sub"]]
        a["evaluations"] += r["evaluations"]
        a["nontrivial"] |= r["nontrivial"]
        if len(a["samples"]) < SAMPLES:
            a["samples"] += r["samples"][: SAMPLES - len(a["samples"])]
        for k, v in r["labels"].items():
            a["labels"][k] = a["labels"].get(k, 0) + v
        if r["error"]:
            errors.append(f"{r['sub']}: {r['error']}")
        if r["violation"]:
            violations.append(dict(sub=r["sub"], shard=r["shard"], **r["violation"]))
            if sum("shard" in v for v in violations) >= 3:
                break

    # ---- reports
    rc = 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    open_findings = {(k["check"], _digest(k["case"])): k for k in known_findings(prop)}
    for k in open_findings.values():
        msg = _isolated(ctx, _replay_job, (prop, k["check"], [k["case"]]))
        if msg:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    n_viol = 0
    for v in sorted(violations, key=lambda v: len(json.dumps(v["case"]))):
        if (v["sub"], _digest(v["case"])) in open_findings:
            continue
        rep = dict(property=prop, check=v["sub"], message=v["message"], case=v["case"])
        # the replay file has to fail on its own, in a fresh process: a failure that depends on the
        # cases executed before it is saved together with those
        if not _isolated(ctx, _replay_job, (prop, v["sub"], [v["case"]])) and "before" in v:
            rep.update(case=v["first_case"], message=v["first_message"], before=v["before"][:-1])
            if _isolated(ctx, _replay_job, (prop, v["sub"], [v["first_case"]])):
                rep.pop("before")
        path = os.path.join("replays", f"{prop}-{v['sub']}-{_digest(rep['case'])}.json")
        with open(os.path.join(VERIF, path), "w") as fh:
            json.dump(rep, fh, indent=1)
        print(f"{prop}/{v['sub']}: {rep['message']}")
        print(f"  case: {json.dumps(rep['case'])[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
        n_viol += 1
    if errors and rc == 0:
        print(f"ERROR of the check ({len(errors)} in all): {errors[0]}", file=sys.stderr)
        rc = 2

    wall = time.monotonic() - t_start
    rule, assumptions = INFO.get(prop, ("", []))
    evals = sum(a["evaluations"] for a in agg.values()) + len(good)
    distinct = sum(len(a["nontrivial"]) for a in agg.values()) + len({g[0] for g in good if g[2]})
    ev = dict(
        property=prop,
        tier=tier if tier in ("quick", "thorough") else "quick",
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=distinct,
            rule=rule,
            samples=[x for a in agg.values() for x in a["samples"]] or ["none"],
            per_check={
                k: dict(
                    evaluations=a["evaluations"],
                    distinct_nontrivial=len(a["nontrivial"]),
                    labels=dict(sorted(a["labels"].items())),
                )
                for k, a in agg.items()
            },
            saved_cases_replayed=len(good),
        ),
        assumptions=assumptions,
        wall_s=round(wall, 2),
        violations=n_viol,
    )
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(
        f"{prop} {tier} seed={seed}: {evals} cases, {distinct} distinct non-trivial,"
        f" {n_viol} violations, {wall:.1f} s"
    )
    return rc
