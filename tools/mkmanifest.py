"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
    "C01": "property-based testing: round trip, differential against a direct Fourier sum",
    "C02": "property-based testing: Parseval invariants and differential against a direct Fourier sum",
    "C03": "property-based testing: reference model (explicit band means), conservation invariants",
    "C04": "property-based testing: reference filter, idempotence and additivity of adjacent bands",
    "C05": "property-based testing: reference model (crossings by definition), metamorphic relations",
    "C06": "property-based testing: reference model (extremes between crossings)",
    "C07": "property-based testing: permutation/order validity, reference order statistics",
    "C08": "model-based testing of call histories against a fresh-object model",
    "C09": "property-based testing: reference integration, exactness on polynomials, analytic tail",
    "C10": "property-based testing: reference parameters, scaling relations, ordering bounds",
    "C11": "property-based testing: reference peak with exact rational parabola, bounds",
    "C12": "property-based testing: published formulas as reference, wave-height invariant",
    "C13": "property-based testing: composite-Weibull reference by quadrature, consistency invariants",
    "C14": "property-based testing: residual of the dispersion relation against its derived error bound",
    "C15": "property-based testing: synthetic two-way wave fields with known answer",
    "C16": "property-based testing: differential against a QR least-squares fit per component",
    "C17": "property-based testing: Fourier amplitudes against the interpolated spectrum, phase statistics",
    "C18": "stateful model-based testing of call histories against fresh objects",
    "C19": "property-based testing: differential against an explicit Welch estimate",
    "C20": "property-based testing: generated malformed and well-formed inputs (rejection/acceptance)",
    "C21": "property-based testing: input snapshots and representation metamorphic relations over all functions",
    "C22": "property-based testing: reference coherence, bounds and invariances",
    "C23": "property-based testing: reference statistics, invariances",
    "C24": "property-based testing: data of the drawn lines against the object, state snapshots",
    "C25": "property-based testing: reference definitions, energy additivity",
    "C26": "property-based testing: round trips over chains of synthesis, filter, analysis, decomposition",
    "C27": "metamorphic testing: exact unit, origin and sign transformations of records",
    "C28": "property-based testing: reference peak interval and moments, metamorphic unit and outside-density relations",
    "C29": "metamorphic testing: linearity, circular shifts, time reversal, mirrored gauges, commuting operations",
    "C30": "property-based and model-based testing: stored data, sizes and texts against the data given; call histories on twin objects",
    "C31": "metamorphic testing: limits against the cut-out spectrum, other densities outside, padding",
    "C32": "differential testing over number types for all public functions; uniform axes in single precision",
    "C33": "metamorphic testing: repeated and more densely sampled records",
    "C34": "metamorphic testing: stretches and concatenations of records, changed samples outside",
    "C35": "model-based testing: histories of computations, changes of the data and copies against new objects",
    "C36": "differential testing over scalar number types for all public functions",
    "C37": "property-based testing with injected interruptions (deterministic schedules), snapshots of process settings",
    "C38": "metamorphic testing: omitted, named and positional arguments",
    "C39": "property-based testing against an independent crossing oracle; metamorphic testing",
    "C40": "metamorphic testing: records run backwards",
}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(
        property=i,
        quick_cmd=f"/opt/venv/bin/python run.py {i} --tier quick",
        thorough_cmd=f"/opt/venv/bin/python run.py {i} --tier thorough",
        evidence_file=f"evidence/{i}.json",
        technique=T[i],
        level="exploration",
        level_note="Seeded random search (Hypothesis) over the generated inputs described in the evidence file, judged by an"
        " oracle independent of the code; failing cases are shrunk into a replay file. Shows presence of violations, never"
        " absence; trusts numpy, scipy (special functions), Hypothesis and the stated tolerances.",
    ))
json.dump(dict(
    version=1,
    setup_cmd="/opt/venv/bin/python tools/selfcheck.py",
    checks=checks,
    not_applicable=[],
    notes="No hooks in /repo: all properties are observable through the public interface. Saved cases in corpus/ are"
    " replayed by every run. Re-run a replay file with run.py <ID> --replay FILE.",
), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
