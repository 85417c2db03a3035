"""Writes DESIGN.md from the text below, the registered checks and the results on the planted bugs."""
import glob, importlib, json, os, sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from wtb.core import INFO, REGISTRY  # noqa: E402

PROPS = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in PROPS:
    importlib.import_module("wtb.props." + p["id"].lower())

INTRO = open(os.path.join(V, "tools", "design_intro.md")).read()
OUTRO = open(os.path.join(V, "tools", "design_outro.md")).read()
# id -> (oracle, why the search reaches what the tests cannot)
TEXT = {
 "C01": ("Round trips time -> frequency -> time, folded and unfolded; every coefficient against the defining sum sum x exp(-2 pi i k j / n) with exactly reduced phases; the parity flag; Hermitian symmetry.",
         "Both parities, lengths from 2 to thousands, any start time and step; the tests transform one or two records."),
 "C02": ("Density of each Fourier component against 2|X|^2/(df n^2) by the defining sum, Parseval's identity for the variance, the coarse spectrum against explicit band means of the fine one.",
         "Energy conservation has to hold for every length, parity, offset and resolution."),
 "C03": ("Explicit means over round(df_desired/df) bins, completeness of bands, sums over bands are conserved, averaging in two steps.",
         "Ratios of spacings around halves and band counts that leave a remainder are a set of measure nearly zero in any list of examples."),
 "C04": ("Reference filter that keeps bins lo <= k < hi of the real FFT; idempotence; adjacent bands sum to the joint band; single cosines.",
         "The interesting cases are an edge in the last bins, empty bands, odd records: all relative to a record length."),
 "C05": ("Crossings by definition (sample pairs and linear interpolation); metamorphic: up-crossings of x are down-crossings of -x.",
         "Records over tiny alphabets generate plateaus at zero, touching zeros and crossings at both ends, in all orders."),
 "C06": ("Maximum/minimum over the samples between crossings, their first times, periods as differences of crossings.",
         "Extremes at samples that coincide with a crossing, ties, waves of one sample, and arbitrary interval bounds."),
 "C07": ("Output is a permutation of the (height, period) pairs in descending order; mean of the first floor(p n); height of rank floor(n p/100); monotonic in the fraction.",
         "The counts floor(n p) hinge on floating-point products of arbitrary n and p; ties must keep their pairs."),
 "C08": ("Model: a freshly made object per call. After every call of a random history the result equals that of the fresh object and the definition.",
         "Statistics sort the stored waves in place: only sequences of calls show that later results are unaffected."),
 "C09": ("Own Simpson integration over the nearest bins, closed-form integrals for polynomials, quadrature of the f^-5 tail, linearity and additivity.",
         "Limits given singly, on and between bins, beyond the axis, infinite, with f = 0 and negative orders, even and odd numbers of points."),
 "C10": ("Hm0, Tm-1,0, Tm01, Tm02 from the reference moments; scaling relations; bounds 1/fmax <= T <= 1/fmin; ordering of the mean periods; analytic Pierson-Moskowitz values.",
         "Both the function and the object must agree for any limits, and switch to NaN exactly at the threshold."),
 "C11": ("Highest bin by definition; vertex of the parabola in exact rational arithmetic with an error bound derived from its conditioning; bounds; ties.",
         "Peaks at either edge, one or two bins, ties adjacent or apart: special cases in the code that ordinary spectra never meet."),
 "C12": ("Published JONSWAP/Pierson-Moskowitz formulas scaled by the reference Simpson integral (with the tail when asked).",
         "Every axis (starting at, below, above zero), peak on or between bins, gamma below and above 1."),
 "C13": ("Battjes-Groenendijk composite Weibull evaluated independently: continuity at the transition height, exponents 2 and 3.6, second moment by quadrature, tabulated relation of transition height and Hrms, warnings.",
         "From deep water to far beyond breaking the internal iteration has to terminate at the right root."),
 "C14": ("Residual of w^2 = g k tanh(k h) relative to the bound the documentation gives, oddness in w, limits, element-wise agreement between scalars, lists and arrays.",
         "36 decades of frequency and 12 of depth; the tests use a dozen values."),
 "C15": ("Fields composed of known incident and reflected components at 2..7 gauges; the decomposition must return them, component by component, above the threshold.",
         "Gauge spacing, weights, depth, threshold, parity and length together decide which components can be separated."),
 "C16": ("QR solution of the weighted least-squares problem per frequency; zero below the threshold; gauges of weight zero are irrelevant.",
         "Arbitrary signals do not fit the model, so that weights and all gauges matter."),
 "C17": ("Fourier amplitudes of the series against sqrt(2 S df) of the interpolated spectrum; requested time axis; seed determinism; circular statistics of the phases with a 6-sigma bound.",
         "Lengths, parities, end times off the grid and spectra that end above or below Nyquist; statistics over hundreds of components."),
 "C18": ("Model: a fresh Spectrum per call. Return values, attributes, warnings and the stored spectrum are compared after every call of a history over two objects.",
         "Cached parameters of earlier limits show only in particular sequences."),
 "C19": ("Welch's estimate by explicit sums for given windows, overlaps and FFT lengths; requested resolution; independence of offset.",
         "Segment lengths that do or do not fit the record, odd ones, default arguments with short and long records."),
 "C20": ("A valid call must be accepted; the same call with one generated defect must raise.",
         "The position and size of the defect are generated: a check of the first or last step, or on a summary statistic, is not enough."),
 "C21": ("Snapshots of all inputs before and after; the same call with strided, read-only, list, tuple, column, integer input gives the same values; repeated calls agree.",
         "A table of all public functions is crossed with all representations."),
 "C22": ("|<XY*>|^2/(<XX><YY>) by explicit band means; 0 <= C <= 1, symmetry, invariance under complex constants, 1 for linearly related signals.",
         "Bounds and invariances hold for any pair of signals and any band width."),
 "C23": ("Moments of the record by direct sums, Hilbert transform by its defining Fourier multiplier; offset/scale/sign/time-reversal relations; closed forms for sines.",
         "Offsets much larger than the waves, both parities."),
 "C24": ("Data read back from the lines and bars of the returned figure against the object; snapshots of the object; written files.",
         "Histories before the plot and all options; the repository has no test of any plot."),
 "C25": ("2 pi H/(g T^2) and HF/LF parameters from the reference moments for the limits of the call; default cutoff and its warning; energy additivity.",
         "Limits, gravity and earlier calls interact."),
 "C26": ("Synthesis -> (filter) -> analysis returns the density of the spectrum bin by bin; -> decomposition leaves all energy in one direction.",
         "Inconsistent conventions between two functions that are each plausible alone only show in the chain."),
 "C27": ("All analyses of a record and of its exact transform (powers of two, dyadic shifts, sign) are compared under the transform.",
         "No oracle values needed, so that it covers everything a Series computes, for any record; exposes absolute tolerances and magic constants."),
 "C28": ("Own search for the peak interval and own Simpson moments over it; exact power-of-two units; other densities outside the interval. (The factor 0.8 is applied twice in the code, which may or may not be meant; the check takes the code's interval as the definition.)",
         "Peaks of one, two or many bins, several peaks, peaks at the ends, f = 0."),
 "C29": ("No oracle values: the results for a x + b y, shifted, reversed, mirrored and filtered input are predicted from those for x and y. Tolerances follow from the conditioning of the least-squares systems.",
         "Relations between results for different inputs; a dependence on size, position or sign of the data breaks them wherever it sits."),
 "C30": ("The arrays given, plain counts, and objects newly made from the data of returned ones; a twin object that nothing was called on.",
         "All representations and sizes, with and without directions, and histories on one of two objects."),
 "C31": ("The same parameters of the cut-out spectrum, of the spectrum with other densities outside the limits, and of the spectrum padded with empty bins.",
         "Every range of bins, and limits that were changed between calls on one object."),
 "C32": ("The result for the same values as native doubles, exactly or to single precision.",
         "The table of all public functions crossed with number types, and single-precision axes of all steps and lengths."),
 "C33": ("Results of the tiled or denser record predicted from those of the record itself.",
         "Ties results for different lengths, parities and sampling rates to each other."),
 "C34": ("Crossings and waves of stretches and concatenations predicted from those of the whole; arbitrary samples outside.",
         "Ends, joints and long records: a wave must not depend on where in the record it is."),
 "C35": ("A new object made of the present data; the attributes before and after work on a copy.",
         "Stored results and shared arrays show only when data change between two calls."),
 "C36": ("The same call with Python numbers.",
         "The table of all functions with scalar arguments crossed with number types; numpy numbers overflow and raise where Python ones do not."),
 "C37": ("The results of both calls on their own; the settings before the call.",
         "A drawn line of the package is interrupted (deterministically, by a trace function) by a whole other call: a schedule that threads would hit rarely."),
 "C38": ("The same call with all arguments by position.",
         "All subsets of optional arguments; a changed default or a reordered signature shows for those who relied on it."),
 "C39": ("Crossings of the record minus its filtered low-frequency part by an independent search; the full set of waves, for the minimum height; a new object.",
         "Options that no test sets, in all combinations and after other determinations; heights about a level that is not zero."),
 "C40": ("The analysis of the same samples in the opposite order.",
         "A slip at one side of a wave, segment or record (first or last sample, left or right neighbour) cannot be symmetric."),
}


def per_property():
    out = []
    for p in PROPS:
        i = p["id"]
        rule, ass = INFO[i]
        subs = REGISTRY[i]
        q, t = sum(s.quick for s in subs), sum(s.thorough for s in subs)
        wall = ""
        ev = os.path.join(V, "evidence", i + ".json")
        out.append(f"### {i} {p['title']}\n")
        out.append(f"* Oracle: {TEXT[i][0]}")
        out.append(f"* Generated: {rule}")
        out.append(f"* Checks: " + ", ".join(f"`{s.name}`" for s in subs) + f"; {q} cases quick, {t} thorough.")
        out.append(f"* Beyond the tests: {TEXT[i][1]}")
        for a in ass:
            out.append(f"* Left open: {a}")
        out.append("")
    return "\n".join(out)


def seeded():
    res = {}
    path = os.path.join(V, "tools", "seeded_results.json")
    if os.path.exists(path):
        res = json.load(open(path))
    rows = ["| planted change | property | what it breaks | caught by | also reported by |", "|---|---|---|---|---|"]
    n = c = 0
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        k = os.path.basename(os.path.dirname(m))
        d = json.load(open(m))
        r = res.get(k, {})
        own = r.get(d["property"], "not run")
        others = ", ".join(x for x, v in sorted(r.items()) if v == "caught" and x != d["property"]) or "-"
        n += 1
        c += own == "caught"
        rows.append(f"| {k} | {d['property']} | {d['what_it_breaks']} | {d['property'] if own == 'caught' else own} | {others} |")
    return f"{c} of {n} planted changes are caught by the quick check of their property (seed 1).\n\n" + "\n".join(rows) + "\n"


with open(os.path.join(V, "DESIGN.md"), "w") as fh:
    fh.write(INTRO + "\n" + per_property() + "\n" + OUTRO.replace("@SEEDED@", seeded()))
