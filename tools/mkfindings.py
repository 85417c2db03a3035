"""Writes known_findings.jsonl: the defects found by the checks and repaired in /repo."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C14", "f65108e", "deep_and_shallow_options", "disper(w, h) with h = inf (deep water) or h < 0 (shallow water) raised instead of returning the documented limits"),
 ("C14", "2109707", "all_regimes", "disper returned a wrong wave number for w^2 h / g < 1e-8"),
 ("C20", "5269e11", "malformed_axes", "time and frequency axes with a decreasing step were accepted as uniform"),
 ("C20", "612fe35", "uniform_time_axes", "uniform time axes with a large start (e.g. seconds since 1970) were rejected as non-uniform"),
 ("C08", "ce23f53", "without_waves", "wave statistics of a record without waves raised instead of returning the documented zeros"),
 ("C03", "7aac77c", "bands", "frequency_averaging truncated the band means of integer-valued input"),
 ("C17", "e3da526", "realises_spectrum", "the synthesised time axis could end one step beyond tEnd (rounding of arange)"),
 ("C19", "f640b0f", "standard_estimate", "Series.get_spectrum raised for records shorter than half the default segment"),
 ("C04", "5dc2f86", "series_filter", "the band filter dropped the highest component below the upper band edge"),
 ("C09", "a2fc4e7", "exact_for_quadratics", "compute_moment ignored a frequency limit when only one of the two was given"),
 ("C09", "a8bc2ab", "integral", "the fourth moment with a finite upper limit beyond the axis was NaN (division by zero in the tail)"),
 ("C11", "53357b6", "smoothed_peak_period", "Tps of a spectrum with its peak at an edge could be negative, or an array"),
 ("C18", "66ce3ef", "parameters", "steepness and HF/LF parameters used cached values of other frequency limits"),
 ("C20", "f3f7d2e", "decompositions", "wave decomposition accepted gauge weights outside [0, 1]"),
 ("C20", "93a0b5a", "decompositions", "decompose_linear_ZS_series padded missing gauges with zeros instead of reporting them"),
 ("C22", "f5c9bcb", "definition", "coherence averaged the magnitude of the cross-spectrum, so that unrelated signals were coherent"),
 ("C20", "f58abd8", "series_axes", "Series accepted time axes that do not increase"),
 ("C21", "c5fcf53", "representations", "spectrum2timeseries could not handle a spectrum given as a column vector"),
 ("C21", "c8ebdda", "representations", "moments and theoretical spectra raised for integer-valued frequencies"),
 ("C28", "2dd6ce8", "definition", "tpd was NaN (0/0) for a spectral peak of a single bin"),
 ("C32", "17a34ca", "raw_counts", "zero crossings and individual waves of records of small integers (e.g. 16-bit counts) were wrong, as differences overflowed"),
 ("C32", "2441caf", "raw_counts", "Hrms of integer wave heights overflowed"),
 ("C32", "9a847c2", "one_argument_of_another_type", "the density from Fourier coefficients was wrong on an integer frequency axis, as df * N * N overflowed"),
 ("C09", "5b57644", "integral", "moments of order 4 and more with an infinite upper limit were NaN (0 * inf) for a spectrum that ends in zero"),
 ("C36", "d18d61e", "number_types", "a moment (and every parameter) with a numpy integer beyond the axis as upper limit raised an error"),
 ("C32", "07c45c3", "single_precision_axes", "uniform time and frequency axes stored in single precision were rejected as non-uniform"),
 ("C20", "37f41d2", "integer_axes", "decreasing time and frequency axes of unsigned integers were accepted as increasing (their differences wrap around)"),
 ("C32", "2a997f7", "one_argument_of_another_type", "wave decomposition with weights stored as unsigned integers was wrong (negative numbers wrap around), and decreasing unsigned gauge positions were accepted"),
 ("C32", "20fb1a3", "unsigned_counts", "the wave number of angular frequencies stored as 8- or 16-bit integers was wrong, as their squares overflowed"),
]
with open(os.path.join(V, "known_findings.jsonl"), "w") as fh:
    for p, c, k, w in FIXED:
        fh.write(json.dumps(dict(property=p, status="fixed", commit=c, check=k, what=w, record=f"fixed: property={p} {c} {w}")) + "\n")
