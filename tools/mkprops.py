#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/mkprops.py rewrites it)."""
import json, os
P = "deltares_wave_toolbox/"
SP, TI, WF, EN, DI, DE = (P + "cores/core_%s.py" % s for s in
    ("spectral", "time", "wavefunctions", "engine", "dispersion", "wave_decomposition"))
SE, SU = P + "series.py", P + "spectrum.py"
props = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    props.append(d)

p("C01", "Time-to-frequency transform and back is lossless",
  "For every uniformly sampled real record of two or more samples (even or odd length, any start time and time step), the Fourier coefficients equal the discrete Fourier transform of the record on the axis k/(N*dt), and the folded form holds exactly the floor(N/2)+1 coefficients up to the Nyquist frequency together with the correct odd/even flag. "
  "Transforming back (directly, or by unfolding the folded coefficients first) reproduces the record to rounding, and the unfolded coefficients are conjugate-symmetric with N entries. "
  "The coefficients do not depend on the start time, and the Series object reports the same components.",
  ["inputs"], "all record lengths >= 2, values, time steps and start times (including large offsets)",
  "Tests transform one 100-sample record and unfold two six-element arrays; parity, tiny lengths, start offsets and arbitrary data are not reached.",
  [SP, EN, SE], [("forward transform", SP + " time2freq, time2freq_nyquist"), ("unfolding", SP + " unfold_spectrum"), ("inverse", SP + " freq2time"), ("uniform-axis test", EN + " monotonic_increasing_constant_step")],
  ["time2freq", "time2freq_nyquist", "unfold_spectrum", "freq2time", "Series.get_fourier_comp"])
p("C02", "The raw variance density spectrum conserves the energy of the record",
  "The variance density computed from a time series is non-negative and, at every frequency strictly between zero and Nyquist, times the frequency step equals the variance carried by that Fourier component (amplitude squared over two), so the density integrates to the variance of the record. "
  "Computing it from the record, from its Fourier coefficients, or through the Series object (default resolution 0.01 Hz) gives the same frequency axis and densities, for any requested resolution. "
  "A coarser requested resolution only averages the fine spectrum over whole bands and keeps the energy of those bands.",
  ["inputs"], "all records, lengths, amplitudes, time axes and requested frequency spacings",
  "Tests compare one 51-sample record with stored numbers at 1e-4; conservation for arbitrary records, parity and resolutions is not tested.",
  [SP, SE], [("density scaling", SP + " compute_spectrum_time_series, compute_spectrum_freq_series"), ("averaging", SP + " frequency_averaging"), ("object route", SE + " Series.get_spectrum_raw")],
  ["compute_spectrum_time_series", "compute_spectrum_freq_series", "Series.get_spectrum_raw"])
p("C03", "Band averaging returns exact means of complete bands",
  "Band averaging groups consecutive bins, from the first one on, into bands of round(requested spacing / original spacing) bins (at least one), and returns for every complete band the mean frequency and the mean density; an incomplete last band is left out. "
  "No requested spacing, a spacing of zero, or one below half the original spacing leaves the spectrum as it is. "
  "This holds for real, integer-valued and complex spectra and keeps the energy of all complete bands.",
  ["inputs"], "all spectra (real, integer, complex), axis origins and spacings, and all requested spacings including non-multiples and ones wider than the axis",
  "Only reached through one spectrum whose spacing is already coarser than requested, so that no averaging ever happens in the tests.",
  [SP], [("grouping and averaging", SP + " frequency_averaging")], ["frequency_averaging"])
p("C04", "The band-pass filter keeps exactly the components inside the band",
  "Band-pass filtering a record between two frequencies returns the record's Fourier components with flow <= f < fhigh (up to and including Nyquist when fhigh is at or above it) with unchanged amplitude and phase, and none of the components outside; the length is unchanged, and the mean is removed whenever flow > 0. "
  "Filtering in two adjacent bands and adding the results equals filtering in the joint band, and filtering twice equals filtering once. "
  "The filter on folded Fourier coefficients and the Series method obey the same rule, the latter returning a Series on the same time axis.",
  ["inputs"], "all records, even and odd lengths, and all lower and upper limits, including limits beyond the ends of the axis and limits on a bin",
  "The test filters one two-component record far away from the band limits with a 2% tolerance on the maximum only.",
  [SP, SE], [("bin selection", SP + " applybandfilter"), ("filter", SP + " bandpassfilter"), ("object route", SE + " Series.get_bandpassfilter")],
  ["applybandfilter", "bandpassfilter", "Series.get_bandpassfilter"])
p("C05", "Zero-crossing detection finds every crossing exactly once, at the right time",
  "For every uniformly sampled record, down-crossings are reported precisely for each sample pair that goes from >= 0 to < 0, and up-crossings for each pair that goes from <= 0 to > 0, in time order and at the time where the straight line between the two samples is zero. "
  "The number of waves is the number of crossings minus one, and zero when there are none; the crossing type is case-insensitive. "
  "Up-crossings of a record are the down-crossings of its negative, and neither multiplying the record by a positive factor nor the use of a Series object changes the crossings.",
  ["inputs"], "all records, including exact zeros, plateaus of zeros, alternating signs, very small or large amplitudes and records without crossings",
  "Three short fixed records are tested.",
  [TI, SE], [("crossing search and interpolation", TI + " determine_zero_crossing"), ("object route", SE + " Series.get_crossing")],
  ["determine_zero_crossing", "Series.get_crossing"])
p("C06", "Individual waves carry the right height, period, crest and trough",
  "Between each two successive crossings there is one wave, whose period is the time between them, whose crest and trough are the largest and smallest samples within that interval (bounds included), reported with the time at which they first occur, and whose height is crest minus trough. "
  "With no crossing or a single crossing there are no waves. "
  "A newly created Series holds the heights and periods of its down-crossing waves in time order, so that their number matches the crossings and their periods add up to the time between first and last crossing.",
  ["inputs"], "all records and their up- or down-crossings, and all increasing crossing times within the record",
  "Two fixed records are tested.",
  [TI, SE], [("per-wave extremes", TI + " determine_params_individual_waves"), ("object route", SE + " Series.__init__, _determine_individual_waves")],
  ["determine_params_individual_waves", "Series.hwave", "Series.twave", "Series.nwave"])
p("C07", "Sorted waves and order statistics match their definitions",
  "Sorting returns the wave heights in descending order with every period still attached to its own height and no wave lost or invented. "
  "The highest-fraction statistics are the mean height and the mean period of the floor(fraction*n) highest waves, and the exceedance wave height is the height of wave number floor(percentage*n/100) in descending order; both are zero when that number is zero or when there are no waves. "
  "Hence the exceedance height never increases with the percentage and the highest-fraction height never increases with the fraction, once at least one wave is selected.",
  ["inputs"], "all height/period lists including ties, a single wave and no waves, all fractions in [0,1] and percentages in [0,100]",
  "Two fixed lists of three or seven waves are tested, with one fraction or percentage each.",
  [TI], [("sorting", TI + " sort_wave_params"), ("highest fraction", TI + " highest_waves_params"), ("exceedance", TI + " exceedance_wave_height")],
  ["sort_wave_params", "highest_waves_params", "exceedance_wave_height"])
p("C08", "Wave statistics do not depend on wave order or on earlier calls",
  "Whatever sequence of methods is called on a wave-heights or series object (sorting, statistics, spectra, filters, plots), every method returns what it would return on a freshly made object with the same data, and the set of (height, period) pairs, the wave count and the stored record stay the same. "
  "The root-mean-square, maximum, significant (highest third), 2%-Rayleigh, highest-fraction and exceedance heights equal their definitions on the set of waves, for any order in which the waves are given. "
  "A record without waves yields zero, not an error, for the significant, highest-fraction and exceedance heights.",
  ["histories", "inputs"], "all sequences of method calls with all arguments, on all wave lists and records",
  "One call on one object is tested; methods sort the object in place, so that only histories can show an effect.",
  [SE, TI], [("statistics", SE + " WaveHeights"), ("in-place sorting", SE + " WaveHeights.sort, highest_waves, get_exceedance_waveheight")],
  ["WaveHeights methods", "Series methods"], [("hwave/twave", "heights and periods, re-ordered in place by statistics", SE)])
p("C09", "Spectral moments integrate the spectrum over the requested range",
  "The m-th spectral moment is the composite-Simpson integral (exact when the integrand is quadratic) of f^m times the density over the bins nearest to the requested lower and upper frequency, a limit that is not given meaning the end of the axis. "
  "When the upper limit lies beyond the axis, including infinity, the exact integral of an f^-5 tail attached to the last density is added. "
  "A negative-order moment leaves out the bin at f = 0 instead of dividing by zero, and the moment is linear in the density.",
  ["inputs"], "all non-negative spectra on uniform axes starting at or above zero, orders -2..5 (the moment being infinite where the tail makes it so), and all limits: none, one, both, between bins, on bins, beyond the axis, infinite",
  "Moments are only tested indirectly by two theoretical spectra; limits are never given and the tail only occurs in a normalisation.",
  [WF, EN], [("integration and tail", WF + " compute_moment"), ("nearest bin", EN + " approx_array_index")], ["compute_moment"])
p("C10", "Spectral wave height and mean periods follow from the moments",
  "Hm0 = 4*sqrt(m0), Tm-1,0 = m-1/m0, Tm01 = m0/m1 and Tm02 = sqrt(m0/m2) over the requested frequency range, and the parameter function and the Spectrum object give the same values for the same spectrum and limits. "
  "Multiplying the density by c multiplies Hm0 by sqrt(c) and keeps all periods, and rescaling the frequency axis by a at constant energy keeps Hm0 and divides all periods by a; mean periods lie between the reciprocals of the range limits and Tm01 >= Tm02. "
  "A spectrum with virtually no energy (Hm0 below 1e-6 m) gives NaN for all parameters of the parameter function.",
  ["inputs"], "all non-negative spectra, axes and frequency limits (default, inside, beyond the axis)",
  "Hm0 of one theoretical spectrum over its full range is tested; the mean periods are not tested at all.",
  [WF, SU], [("parameter function", WF + " compute_spectrum_params"), ("object methods", SU + " Spectrum.get_Hm0, get_Tmm10, get_Tm01, get_Tm02")],
  ["compute_spectrum_params", "Spectrum getters"])
p("C11", "Peak periods point at the true spectral peak",
  "Tp is the reciprocal of a frequency at which the density is maximal among the bins inside the requested limits. "
  "For a single maximum in the interior, the smoothed Tps is the reciprocal of the top of the parabola through the maximum and its two neighbours, for two equal neighbouring maxima that of the frequency midway, and for other ties that of one of the maxima; a maximum at the end of the axis uses the parabola through the three end points only if its top lies within those points, and that end bin itself otherwise, so that Tps is always one positive number whose frequency lies within the axis. "
  "Parameter function, Tps function and Spectrum object agree, and a spectrum whose maximum is below 1e-10 gives the documented -999 for Tps.",
  ["inputs"], "all spectra of one or more bins with peaks anywhere, ties, end peaks, and all limits",
  "Eight tiny arrays and one JONSWAP spectrum (1% tolerance) are tested, and no limits.",
  [WF, SU], [("peak", WF + " compute_spectrum_params, compute_tps"), ("object methods", SU + " Spectrum.get_Tp, get_Tps")],
  ["compute_tps", "compute_spectrum_params", "Spectrum.get_Tp", "Spectrum.get_Tps"])
p("C12", "Theoretical spectra have the published shape and the requested wave height",
  "The JONSWAP density is proportional to f^-5 * exp(-1.25 (f/fp)^-4) * gamma^exp(-(f/fp-1)^2/(2 sigma^2)), with sigma 0.07 below fp and 0.09 above, and zero at f <= 0; Pierson-Moskowitz is the same with gamma 1. "
  "Its integral over the axis gives exactly the requested Hm0, or, with the tail option, the integral over the axis plus the f^-5 tail to infinity does. "
  "The array and object variants carry the same frequencies and densities.",
  ["inputs"], "all uniform axes starting at or above zero, peak frequencies on the axis, wave heights, gammas and both tail options",
  "One axis, peak frequency and wave height are compared with stored numbers.",
  [WF, SU], [("shape and scaling", WF + " create_spectrum_jonswap, create_spectrum_piersonmoskowitz"), ("objects", WF + " create_spectrum_object_jonswap, create_spectrum_object_piersonmoskowitz")],
  ["create_spectrum_*"])
p("C13", "Battjes-Groenendijk distribution is a consistent composite Weibull",
  "Where the normalised transition height is at most 2.75, the result always terminates with three points (0, transition height, design height) at exceedance (1, P, 1/n): the transition height is (0.35 + 5.8/slope cotangent) times the depth, and the composite Weibull distribution (exponents 2 and 3.6, continuous at the transition) through P has the root-mean-square height (2.69 + 3.24 sqrt(m0)/depth) sqrt(m0). "
  "The design height is the height exceeded with probability 1/n on that distribution, capped by the Rayleigh height for the same probability. "
  "Above 2.75 an empty result and a warning are returned, and a slope outside 1:20 to 1:250 gives a warning.",
  ["inputs"], "all wave heights, depths, slopes, wave counts and tolerances",
  "Not tested at all.", [WF], [("iteration for the scale parameter", WF + " compute_BattjesGroenendijk_wave_height_distribution")],
  ["compute_BattjesGroenendijk_wave_height_distribution"])
p("C14", "The wave number solves the linear dispersion relation",
  "For every radial frequency and finite positive depth the returned wave number satisfies w^2 = g k tanh(k h) to rounding (from extremely long to extremely short waves), has the sign of w, and is zero for w = 0. "
  "An infinite depth gives w^2/g and a negative depth gives w/sqrt(g|h|), and any positive gravity may be given. "
  "Every element of an array is solved independently of the others, and scalars, lists and arrays give the same numbers.",
  ["inputs"], "all frequencies (negative, zero, positive, mixed), depths (finite, negative, infinite) and gravities",
  "Eight frequencies at two depths are compared at 1e-4.", [DI, EN], [("solver", DI + " disper"), ("input conversion", EN + " convert_to_array_type")], ["disper"])
p("C15", "Wave decomposition recovers the incident and the reflected wave",
  "When the signals at two or more gauges are the sum of linear waves travelling in both directions over a uniform depth, the decomposition returns, at the position of the first gauge, the incident wave as first result and the reflected wave as second result, exactly (to rounding) for every component whose gauge spacing is well conditioned, and zero for the others. "
  "This holds for any number, position and weighting of gauges, start time, length and depth. "
  "The Series variant returns the same signals as Series on the time axis of the gauges.",
  ["inputs"], "all superpositions of periodic components, gauge layouts, weights, depths, time axes and thresholds",
  "One gauge layout with three components that fall between the bins is tested at 1e-3, away from the record ends.",
  [DE, DI, SP], [("separation", DE + " decompose_linear_ZS"), ("object route", DE + " decompose_linear_ZS_series"), ("wave number", DI + " disper")],
  ["decompose_linear_ZS", "decompose_linear_ZS_series"])
p("C16", "Wave decomposition is the weighted least-squares separation of any signals",
  "For arbitrary gauge signals, the incident and reflected components at each frequency are the weighted least-squares fit of two opposite linear waves to all gauges, at every frequency whose scaled determinant |det|/4 exceeds the threshold, and zero at all other frequencies (the mean included). "
  "The threshold is the one given (default 0.125), and gauges count with their weight, a gauge of weight zero not at all. "
  "With two gauges of weight one, incident plus reflected wave equal the first gauge at those frequencies.",
  ["inputs"], "all gauge signals, layouts, weights, depths and thresholds",
  "Noise, unequal weights, other thresholds and discarded frequencies are not tested.",
  [DE], [("normal equations and threshold", DE + " decompose_linear_ZS")], ["decompose_linear_ZS"])
p("C17", "Synthesised series realise the spectrum on the requested time axis",
  "A series generated from a spectrum starts at the requested start time, has the requested time step and ends at the requested end time (at most one step off when the duration is not a multiple of the step), and each of its Fourier components below Nyquist has amplitude sqrt(2 S df) with S interpolated from the spectrum and zero outside its range, over zero mean. "
  "The same seed (zero included) always gives the same series, other seeds and unseeded calls give other random phases, uniform over the circle and independent per component. "
  "The array, Series and Spectrum-object routes obey the same rule.",
  ["inputs"], "all spectra, start and end times, time steps (even and odd sample counts) and seeds",
  "One unseeded series is generated as a fixture, and nothing about it is asserted.",
  [SP, SU], [("random-phase synthesis", SP + " spectrum2timeseries, spectrum2timeseries_object"), ("object route", SU + " Spectrum.create_series")],
  ["spectrum2timeseries", "spectrum2timeseries_object", "Spectrum.create_series"])
p("C18", "Spectrum parameters do not depend on which were computed before",
  "Whatever sequence of parameter methods, with whatever frequency limits, was called on a Spectrum object before, every method returns the value that a freshly made object with the same spectrum returns for the same arguments. "
  "The value is stored under the parameter's name on the object, so that the attribute always holds the result of the last computation of that parameter. "
  "The stored frequencies and densities never change.",
  ["histories"], "all sequences of parameter-method calls with all limits and gravities",
  "Each test calls one method once; derived parameters re-use attributes left by earlier calls, which only histories can show.",
  [SU], [("stored parameters", SU + " Spectrum.get_*")], ["Spectrum getters"], [("Hm0, Tps, Tmm10, ...", "last computed parameter values", SU)])
p("C19", "Welch spectra have the requested resolution and the standard estimate",
  "The spectrum of a Series equals Welch's estimate (segments with constant detrending, periodic window, one-sided density, averaged) with the segment length that gives the requested frequency resolution (fs/resolution, default 0.01 Hz, at most the record length) and half overlap. "
  "When the requested resolution is switched off, the given segment length, overlap, FFT length and window are used, zero meaning the default (segments of 256 samples for the function; half overlap; FFT length equal to the segment length). "
  "The density is non-negative, insensitive to a constant offset, and quadratic in the amplitude, for records of any length of two or more samples.",
  ["inputs", "configurations"], "all records (also shorter than one segment), sampling rates, resolutions and Welch settings",
  "Not tested at all.", [SP, SE], [("wrapper", SP + " compute_spectrum_welch_wrapper"), ("segment length", SE + " Series.get_spectrum")],
  ["Series.get_spectrum", "compute_spectrum_welch_wrapper"])
p("C20", "Malformed input is rejected and well-formed input is accepted",
  "Time or frequency axes that are not increasing with a constant step (steps that grow, shrink, repeat or reverse), arrays of different lengths, two-dimensional arrays where vectors are needed, unsorted wave heights, fractions outside [0,1], percentages outside [0,100], unknown crossing types, and tail options other than 0 or 1 raise an error instead of returning a number, in every function that documents or asserts the requirement. "
  "The same goes for decompositions with unordered or fewer than two gauges, weights outside [0,1] or with a sum of at most one, and numbers of gauges, series, weights or time points that disagree, and for Series on non-increasing or strongly irregular time axes. "
  "Well-formed input, including uniform axes with a large start value or rounding noise, is never rejected.",
  ["inputs"], "all ways and positions in which an otherwise valid input can be malformed, and all valid inputs",
  "No rejection path is tested.", [EN, SP, TI, WF, DE, SE, SU],
  [("uniform-axis test", EN + " monotonic_increasing_constant_step"), ("shape tests", EN + " convert_to_vector, is1darray"), ("assertions", DE + " decompose_linear_ZS; " + SE + " Series.__init__; " + SU + " Spectrum.__init__")],
  ["all public functions and constructors"])
p("C21", "Computations never modify their inputs and ignore how vectors are passed",
  "No function or method changes the arrays it is given, including read-only ones, and calling it again with the same input gives the same result. "
  "A vector given as a list, a one-dimensional array or (where vectors are converted) a column array gives the same result. "
  "Integer-valued input gives the same result as the same values as floats.",
  ["inputs"], "all public functions with all valid arguments and all representations of vectors",
  "Tests pass each input once, in one representation, and do not look at it afterwards.",
  [EN, SP, TI, WF, DI, DE], [("conversion", EN + " convert_to_vector, convert_to_array_type")], ["all public functions"])
p("C22", "Coherence is a proper magnitude-squared coherence",
  "The coherence of two sets of Fourier coefficients is the squared magnitude of the band-averaged complex cross-spectrum divided by the product of the band-averaged auto-spectra, on the band-averaged frequency axis. "
  "It always lies between 0 and 1, is the same when the two signals are exchanged or scaled by non-zero (complex) constants, and equals 1 for signals that differ by such a constant. "
  "Bands without energy (an averaged auto-spectrum below 1e-10 counts as that) give a finite value between 0 and 1.",
  ["inputs"], "all pairs of Fourier coefficients and requested spacings",
  "Not tested at all.", [SP], [("coherence", SP + " coherence"), ("averaging", SP + " frequency_averaging")], ["coherence"])
p("C23", "Shape statistics of a record match their definitions",
  "Skewness is the third central moment over the 3/2 power of the variance, and asymmetry is the mean cube of the Hilbert transform of the record over the same power; mean, variance, minimum and maximum are those of the samples. "
  "Both shape statistics are unchanged by adding a constant and by positive scaling and change sign with the record; time reversal keeps the skewness and changes the sign of the asymmetry. "
  "They are zero (to rounding) for a pure sine over whole periods.",
  ["inputs"], "all non-constant records, even and odd lengths, offsets and scales",
  "Not tested at all.", [SE], [("statistics", SE + " Series.get_skewness, get_asymmetry, mean, var, min, max")], ["Series statistics"])
p("C24", "Plots show the data and leave the object unchanged",
  "The plots of series, spectra and wave-height distributions draw the data of the object: the record over time with its crossings at level zero, the density over frequency with the computed periods at their frequencies, every wave height once against an exceedance probability that decreases with height, and the Rayleigh-scaled plot with heights (divided by the significant height on request) against sqrt(-ln(rank/n)) and the Rayleigh line through the 2% height. "
  "Given a path, the figure is written to that file. "
  "Plotting changes no statistic, record, spectrum or set of waves of the object (it may sort the waves), and asking for the Battjes-Groenendijk line without a wave height is an error.",
  ["inputs", "configurations"], "all objects and plot options",
  "Not tested at all.", [SE, SU], [("plots", SE + " plot_*; " + SU + " Spectrum.plot")], ["returned figures"])
p("C25", "Steepness and high/low-frequency parameters follow their definitions",
  "The steepness values are 2*pi*H/(g*T^2) with (Hm0, Tps), (Hm0, Tm-1,0) and the high-frequency (Hm0, Tm-1,0), all for the frequency limits of the call and the given gravity. "
  "The high- and low-frequency Hm0 and Tm-1,0 are those of the part of the spectrum above and below the cutoff, which is 0.45/Tm-1,0 of the full spectrum with a warning when it is not given. "
  "High- and low-frequency energy add up to the total for a common cutoff on a bin with an odd number of bins on either side.",
  ["inputs"], "all spectra, limits, cutoffs and gravities",
  "Not tested at all.", [SU, WF], [("object methods", SU + " get_s0p, get_smm10, get_smm10_HF, get_Hm0_HF, get_Hm0_LF, get_Tmm10_HF, get_Tmm10_LF")], ["Spectrum getters"])
p("C26", "Analysis of a synthesised series returns the spectrum it was made from",
  "A series synthesised from a spectrum and analysed over its full (even) length has the original density at every frequency below Nyquist, so that 4 times its standard deviation, the Hm0 of its spectrum and the Hm0 of the original agree, for any seed. "
  "Band-pass filtering it first leaves exactly the density inside the band. "
  "A wave field built from it that travels past gauges in one direction is decomposed into that wave and no wave in the other direction.",
  ["inputs"], "all spectra within the resolved band, durations, time steps and seeds, over the chain of synthesis, filter, analysis and decomposition",
  "The chain is only exercised by example scripts that plot.", [SP, SU, SE, DE],
  [("synthesis", SP + " spectrum2timeseries"), ("analysis", SP + " compute_spectrum_time_series"), ("objects", SU + " Spectrum.create_series; " + SE + " Series.get_spectrum_raw")],
  ["Spectrum.create_series", "Series.get_spectrum_raw", "Series.get_bandpassfilter", "decompose_linear_ZS_series"])
p("C27", "Analyses scale with the units of the record and ignore its time origin",
  "Multiplying a record by a positive constant multiplies all its wave heights by it and its densities by its square, and leaves all periods and frequencies as they are. "
  "Multiplying its time axis by a constant multiplies all periods by it, divides all frequencies by it and multiplies densities by it, leaving heights and spectral wave height as they are. "
  "Shifting the time axis only shifts crossing, crest and trough times, and turning the record upside down exchanges crests with troughs and up- with down-crossings.",
  ["inputs"], "all records and all scale factors and shifts that are exact in floating point",
  "No test relates the results for two inputs.", [SE, TI, SP, WF, SU],
  [("time-domain analysis", TI), ("spectral analysis", SP), ("objects", SE + "; " + SU)], ["Series and Spectrum methods"])
p("C28", "TpD is the mean period of the spectral peak",
  "TpD is m0/m1 of the spectrum between the first and the last bin whose density is at least 0.8*0.8 times its maximum, with the moments integrated as by compute_moment (composite Simpson), and the period of the bin when there is only one such bin. "
  "It does not depend on the density outside that interval, nor on the unit of the density, and is proportional to the unit of time.",
  ["inputs"], "all non-negative spectra on uniform axes, with peaks of any width, number and place",
  "Not tested at all.", [WF], [("peak interval and moments", WF + " tpd")], ["tpd"])
p("C29", "Transforms, filter and wave decomposition are linear and symmetric",
  "The Fourier transform, its inverse, unfolding, the band-pass filter and the wave decomposition of a combination a*x + b*y are the same combination of the results for x and y, and densities (raw and Welch) obey S(x+y) + S(x-y) = 2 S(x) + 2 S(y). "
  "A circular shift of a record (or of all gauges) multiplies component k by exp(-2*pi*i*k*m/N), shifts filtered and decomposed records alike and keeps the raw density; running the gauges backwards exchanges incident and reflected wave, and so does mirroring the gauge array, the result then referring to its other end. "
  "Filtering the gauges before the decomposition or the two waves after it gives the same, and a constant added to all gauges changes nothing.",
  ["inputs"], "all pairs of records, coefficients, shifts, bands, gauge layouts, weights and thresholds",
  "No test relates the results for two inputs.", [SP, DE, SE],
  [("transforms", SP + " time2freq, time2freq_nyquist, freq2time, unfold_spectrum"), ("filter", SP + " bandpassfilter"), ("densities", SP + " compute_spectrum_time_series, compute_spectrum_welch_wrapper"), ("separation", DE + " decompose_linear_ZS")],
  ["time2freq", "bandpassfilter", "compute_spectrum_time_series", "Series.get_spectrum", "decompose_linear_ZS"])
p("C30", "Objects hold the data they were given and report their sizes",
  "A Series, Spectrum or WaveHeights object holds exactly the time axis, record, frequencies, densities, directions, heights and periods it was made from (as vectors, however given), with nt, nf, nwave and dt to match, says 1D or 2D for a spectrum without or with directions, and names its size in its texts. "
  "Objects returned by the band filter, the synthesis, the spectra and the decomposition are complete in the same way and equal objects newly made from their own data, on the time axis of their source where they have one. "
  "Two objects made from the same arrays do not influence each other.",
  ["inputs", "histories"], "all valid data in all representations, all computations that return objects, and all call sequences on one of two objects",
  "Tests build each object from one fixed array and look at no attribute but results.", [SE, SU, DE, SP],
  [("constructors", SE + " WaveHeights.__init__, Series.__init__; " + SU + " Spectrum.__init__"), ("returned objects", SE + " Series.get_spectrum, get_spectrum_raw, get_bandpassfilter; " + SU + " Spectrum.create_series; " + DE + " decompose_linear_ZS_series")],
  ["attributes of Series, Spectrum, WaveHeights"], [("hwave/twave, time/xTime, f/sVarDens", "the stored data", SE + "; " + SU)])
p("C31", "Spectral parameters with limits see only the part inside the limits",
  "For limits on two bins (or nearer to them than to other bins, outside the range for peak periods), every spectral parameter and moment equals that of the part of the spectrum between these bins taken as a spectrum of its own, whether computed by function or by Spectrum object and whatever was computed before. "
  "Densities outside the limits have no influence, limits at the ends of the axis equal no limits, and an even number of empty bins appended to a spectrum with an odd number of bins above f = 0 that ends at zero changes nothing.",
  ["inputs"], "all spectra, ranges and densities outside the range",
  "No test gives frequency limits.", [WF, SU],
  [("moments", WF + " compute_moment"), ("parameters", WF + " compute_spectrum_params"), ("object methods", SU + " Spectrum.get_*")],
  ["compute_moment", "compute_spectrum_params", "Spectrum getters"])
p("C32", "Single-precision, big-endian and integer data give the same analysis",
  "Every public function and constructor gives for single-precision arrays the result for the same values in double precision, to single precision, and for big-endian arrays and integers the result for native doubles: of 32 and 64 bits for any one or all of the arrays, and of 8 bits and more for records and wave heights up to the largest value of the type, where nothing overflows. (Fourier transforms of 8- and 16-bit integers and half-precision are taken in single precision; Spectra of 8- or 16-bit integers and Fourier coefficients stored as integers are outside.) "
  "Uniform time and frequency axes that are stored in single precision are accepted as uniform, with the step found to the precision of the axis. "
  "The arrays given are not changed.",
  ["inputs", "configurations"], "all public functions with all valid data in all these number types, and single-precision axes of any ordinary step and length",
  "All tests use native doubles.", [EN, SP, TI, WF, DI, DE, SE, SU],
  [("uniform-axis test", EN + " monotonic_increasing_constant_step"), ("conversion", EN + " convert_to_array_type, convert_to_vector"), ("complex work arrays", SP + " unfold_spectrum, applybandfilter; " + DE + " decompose_linear_ZS")],
  ["all public functions and constructors"])
p("C33", "Repeating a periodic record or sampling it more densely changes no content",
  "A record repeated r times has the Fourier components of the record (times r) at every r-th frequency and none in between, the same component energies, mean, variance, extremes, skewness and asymmetry, and its band-filtered and decomposed signals are those of the record repeated; every repetition adds the same individual waves, whose periods add up to its length. "
  "Sampling the trigonometric polynomial through the record more densely leaves the density below the old Nyquist frequency, the filtered record, mean and variance as they are, with no density above. "
  "(For even lengths the component at Nyquist is left out.)",
  ["inputs"], "all records, repetitions, bands, gauge layouts and refinement factors",
  "No test relates the results for two inputs.", [SP, TI, DE, SE],
  [("transforms and densities", SP), ("waves", TI + " determine_zero_crossing, determine_params_individual_waves"), ("separation", DE + " decompose_linear_ZS"), ("statistics", SE)],
  ["time2freq", "compute_spectrum_time_series", "bandpassfilter", "decompose_linear_ZS", "Series"])
p("C34", "Individual waves depend only on the samples of the wave itself",
  "The crossings and waves (heights, periods, crests, troughs and their times) of any stretch of a record are exactly those of the whole record that lie inside the stretch. "
  "Two records one after the other have all crossings and waves of both, and in between only what belongs to the joint. "
  "Samples outside the crossings given have no influence on the waves between them.",
  ["inputs"], "all records, stretches, joints and crossings",
  "No test relates the results for two inputs.", [TI, SE],
  [("crossing search", TI + " determine_zero_crossing"), ("per-wave extremes", TI + " determine_params_individual_waves"), ("object route", SE + " Series.__init__")],
  ["determine_zero_crossing", "determine_params_individual_waves", "Series.hwave", "Series.twave"])
p("C35", "Results follow from the present data, also for copied objects",
  "Every method of a WaveHeights or Spectrum object, and every method of a Series object that works on its record, returns what a new object made of its present data returns, also after single values of hwave, sVarDens or xTime were changed in place or the array was replaced by another of the same size, in between any other calls. "
  "A copied, deep-copied or unpickled object has the same attributes and gives the same results, and work on a deep copy or unpickled object leaves the original as it is. "
  "A function that is called again with the same arrays after their values were changed gives the result for the present values.",
  ["histories", "inputs"], "all sequences of computations, changes of the data and copies, on all data",
  "No test changes data or copies an object.", [SE, SU, SP, TI, WF],
  [("wave statistics", SE + " WaveHeights"), ("record methods", SE + " Series"), ("parameters", SU + " Spectrum.get_*")],
  ["methods of WaveHeights, Series, Spectrum"], [("hwave/twave, xTime, sVarDens", "the present data", SE + "; " + SU)])
p("C36", "Scalar arguments may be any kind of number",
  "Frequencies, resolutions, limits, depths, gravities, fractions, percentages, durations, gauge thresholds, moment orders, counts and seeds may be given as int, float, numpy integer of 32 or 64 bits or numpy float, and those that are not counts also as single-precision number or zero-dimensional array, with the result for the same value as Python number (to single precision in the latter case). "
  "This holds for every public function and method and for any combination of these types.",
  ["inputs"], "all public functions and methods with scalar arguments, all values and all combinations of types",
  "Tests pass Python floats.", [SP, TI, WF, DI, DE, SE, SU],
  [("limits and tail", WF + " compute_moment"), ("resolutions", SP + " frequency_averaging, compute_spectrum_welch_wrapper"), ("getters", SU + " Spectrum.get_*")],
  ["all public functions and methods with scalar arguments"])
p("C37", "Calls do not disturb each other or the settings of the process",
  "When a computation is interrupted anywhere and another computation (of the same or another function, on other data) is made before it goes on, as happens with threads, both give the result they give on their own; only the random phases of the synthesis share numpy's generator. "
  "No call changes numpy's error handling, its print options or random state (other than the synthesis), the warning filters, the matplotlib settings, open figures (other than plots), the working directory or the environment, whether it succeeds or fails.",
  ["schedules", "inputs"], "all pairs of calls and all lines at which one interrupts the other; all calls with valid and invalid data",
  "Tests make one call after the other and look at results only.", [SP, TI, WF, DI, DE, EN, SE, SU],
  [("computations", "all modules: no state outside arguments and objects")], ["all public functions, constructors and methods"])
p("C38", "Optional arguments have their documented names, order and defaults",
  "For every public function and method, leaving out an optional argument is the same as giving its documented default (for instance g = 9.81, a JONSWAP peak enhancement of 3.3, a Battjes-Groenendijk slope of 1:250 and tolerance of 1e-5, a determinant limit of 0.125, down-crossings, a Hann window, a resolution of 0.01 Hz for spectra of a Series, no frequency limits), whatever is given for the other arguments. "
  "Required and optional arguments may be given by position or by name in any order, with the same result.",
  ["inputs", "configurations"], "all public functions and methods, all subsets of optional arguments with default or other values, by position or by name, on all data",
  "Tests call each function in one way.", [SP, TI, WF, DI, DE, SE, SU],
  [("signatures", "all public functions and methods")], ["all public functions and methods"])
p("C39", "Individual waves about a slowly varying level and above a minimum height",
  "Determining the individual waves of a Series again with a crossing type, a cut-off frequency and a minimum wave height gives the waves between successive crossings, in that direction, of the record minus its part up to the cut-off frequency (0: the record itself), with the heights, crests, troughs and their times of the record itself, and without the waves lower than the minimum. "
  "It returns heights, periods, crests, troughs, crest times, trough times and all crossings, in that order; the object then holds heights, periods and number of the remaining waves, the starts of these and the last crossing, and its statistics are those of the remaining waves. "
  "With default options the initial waves come back; the record and its time axis never change.",
  ["inputs", "configurations", "histories"], "all records, crossing types, cut-off frequencies and minimum heights, after any earlier determination or sorting",
  "Tests determine waves with default options only.", [SE, TI, SP],
  [("options", SE + " Series._determine_individual_waves")], ["Series"])
p("C40", "Running a record backwards mirrors its analysis",
  "Down-crossings of a record are the up-crossings of the record run backwards, at mirrored times, and the waves between them are the same with heights, periods, crests and troughs in opposite order and mirrored crest and trough times; so are the statistics of a Series with these waves. "
  "Maximum, minimum, mean, variance, raw and band-averaged densities, Welch densities of segments that fill the record, and the coherence with another record run backwards are the same; Fourier components are conjugated with the phase of one sample, and the filtered record runs backwards.",
  ["inputs"], "all records without zeros that only touch the level, band limits, resolutions and segmentations",
  "Tests never relate the results for two records.", [TI, SP, SE],
  [("crossings and waves", TI + " determine_zero_crossing, determine_params_individual_waves"), ("spectra and filter", SP)], ["the functions", "Series"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for d in props: fh.write(json.dumps(d) + "\n")
print(len(props), "properties")
