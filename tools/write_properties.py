#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the text stays readable)."""
import json, os
A = "allantools/allantools.py"; CI = "allantools/ci.py"; RT = "allantools/realtime.py"
DS = "allantools/dataset.py"; NZ = "allantools/noise.py"; NK = "allantools/noise_kasdin.py"
MK = "allantools/mask.py"; PL = "allantools/plot.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Difference-based deviations equal their published definitions",
  "For every phase or frequency series, sampling rate and averaging factor, adev, oadev, mdev, tdev, hdev, ohdev and pdev return "
  "exactly the value of their documented estimator (NIST SP1065 / Vernotte 2020) on the data supplied. The returned n is the number of "
  "terms that the series allows for that estimator and averaging factor, and the returned error is deviation/sqrt(n). "
  "Every averaging factor that has at least two terms is reported at its own tau, and none is dropped, duplicated or shifted.",
  ["inputs", "configurations"],
  "all series lengths, all sample values, all averaging factors 1..N-1, all rates, phase and frequency input",
  "The tests compare a few reference datasets at octave/decade taus against Stable32 printouts with 3-4 digits; other lengths, odd "
  "remainders at the end of the series, large averaging factors, n and error values are never looked at.",
  [A], [("loop-unrolled MDEV", A + ":mdev"), ("strided second difference", A + ":calc_adev_phase"),
        ("strided third difference", A + ":calc_hdev_phase"), ("parabolic weights", A + ":calc_pdev_phase")],
  ["return value of adev/oadev/mdev/tdev/hdev/ohdev/pdev"])
p("C02", "Total deviations and Theo1 equal their published definitions",
  "For every series, rate and averaging factor, totdev, mtotdev, ttotdev, htotdev and theo1 return the value of the SP1065 definition, "
  "including the reflection at the ends of the series, the detrending of each subsequence and the restriction on averaging factors "
  "(m <= N/3 for mtotdev, ttotdev and htotdev, even m for theo1; htotdev at m=1 equals ohdev). The returned n is N-2 (totdev), N-3m+1 "
  "(mtotdev, ttotdev, and htotdev with N frequency samples) or (N-m)m/2 (theo1); the error is deviation/sqrt(n), except for theo1 where it is deviation/sqrt(N-m).",
  ["inputs", "configurations"],
  "all series lengths, sample values, averaging factors, rates, phase and frequency input",
  "mtotdev/htotdev/theo1 are slow and are tested on a handful of taus of three datasets, to a few digits; odd 3m, both ends of the "
  "averaging-factor range, n and errors are not compared.",
  [A], [("reflected extension", A + ":totdev"), ("half-average detrending", A + ":calc_mtotdev_phase"),
        ("half-average detrending of frequency", A + ":calc_htotdev_freq"), ("Theo1 double sum", A + ":theo1")],
  ["return value of totdev/mtotdev/ttotdev/htotdev/theo1"])
p("C03", "MTIE and TIE rms equal the brute-force window statistics",
  "For every phase series and averaging factor m < N, mtie is the largest peak-to-peak phase excursion over all windows of m+1 consecutive "
  "samples, and tierms is the rms over all windows of the difference between the last and the first sample; both report n = N-m, and "
  "mtie reports the error mtie/sqrt(n). mtie_phase_fast returns, for the longest power-of-two prefix of the series, the largest "
  "excursion over all windows of 2, 4, 8, ... samples. MTIE never decreases with tau.",
  ["inputs", "configurations"],
  "all series, all positions and orders of extrema and ties, all window lengths",
  "MTIE is tested on two datasets at octave taus; nothing forces extrema at window edges, ties, short series or windows near the full length.",
  [A], [("rolling window view", A + ":mtie_rolling_window"), ("binary decomposition", A + ":mtie_phase_fast"), ("window difference", A + ":tierms")],
  ["return value of mtie/tierms/mtie_phase_fast"])
p("C04", "Requested taus become exactly the valid averaging factors, sorted and unique",
  "Every deviation evaluates exactly the distinct integer averaging factors m = tau*rate (rounded to the nearest integer) of the requested taus "
  "with 0 < m < N, in increasing order, and reports tau = m/rate, whatever the order, duplication or invalid entries of the request. The keywords 'all', 'octave' (also the default for None "
  "and for an empty list), 'decade' and 'log10' expand to 1,2,3,...; 1,2,4,8,...; 1,2,4,10,20,40,100,...; and about ten "
  "logarithmically spaced factors per decade starting at 1. tau_reduction keeps an increasing subset of the given factors with at most the "
  "requested number per decade (above that number) and pairs each kept m with tau = m/rate.",
  ["inputs", "configurations"],
  "all series lengths, rates, keyword and list requests including unsorted, repeated, non-integer, zero, negative and too large taus",
  "The tests use one or two well-formed tau lists per dataset; ordering, duplicates, out-of-range entries and lengths at powers of 2 and 10 are not enumerated.",
  [A], [("tau list clean-up", A + ":tau_generator"), ("thinning", A + ":tau_reduction")],
  ["taus returned by every deviation", "tau_generator()", "tau_reduction()"])
p("C05", "Frequency input is equivalent to its integrated phase; conversions are exact",
  "Every deviation gives the same result for frequency data as for the phase obtained by integrating it (mean removed, starting at 0, one "
  "sample longer), with NaN samples at the start and at the end of a frequency record ignored, also when the mean frequency is "
  "large compared with its fluctuations. phase2frequency, frequency2phase, phase2radians, frequency2fractional and trim_data return their "
  "documented transforms of all samples, and phase2frequency undoes frequency2phase up to the removed mean.",
  ["inputs", "configurations"],
  "all frequency series, mean values, numbers of NaN samples at each end, rates",
  "The tests feed frequency data to a few functions at rate 1 with well-behaved data; NaN ends, rates other than 1 and a large mean frequency are not combined.",
  [A], [("integration", A + ":frequency2phase"), ("trimming", A + ":trim_data"), ("dispatch", A + ":input_to_phase")],
  ["results with data_type='freq' against data_type='phase'", "conversion functions"])
p("C06", "Deviations have the invariances and relations of their definitions",
  "All deviations are unchanged by a constant phase offset and a sign flip and scale linearly with the data; all except mtie and tierms ignore a constant frequency "
  "offset, and the Hadamard family also ignores linear frequency drift. Changing the rate by a factor r while keeping the same phase samples multiplies taus by 1/r, "
  "deviations in frequency units by r, and leaves deviations in time units unchanged; reversing the series in time leaves the overlapping and total statistics unchanged. "
  "The relations between statistics hold: tdev = tau*mdev/sqrt(3), ttotdev = tau*mtotdev/sqrt(3), gradev = oadev on gap-free data, adev = oadev = mdev = pdev at m = 1, and hdev = ohdev = htotdev at m = 1.",
  ["inputs", "configurations"],
  "all series, offsets, ramps, drifts, scales and rates, all averaging factors",
  "Metamorphic relations between two runs on transformed data are not expressed in any test.",
  [A], [("second and third differences", A + ":calc_adev_phase, calc_hdev_phase, mdev, totdev, calc_mtotdev_phase, theo1")],
  ["return values of all deviations on pairs of transformed inputs"])
p("C07", "gradev uses exactly the terms unaffected by gaps, with correct error bars",
  "For every pattern of missing (NaN) phase samples, gradev equals the overlapping Allan deviation over exactly those second differences whose three samples are all present, and n counts those terms; "
  "averaging factors with fewer than two such terms are omitted. The error bars are the distances from the deviation to the lower and upper ends of the "
  "chi-squared interval at the requested total confidence, using the equivalent degrees of freedom of edf_simple for the named noise type and the number of present samples.",
  ["inputs", "configurations"],
  "all gap patterns, averaging factors, confidence factors and noise types",
  "The tests compare gradev on one dataset without gaps and on one random gap pattern; error bars are never checked.",
  [A, CI], [("NaN-aware second difference and error bars", A + ":calc_gradev_phase")], ["return value of gradev"])
p("C08", "Real-time statistics equal the batch statistics after every sample",
  "After every sample of every sequence of phase or frequency points, in any interleaving and with any number of instances alive, oadev_realtime, ohdev_realtime and "
  "tdev_realtime report, for each averaging factor, the same deviation as oadev, ohdev and tdev (and mdev through mdev()) computed on all points added so far. This holds for fixed "
  "lists of averaging factors in any order, for any tau0, and for automatically growing lists, which start at 1, are strictly increasing and have the requested number of points per decade; reported taus are af*tau0.",
  ["histories", "configurations"],
  "all sequences of add_phase/add_frequency calls and queries on one or more instances, all lists of averaging factors, tau0, points per decade",
  "The tests push one dataset through each class and compare the last value only, with tau0 = 1 and phase input.",
  [RT], [("running sums", RT + ":update_S, update_S3n"), ("automatic factors", RT + ":update_af"), ("frequency integration", RT + ":add_frequency")],
  ["devs(), taus(), mdev(), dev after each add_phase/add_frequency"],
  [("S, So", "running sums per averaging factor", RT), ("afs", "averaging factors so far", RT), ("x", "phase points so far", RT)])
p("C09", "Equivalent degrees of freedom follow the published formulas",
  "For every noise exponent, difference order, averaging factor, series length and choice of overlapping and modified, edf_greenhall returns the EDF of Greenhall & Riley 2003 in whichever of its cases applies, "
  "continuous across the switch between the exact sums and the table approximations to the accuracy claimed there. edf_simple, edf_totdev and edf_mtotdev return the SP1065 "
  "expressions of tables 5, 7 and 8 for each noise type and averaging factor, and edf_greenhall_simple the exact sum for any stride and filter factor.",
  ["inputs", "configurations"],
  "all (alpha, d, m, N, overlapping, modified) accepted by the function",
  "The tests check a few tens of EDF values printed by Stable32 for one dataset; most table entries and several branches are never reached.",
  [CI], [("case selection", CI + ":edf_greenhall"), ("tables 1-3", CI + ":greenhall_table1, greenhall_table2, greenhall_table3"), ("tables 5, 7, 8", CI + ":edf_simple, edf_totdev, edf_mtotdev")],
  ["edf_greenhall()", "edf_simple()", "edf_totdev()", "edf_mtotdev()"])
p("C10", "Confidence intervals are the chi-squared intervals for the right EDF",
  "confidence_interval returns the equal-tailed chi-squared bounds sqrt(edf*dev^2/chi2) for the requested total confidence in [0.5, 1) (one sigma, 68.3 %, by default): they bracket the deviation, scale "
  "with it, and widen as confidence grows or EDF falls. confidence_interval_noiseID returns that interval for the EDF that belongs to the deviation type, the number of phase points, "
  "the averaging factor and the noise type identified from the data, for phase and frequency data alike.",
  ["inputs", "configurations"],
  "all dev, edf, confidence values, deviation types, data types, averaging factors and data sets long enough for noise identification",
  "The tests check bounds printed by Stable32 at 68.3 % for one dataset and phase input.",
  [CI], [("chi-squared bounds", CI + ":confidence_interval"), ("dispatch", CI + ":confidence_interval_noiseID")],
  ["confidence_interval()", "confidence_interval_noiseID()"])
p("C11", "Noise identification follows the lag-1, B1 and R(n) algorithms",
  "autocorr_noise_id decimates phase (or averages frequency) by the averaging factor, removes a quadratic (phase) or linear (frequency) trend and differences until the lag-1 criterion "
  "rho < 1/4 or the maximum order is met, returning the integer and real exponent, the order used and rho; the result does not depend on the scale, offset or trend of the data, and "
  "series with fewer than 30 averaged points are refused. detrend removes the least-squares polynomial, and b1, rn and lag1_acf are the documented ratios, for every rate and averaging factor, and their theoretical values and decision boundaries are "
  "those of Howe & Greenhall / SP1065, ordered so that each noise type lies between its two boundaries.",
  ["inputs", "configurations"],
  "all series of at least 30 points, averaging factors, rates, data types, differencing limits",
  "The tests identify a few long synthetic series per noise colour at rate 1; the differencing rule, boundaries and other rates are not checked.",
  [CI], [("differencing loop", CI + ":autocorr_noise_id"), ("ratios", CI + ":b1, rn, lag1_acf"), ("boundaries", CI + ":b1_boundary, rn_boundary, b1_theory, rn_theory, b_to_mu")],
  ["autocorr_noise_id()", "ci.b1/rn/lag1_acf/b1_theory/b1_boundary/rn_theory/rn_boundary/b_to_mu"])
p("C12", "Noise generators are the documented linear filters of white Gaussian draws",
  "white, brown, violet and pink noise (and the sequence behind pink noise) have the requested number of points and are, for every outcome of the Gaussian generator, the documented linear combination of "
  "independent unit-variance draws: scaled draws, their cumulative sum, their first difference, and the Voss-type sum of staggered sources. The scale factors give "
  "one-sided PSDs of b0, b_minus2/f^2 and b2*f^2 at every sampling rate, and successive calls use fresh draws.",
  ["inputs", "configurations", "histories"],
  "all outcomes of the random generator, lengths, levels, sampling rates, depths, any sequence of calls",
  "The tests only call the generators, or compare a noisy PSD estimate by eye in an example.",
  [NZ], [("scaling and filters", NZ + ":white, brown, violet"), ("staggered updates", NZ + ":pink, iterpink")], ["return value for scripted generator outcomes"])
p("C13", "Noise() filters its draws as specified and predicts the levels that result",
  "Noise.generateNoise produces, for every outcome of the Gaussian generator, the Kasdin-Walter fractional filter of order b applied to draws of variance qd, with nr points, and set_input or a "
  "repeated call fully replaces the previous series. The predicted PSD, ADEV, MDEV and PDEV coefficients agree with the ensemble average of the generated series for every noise type b = 0, -1, -2, -3, -4, every qd and tau0, "
  "and adev/mdev/c_avar/c_mvar follow the power law of that noise type.",
  ["inputs", "configurations", "histories"],
  "all outcomes of the random generator, nr, qd, b, tau0, tau",
  "One test compares one random realisation per b with loose tolerances at one qd and tau0.",
  [NK], [("impulse response and FFT convolution", NK + ":generateNoise"), ("levels", NK + ":adev_from_qd, mdev_from_qd, pdev_from_qd, phase_psd_from_qd, frequency_psd_from_qd")],
  ["Noise.time_series", "Noise.adev/mdev/..._from_qd"],
  [("time_series", "the generated points", NK)])
p("C14", "PSD to Allan conversions are the documented integrals, and inverse to each other",
  "psd2allan returns, for every tabulated PSD, frequency step or axis, kind and base, the Allan or modified Allan deviation given by the transfer-function integral over the tabulated band, on the tau grid that the band "
  "and base define. psd_piecewise_to_adev returns the Allan deviation of a piecewise power-law PSD for any break frequencies and taus, and adev2psd_piecewise_approx returns segments whose "
  "exponents, levels and break frequencies (where adjacent asymptotes meet) correspond to the given deviation, merging equal slopes and rejecting divergent or malformed input.",
  ["inputs", "configurations"],
  "all tabulated and piecewise PSDs, steps, bases, kinds, tau grids",
  "The tests convert one or two PSDs at one frequency step and compare loosely; merging, single segments, other bases and axes are not covered.",
  [A], [("numerical integral", A + ":psd2allan"), ("segment fit", A + ":adev2psd_piecewise_approx"), ("segment integral", A + ":psd_piecewise_to_adev")],
  ["return values"])
p("C15", "A Dataset computes on its current input, keeps its last result and writes it",
  "After any sequence of set_input, compute and write_results calls on one or more Dataset objects, compute returns and stores exactly what the named allantools function returns for the current data, rate, data type and taus, and "
  "functions that are not deviations are refused leaving the stored result untouched. write_results writes, for the last computed result of the current input, the header with version, data type, rate and given parameters and one row per tau with "
  "averaging factor, tau, n, and deviation with its lower and upper bounds at the requested number of digits, and changes neither inputs nor results.",
  ["histories", "configurations"],
  "all short sequences of operations on one or two objects, all functions, rates, data types, digits",
  "The tests compute three functions once and only check that a file can be written.",
  [DS], [("whitelist and storage", DS + ":compute"), ("formatting", DS + ":write_results")],
  ["Dataset.out", "Dataset.inp", "return value of compute", "file contents"],
  [("inp", "current inputs", DS), ("out", "last results", DS)])
p("C16", "Every call is a pure function of its arguments and leaves them unmodified",
  "No function of the library modifies the data, tau lists or other arrays given to it, and repeating any call gives the identical result whatever other calls were made in between (on other data, on the same memory with other contents, or with neighbouring arguments). Results do not depend on whether the samples are given as list, "
  "integer (of any width) or float64 array, read-only, strided or reversed view, and, but for trim_data which returns a section of its argument, are not aliased to the caller's arrays or to the results of other calls.",
  ["histories", "inputs"],
  "all pairs and short sequences of calls, all argument containers and memory layouts",
  "Each test calls each function in isolation with one kind of container and never looks at its arguments afterwards.",
  [A, CI, RT, NZ], [("copies made by the tau clean-up and converters", A + ":tau_generator, trim_data, frequency2phase"), ("differencing", CI + ":autocorr_noise_id")],
  ["arguments and results before and after calls"])
p("C17", "Three-cornered hat and GCODEV separate the clocks as defined",
  "three_cornered_hat_phase returns for clock A sqrt(max(0, (s_AB^2 + s_CA^2 - s_BC^2)/2)) with the chosen deviation function at each tau, with the AB error count and errors deviation/sqrt(n). gcodev returns the magnitude of the square root of the "
  "Allan covariance of the two overlapping difference series for every averaging factor, is symmetric in its two arguments, equals oadev when both are the same series, and is 0 when one is noise-free.",
  ["inputs", "configurations"],
  "all triples and pairs of series, all averaging factors, rates, data types, deviation functions",
  "The tests use one synthetic triple with loose tolerance.",
  [A], [("variance combination", A + ":three_cornered_hat_phase"), ("cross product", A + ":calc_gcodev_phase")], ["return values"])
p("C18", "ITU masks have the values of the recommendations over the whole tau range",
  "For every tau > 0 the PRC, PRTC-A, PRTC-B and ePRTC masks for TDEV and MTIE return the limit in seconds of ITU-T G.811, G.8272 and G.8272.1, with the published segment boundaries. Each mask is non-decreasing in tau up to the rounding of the published coefficients (0.1 %) and the PRTC-B limits never exceed those of PRTC-A.",
  ["inputs"], "all tau", "The tests evaluate two to four taus per mask with np.isclose, whose absolute tolerance of 1e-8 accepts any limit within 10 ns.",
  [MK], [("segment tables", MK)], ["mask functions"])
p("C19", "Timmer-Koenig noise has the requested piecewise power-law spectrum",
  "timmer_koenig_from_psd returns int(duration/timestep) real samples that are, for every outcome of the Gaussian generator, the linear synthesis in which each Fourier coefficient gets the amplitude of the PSD segment [f_{i-1}, f_i) that contains its frequency on the documented grid, scaled so that the one-sided PSD of the phase is S_y/(2 pi f)^2, with "
  "frequency output being the differences of the phase output divided by the time step. The same seed gives the same series, "
  "a generator seeded outside is used when no seed is given, and inconsistent arguments are refused.",
  ["inputs", "configurations"],
  "all outcomes of the random generator, segment lists, break positions, durations, steps (odd and even lengths), seeds",
  "One test checks a long random realisation with a loose tolerance, for an even number of points.",
  [NZ], [("segment lookup and Hermitian synthesis", NZ + ":timmer_koenig_from_psd")], ["return value for scripted generator outcomes"])
p("C20", "PSD estimates are the one-sided periodogram and the Welch average",
  "numpy_psd returns 2/(N*fs)*|FFT|^2 at each frequency k*fs/N from 0 to fs/2 for every length, even or odd, so that the power of the signal is conserved (the bins at 0 and fs/2 counting half), and scipy_psd returns the one-sided Welch estimate "
  "with the requested number of segments. Both axes are in Hz, start at 0, and have one PSD value per frequency.",
  ["inputs", "configurations"], "all series, lengths, sampling rates, numbers of segments",
  "No test calls these functions with a checked value.",
  [NZ], [("periodogram", NZ + ":numpy_psd"), ("Welch", NZ + ":scipy_psd")], ["return values"])
p("C21", "Plot shows exactly the Dataset results, with their errors",
  "After any sequence of plot calls, each call has added one curve whose points are the taus and deviations of the given Dataset on logarithmic axes, with error bars of the Dataset's errors when requested, the axes labelled Tau and the name of the last plotted statistic, and "
  "the grid on only when requested last. save() writes the figure of that Plot whichever other figures exist. Plotting and saving change neither the Dataset nor earlier curves.",
  ["histories", "configurations"], "all short sequences of plot calls, options and datasets",
  "The tests do not inspect any figure.",
  [PL], [("delegation to matplotlib", PL + ":plot, save")], ["matplotlib axes after the calls", "saved file"])
p("C22", "Too short or invalid input is refused; every result rests on n >= 2",
  "Every returned row of every deviation has n >= 2, matching lengths of taus, deviations, errors and n, and deviations that are finite (within the range of double precision) and non-negative for finite data; a request for which no averaging factor has two terms "
  "raises UserWarning instead of returning an empty or made-up result. A zero rate or an unknown data type given to a deviation, an unsupported dev_type, and noise identification "
  "on fewer than 30 averaged points are refused with an exception.",
  ["inputs", "configurations"], "all series lengths from 2 up, all tau requests, all functions",
  "The tests exercise the error paths of two or three functions with one argument each.",
  [A, CI], [("filter on n", A + ":remove_small_ns"), ("sanity checks", A + ":tau_generator, input_to_phase")], ["return value or exception of each call"])
p("C23", "Calls running in several threads at the same time do not influence each other",
  "Deviations, conversions, tau generation, noise identification, degrees of freedom, confidence intervals, PSD estimates and conversions, masks, and the methods of different Dataset or realtime objects give, when they "
  "run at the same time in several threads - the same function or different ones, on the same arrays or on others, and also as the very first calls of the process - exactly the results they give when "
  "they run alone, at every interleaving. (Functions that draw from numpy's global random generator, and Plot, are excepted.)",
  ["schedules", "inputs"], "all interleavings of two calls with one preemption at any line or bytecode, or with two preemptions at any two lines, of the library",
  "The tests call everything from one thread.",
  [A, CI, RT, DS, NZ, MK], [("no state shared between calls", A + ":every function"), ("memo tables and work arrays", CI + ":edf_greenhall, greenhall_sz")],
  ["return values and exceptions of both calls"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fp:
    for d in P:
        fp.write(json.dumps(d) + "\n")
