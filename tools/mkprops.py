"""Writes properties.jsonl (kept as a script so that the statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None, **({"state": state} if state else {}))))

F = "qetpy/core/_fitting.py"
prop("C01", "Delay-restricted optimum filter returns the constrained least-squares fit",
 """For every trace, template, noise PSD, sampling rate, AC/DC coupling and integral normalisation, the optimum-filter
 fit with time delay returns a (amplitude, shift, chi-square) whose shift lies in the requested set of delays (window
 length, window centre, inside/outside, pulse direction), whose amplitude is the noise-weighted least-squares amplitude
 at that shift, whose chi-square is the weighted residual of exactly that pulse, and no other permitted delay has a
 smaller chi-square. If no delay is permitted it returns zero amplitude, zero shift and the no-pulse chi-square; an
 impossible window length, window centre or direction raises ValueError.""",
 ["inputs", "configurations"],
 "all traces, templates, positive PSDs, trace lengths, couplings, window lengths/centres/sides, pulse directions, for the object and the batch function",
 "the tests compare one 32500-bin simulated trace, at one PSD and 5 window choices, with stored numbers",
 [F], [("fit with delay", F + " OptimumFilter.ofamp_withdelay, ofamp"), ("window selection", F + " _argmin_chi2"),
       ("direction mask", F + " _get_pulse_direction_constraint_mask")], ["return value of the fit"])
prop("C02", "Fixed-delay fit, no-pulse and low-frequency chi-square, resolutions",
 """For every trace, template, PSD and coupling: the fixed-delay fit returns the least-squares amplitude and residual
 at exactly the requested bin; the no-pulse chi-square is the weighted norm of the trace; and the low-frequency
 chi-square is the part of the residual of the given (amplitude, shift) at frequencies not above the cutoff. The energy
 resolution is (weighted template norm)^(-1/2), and the time resolution is the inverse square root of the Fisher
 information of the delay at the given amplitude.""",
 ["inputs", "configurations"],
 "all traces, templates, PSDs, sampling rates, couplings, window centres, amplitudes, shifts (also fractional) and cutoffs",
 "stored numbers for a single trace and a single cutoff",
 [F], [("closed forms", F + " OptimumFilter.ofamp_nodelay, chi2_nopulse, chi2_lowfreq, energy_resolution, time_resolution; ofamp(withdelay=False), chi2lowfreq, chi2_nopulse")],
 ["return values"])
prop("C03", "Pileup fits minimise the two-pulse chi-square",
 """With a first pulse held at a given amplitude and on-grid time, the pileup fit returns the amplitude and time of the second
 pulse that minimise the weighted residual of both pulses over the permitted delays (window, side, direction), together
 with that residual; if none is permitted the second amplitude and time are zero. With the first pulse fixed in time only,
 the stationary pileup fit returns the pair of amplitudes and second time that jointly minimise the residual over the
 permitted delays, the zero delay included.""",
 ["inputs", "configurations"],
 "all traces, templates, PSDs, couplings, first-pulse amplitudes and bins (positive, negative, zero), windows, directions",
 "stored numbers for one trace whose first pulse sits at one bin",
 [F], [("iterative pileup", F + " OptimumFilter.ofamp_pileup_iterative, ofamp_pileup"), ("stationary pileup", F + " OptimumFilter.ofamp_pileup_stationary, ofamp_pileup_stationary")],
 ["return values"])
prop("C04", "Pulse-plus-baseline fit uses the best joint baseline",
 """The baseline fit uses the zero-frequency noise power whatever the coupling; it takes the constant baseline of the best
 unconstrained joint fit of amplitude, delay and baseline, and returns the amplitude, delay and residual that minimise the
 weighted chi-square over the permitted delays with that baseline held fixed. If no delay is permitted it returns zero
 amplitude and shift and the chi-square of the baseline alone.""",
 ["inputs", "configurations"], "all traces (any baseline), templates, PSDs, couplings, windows, directions",
 "one trace and one baseline with stored numbers", [F], [("baseline fit", F + " OptimumFilter.ofamp_baseline")], ["return value"])
prop("C05", "Sub-bin interpolation returns the parabola vertex at the best permitted bin",
 """With interpolation requested, every optimum-filter fit with delay returns the vertex of the parabola through the
 chi-square at the best permitted bin and its two cyclic neighbours, and the value at that same time of the parabola through
 the amplitudes; this holds for every permitted best bin, including the first and last bin of the trace. On an exactly
 parabolic chi-square the interpolated minimum is exact and never above the best bin's chi-square.""",
 ["inputs", "configurations"], "all traces, templates, PSDs, windows and every position of the best bin",
 "one interior best bin with stored numbers", [F], [("parabola", F + " OptimumFilter._interpolate_parabola, _interpolate_of")], ["return values with interpolate_t0=True"])
prop("C06", "Optimum-filter object answers depend only on the current trace",
 """Whatever sequence of fits, chi-square and resolution queries and trace updates an optimum-filter object has been put
 through, each answer equals the one a freshly built object holding the current trace would give. In particular no
 quantity of an earlier trace survives an update and the order and repetition of queries does not matter.""",
 ["histories"], "all interleavings of every query method and trace updates, with all argument choices, AC and DC coupling",
 "the tests call each method a few times in one order on at most three traces", [F],
 [("lazily cached intermediate arrays", F + " OptimumFilter.__init__, update_signal")], ["return value of every call in a history"],
 [dict(name="chi0, signalfilt, signalfilt_td, amps_withdelay, chit_withdelay, chi_withdelay", meaning="per-trace caches", where=F),
  dict(name="freqs, times", meaning="trace-independent caches", where=F)])
prop("C07", "Stacks of traces are fitted independently of each other",
 """Fitting a stack of traces in one call (amplitudes, shifts, chi-squares, low-frequency chi-squares, no-pulse
 chi-squares, and averages of PSDs over a stack) gives for every trace exactly the answer of fitting that trace alone, in the
 same order, whatever else is in the stack and whatever its size.""",
 ["inputs"], "all stacks of all sizes (1, 2, ...), every argument combination",
 "no test passes a stack to these functions", [F, "qetpy/core/_noise.py", "qetpy/utils/_utils.py"], [("axis handling", F + " ofamp, chi2lowfreq, chi2_nopulse")], ["return arrays"])
prop("C08", "Analysis functions leave the caller's arrays unmodified",
 """No fit, cut, PSD, noise-generation, template, resampling, IV or dIdV routine modifies the arrays its caller passes in
 (traces, templates, PSDs, bias arrays, time axes, covariance matrices), whether it returns normally or raises. The only exception is
 the documented in-place replacement of non-positive PSD values. Results returned earlier are not changed by later calls.""",
 ["inputs", "histories"], "every public routine, all inputs and argument combinations, any sequence of calls on the same arrays",
 "no test compares inputs before and after a call", [F, "qetpy/core/_noise.py", "qetpy/core/_of_nsmb.py", "qetpy/cut/_cut.py", "qetpy/utils/_utils.py", "qetpy/core/_iv.py", "qetpy/core/_ibis.py", "qetpy/core/didv/_base_didv.py"],
 [("defensive copies", "psd[:] = inputpsd and similar")], ["input arrays after the call"])
N = "qetpy/core/_of_nsmb.py"
prop("C09", "Multi-template fit is the joint least-squares optimum",
"""For any signal template, background templates, noise PSD (zero-frequency noise taken from the first non-zero bin) and permitted signal shifts, the multi-template
optimum filter returns the amplitudes that minimise the noise-weighted residual at the returned shift, with that residual as its chi-square, and no permitted
shift has a smaller one. The low-frequency chi-square and residual it returns are those of exactly these amplitudes, and the set-up (Gram matrix and inverse at every shift) is the one this definition implies.
The caller's arrays are left unmodified.""",
["inputs", "configurations"], "all traces, template sets (1 signal, 1+ background), PSDs and shift windows",
"four fixed simulated traces with stored numbers", [N], [("normal equations per shift", N + " of_nsmb, of_mb, of_nsmb_setup")], ["return values"])
prop("C10", "Polarity-constrained multi-template fit is the constrained optimum",
"""With polarity constraints on background amplitudes, the multi-template fit (signal plus backgrounds, and backgrounds alone) returns amplitudes that all satisfy the constraints;
the amplitudes that are not zero are the least-squares optimum of their own template subset at the returned shift, and the chi-square is the residual of exactly those amplitudes.
When one round of dropping leads to the constrained optimum, no admissible amplitudes at a permitted bin have a smaller chi-square: so when the unconstrained optimum is admissible or one amplitude of excluded polarity is to be dropped, and with several of them when the optimum drops all (backgrounds alone), or exactly those at whose nearest admissible point the chi-square still falls to the excluded side (signal plus backgrounds); interpolation between bins keeps these relations.""",
["inputs", "configurations"], "all traces, template sets, PSDs, polarity vectors and windows",
"one fixed trace", [N], [("iterative constraint elimination", N + " of_nsmb_con, of_nsmb_getPt, of_mb")], ["return values"])
prop("C11", "Background template construction and shift windows",
"""The background template set built for a multi-template fit holds a slope template and a constant template sampled on the trace's bins, or one pulse template per
whole trigger period placed at the nearest bin, with the polarity vector in the same order, for every trace length, sampling rate and period. The permitted-shift
window holds every bin of the trace outside the notches around the background pulses and no other.""",
["inputs", "configurations"], "all trace lengths, rates, template counts, notch widths",
"one trace length", [N], [("template construction", N + " get_slope_dc_template_nsmb, maketemplate_ttlfit_nsmb")], ["returned matrices"])
C = "qetpy/cut/_cut.py"
prop("C12", "Iterative outlier rejection performs its documented iteration and stops",
 """For every data set the one-dimensional outlier removers return a mask of the input's length and statistics that are exactly the
 mean and (population) standard deviation of the selected points; the sigma clip repeats 'keep points strictly within cut standard
 deviations of the current mean' until mean and deviation have been stable three times, and keeps everything with the plain mean
 and deviation if at most one point would survive; the skewness-based remover repeatedly drops points
 at or beyond the nearer extreme's distance from the median until the skewness is at most the target.
 The procedure always terminates.""",
 ["inputs", "histories"], "all finite data sets and parameters, all numbers of iterations",
 "one random sample with one outlier, seeded", [C], [("loops", C + " removeoutliers, iterstat")], ["returned mask and statistics"])
prop("C13", "Multivariate outlier rejection returns consistent mean, covariance and mask",
 """The iterative covariance estimator returns the mean and (sample) covariance of exactly the points in its mask, and the mask contains exactly the points
 whose chi-square and per-coordinate deviations from the previous iterate lie strictly below the documented thresholds; it treats a data matrix and the same data passed as
 separate coordinate vectors identically, stops after the documented number of iterations at most, and keeps everything if no more points than dimensions would survive.""",
 ["inputs", "histories"], "all data sets of 2+ dimensions whose surviving points do not lie in a hyperplane, and all parameters", "one seeded sample; its asserts compare generator truthiness", [C],
 [("loop", C + " itercov")], ["return values"])
prop("C14", "Automatic cuts keep exactly the traces that pass every enabled stage",
 """The automatic cut returns a boolean mask of one entry per trace in which a trace is kept exactly if every enabled stage (pileup, slope, baseline, mean-subtracted pileup for dIdV data, chi-square),
 applied in this order to the survivors of the previous stages, keeps it; disabling a stage removes exactly its effect. Each stage rejects the
 traces whose own quantity (fitted pulse height, end-minus-start slope, starting baseline, chi-square) the chosen outlier algorithm rejects.""",
 ["inputs", "configurations"], "all trace sets, all 2^5 stage combinations, both outlier algorithms, dIdV and non-dIdV, symmetrised or not",
 "no test calls the automatic cuts", [C], [("stages", C + " autocuts, pileupcut, slopecut, baselinecut, chi2cut, symmetrizedist")], ["returned mask"])
prop("C15", "Saturated-muon selection",
 """The muon selection marks exactly the traces that, the requested number of bins after their maximum, are still at or above the requested
 fraction of that maximum; a trace whose maximum is too close to the end to tell is not marked.""",
 ["inputs"], "all trace sets, thresholds and saturation lengths", "no test calls it", [C], [("loop", C + " get_muon_cut")], ["returned mask"])
U = "qetpy/utils/_utils.py"
prop("C16", "Resampling makes the sampling rate a multiple of the square-wave frequency",
 """For all positive integer sampling rates and square-wave frequencies, the resampling factors (up, down) are positive integers, are (1, 1) when the sampling rate already
 is a multiple, and make rate*up/down an integer multiple of the square-wave frequency, with up and down differing by at most the reduced denominator of rate/frequency; resampling data returns ceil(n*up/down) samples along the requested axis and the rate
 rate*up/down, and non-integer rates or frequencies raise ValueError.""",
 ["inputs"], "all positive integer pairs (rate, frequency), data lengths and axes", "three pairs", [U], [("factors", U + " resample_factors, resample_data")], ["return values"])
prop("C17", "Trace utilities compute their documented transforms",
 """Shifting moves values by the requested number of bins (linear interpolation for fractions) and fills the vacated bins; pulse templates have the requested rise/fall shape, start and unit maximum;
 the monotone smoother keeps exactly the running-minimum points and interpolates linearly between them; offsets average the largest whole number of periods; the slope is the least-squares slope;
 non-positive PSD values are replaced by linear interpolation of their neighbours; trace alignment returns for every trace the shift relative to the first one, honouring its filter arguments.""",
 ["inputs"], "all arrays, lengths, shifts (positive, negative, fractional, beyond the length), periods", "one array per function, shape-only asserts for several", [U],
 [("functions", U + " shift, make_template, make_decreasing, calc_offset, slope, fill_negatives, align_traces, lowpassfilter")], ["return values"])
prop("C18", "Power, energy, offset and conductance estimates satisfy the circuit equations",
 """With TES current i = trace - offset, the power trace is i*Vb - Rload*i^2; the absorbed energy is the time integral of (baseline power - power) in eV, identical whether sampling rate or time axis is given and for stacked traces;
 the muon-based offset returns i0, r0, p0 consistent with the normal-state current; the thermal conductance and its error are n*P*Tc^(n-1)/(Tc^n-Tb^n) and its first-order propagation. Missing required arguments raise ValueError.""",
 ["inputs", "configurations"], "all traces, stacks, biases, resistances, baselines, covariances", "a constant trace and one set of values", [U],
 [("functions", U + " powertrace_simple, energy_absorbed, get_offset_from_muon, estimate_g")], ["return values"])
NO = "qetpy/core/_noise.py"
prop("C19", "PSD estimates are normalised, folded and symmetric consistently",
 """The two-sided PSD of a trace (stack) is |DFT|^2/(fs*n) averaged over the stack, with Parseval's theorem holding exactly; the one-sided PSD equals the folded two-sided one for every length, odd and even, with only the
 frequencies that have a distinct negative partner doubled, and with matching frequency axes. The smoothed PSD is symmetric and non-increasing from zero frequency up.""",
 ["inputs"], "all traces, stacks, lengths and sampling rates", "one call whose output is only checked to be non-empty", [NO, U],
 [("estimates", NO + " calc_psd, foldpsd, smooth_psd")], ["return values"])
prop("C20", "Noise object results are those of its current traces",
 """For every number of traces, channels and bins, the noise object's PSDs (with real and imaginary parts adding up), correlation coefficients, cross-spectral densities (Hann window, mean subtracted; real, imaginary part and scatter with non-positive entries interpolated) and correlated/uncorrelated noise split are the defined functions of its current traces (stored divided by the gain) for any order of calculation calls.
The CSD matrix is Hermitian, uncorrelated noise is the inverse of the diagonal of the inverse CSD matrix and correlated plus uncorrelated noise is the total; cross-channel results need at least two channels (ValueError).
Slope removal leaves traces without linear slope and discards results of the earlier traces; saving, reloading and plotting preserve the object.""",
 ["histories", "inputs"], "all trace arrays, gains, channel counts and sequences of calculate/remove/save calls", "no test constructs the noise object", [NO],
 [("methods", NO + " Noise.*")], ["attributes after each call"], [dict(name="traces, psd, csd, corrcoeff, uncorrnoise, ...", meaning="lazily filled results", where=NO)])
prop("C21", "Generated noise has the requested spectrum",
 """Generated noise is real, has one row per requested trace and one column per PSD bin, and its two-sided PSD converges to the requested one at every frequency for every length and sampling rate, with an infinite zero-frequency entry
 treated as no DC noise; different rows are independent.""",
 ["inputs"], "all PSDs, lengths (odd and even), sampling rates, trace counts", "no test generates noise", [NO], [("generator", NO + " gen_noise")], ["returned traces"])
IV = "qetpy/core/_iv.py"
prop("C22", "IV analysis recovers offsets, resistances, powers and their errors",
 """On bias sweeps of any number of temperatures, channels and points, the current offset and normal resistance are those of the error-weighted line through the normal points; at every point the corrected current, resistance and power
 satisfy Vb = (R0+Rload)*i and P = R0*i^2, for a load resistance given as a scalar, per channel, per temperature and channel, or per point; all errors are first-order propagation of independent errors.
 Without given indices the normal branch is the longest initial run of points that lies on a straight line.""",
 ["inputs", "configurations"], "all bias arrays, resistances, offsets, errors, channel counts and fit-index choices", "one simulated data set, asserting only that it runs", [IV], [("analysis", IV + " IV.*")], ["attributes"])
IB = "qetpy/core/_ibis.py"
prop("C23", "IBIS analysis recovers offsets, resistances, powers and their errors",
 """On bias-current sweeps of any number of temperatures, channels and points, the offsets, parasitic and normal resistance are those of the error-weighted lines through the given normal (and superconducting) points,
 TES current, bias voltage, resistance and power at every point follow the circuit equations, and all errors are first-order propagation of independent errors, whether or not the superconducting branch is fitted, with or without
 given offsets, and for every accepted form of the parasitic resistance. A repeated analysis of one object depends only on its current settings.""",
 ["inputs", "configurations", "histories"], "all sweeps, resistances, offsets, channel counts, fit options", "two simulated sweeps compared with stored values", [IB], [("analysis", IB + " IBIS.*")], ["attributes"])
D = "qetpy/core/didv/_base_didv.py"
prop("C24", "Complex impedance and admittance models agree with the TES equations",
 """For every frequency, sign included, and parameter set, the 1-, 2- and 3-pole complex impedances (of dI/dV and of the TES) equal the rational functions of i*omega that follow from the small-signal TES equations, and the complex admittance is the inverse of the impedance; a model is chosen by which parameters are given.
 The response to a square wave of any amplitude, frequency and duty cycle is the admittance times the wave's Fourier components, shifted by the time offset.""",
 ["inputs"], "all parameter values and frequencies", "checked only through whole fits", [D, "qetpy/core/didv/_didv_priors.py"], [("model functions", D + " complexadmittance, compleximpedance, squarewaveresponse")], ["return values"])
prop("C25", "dIdV parameter conversions are mutually consistent",
 """Converting fitted pole parameters to small-signal TES parameters and back, for the 1-, 2- and 3-pole models, gives the parameters of the same impedance function, and the reported fall times are the poles of the admittance (the roots of the characteristic polynomial of the model), shortest first, the zero-frequency dI/dV included.""",
 ["inputs"], "all physically meaningful parameter sets and load resistances", "one data set", [D], [("conversions", D + " _findpolefalltimes, _converttotesvalues")], ["fit result fields"])
prop("C26", "dIdV trace processing is exact about periods, offsets and averages",
 """Processing dIdV traces keeps the largest whole number of square-wave periods, shifts the time offset by exactly half a period when the phase flip is requested, takes offset and gain-corrected mean from the kept traces (with missing values left out by cuts), and the measured dI/dV at every harmonic of the square wave is the ratio of the response's
 to the wave's Fourier components with its standard error; frequencies without signal carry no weight. Repeating the processing gives the same results.""",
 ["inputs", "histories"], "all traces, rates, frequencies, duty cycles and orders of processing/fit calls", "one data set processed once", [D, "qetpy/core/didv/_didv.py"], [("processing", D + " processtraces, _deconvolvedidv")], ["attributes and fit results"])
prop("C27", "dIdV fits report consistent results for every history of calls",
 """The fit record of a pole count is available exactly after that fit was run, survives other fits and repeated processing, and other pole counts are refused with ValueError; the reported cost is half the weighted squared residual of the reported parameters below the cutoff frequency, the covariance is the inverse curvature there, the errors are the square roots of its diagonal, and fall times,
 small-signal parameters and zero-frequency dI/dV belong to the same parameters. On data of a known circuit, in the range where the built-in start values apply, the fit (1 or 2 poles with priors, 1 to 3 without) is at least as good as the parameters that generated the data, priors entering the cost with their inverse covariance.""",
 ["inputs", "histories"], "all true parameter sets in the physical range, all orders of fit and query calls", "one data set with stored values", ["qetpy/core/didv/_didv.py", "qetpy/core/didv/_didv_priors.py", D], [("fits", "qetpy/core/didv/_didv.py DIDV.dofit, fitresult; _didv_priors.py DIDVPriors")], ["fitresult"])
S = "qetpy/sim/_sim.py"
prop("C28", "TES noise simulation components add up and follow the small-signal model",
 """At every positive frequency the simulated current (power, voltage) noise total is the sum of its components, each component is its source spectrum times the model's transfer function, dI/dV and dI/dP are those of the small-signal TES equations, the normal and superconducting totals follow their circuits, and an instance loaded from a dIdV fit carries that fit's parameters.
 The predicted energy resolution is the inverse square root of the integrated signal-to-noise, the same from a two-sided spectrum and from the folded one of the same noise.""",
 ["inputs", "configurations"], "all operating points, frequencies, noise types", "no test constructs the simulation", [S], [("methods", S + " TESnoise.*, loadfromdidv, energy_res_estimate")], ["return values"])
prop("C29", "Pulse models are transforms of one another and fits report what belongs to them",
 """The 1-, 2-, 3- and 4-pole models in frequency domain are, for all parameters (rise times longer than fall times and negative amplitudes included), the Fourier transform of the documented sums of exponentials, the time-domain models are the same pulses moved by whole bins with nothing before their start, and the scaled amplitude is the height of the two-pole pulse.
 A fit returns parameters inside the given or documented default bounds, at a minimum of the PSD-weighted residual that is at least as good as the parameters that generated the data, the reduced chi-square of exactly those parameters and their inverse-curvature covariance with errors its diagonal, whatever was fitted with the object before;
 a wrong number of guesses, a missing rise time or an unsupported number of poles raises ValueError.""",
 ["inputs", "configurations", "histories"], "all pulse parameters, PSDs, pole counts, bounds, guesses and orders of calls", "one trace with stored numbers", [F], [("models and fit", F + " OFnonlin.*")], ["return values"])
prop("C30", "Muon-tail fit is the weighted least-squares exponential tail",
 """The muon-tail model in frequency domain is the Fourier transform of an exponential tail, and the fit of a trace of any length, sampling rate, PSD and error scale returns the amplitude and decay time at the minimum of the PSD-weighted residual over all frequencies (those with infinite PSD left out), at least as good as the tail that generated the data,
 with the chi-square, the inverse-curvature covariance and the errors of exactly these parameters.""",
 ["inputs"], "all tail amplitudes, decay times, PSDs, lengths and sampling rates", "one trace with stored numbers", [F], [("model and fit", F + " MuonTailFit.*")], ["return values"])

G = "qetpy/plotting/"
prop("C31", "Plots show the data they are given and leave everything else alone",
 """Every plotting function (IV, resistance and power curves of IV and IBIS objects for any selection of temperatures and channels given as number, list, tuple, array or "all"; noise spectra, correlations, cross spectra and decorrelated noise; comparisons of noise objects; simulated noise; time- and frequency-domain dI/dV with any choice of fits; fits of pulse shapes; multi-template fits) draws one panel per documented plot, and in it exactly the documented curves and error bars of the object's values in the documented units, with the names of their channels, fits and components, and over the documented window of time and within the limits asked for, and a chi-square written beside a curve is that of the curve;
 nothing of other calls appears in it. The object and the arrays passed in, and the figures of the user and of earlier calls, keep their values. A file with the requested name appears for each figure when saving is asked for and none otherwise, and no valid selection raises an exception; asking for a quantity that was not calculated draws nothing.""",
 ["inputs", "configurations", "histories"], "all objects, selections, options, save settings and orders of plotting calls", "the tests only call a few plotting functions and look at nothing they draw",
 [G + "_iv_plotting.py", G + "_ibis_plotting.py", G + "_noise_plotting.py", G + "_fitting_plotting.py", G + "_of_nsmb_plotting.py", "qetpy/core/didv/_plot_didv.py"],
 [("plotting functions", G + "*.py; qetpy/core/didv/_plot_didv.py; plot methods of IV, IBIS, Noise, DIDV")], ["contents of the figures", "files written"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P))
