OFN = ("Sampled inputs, exact judgement: every recorded call is compared by TLC, in exact rational arithmetic, with the "
       "least-squares reference in spec/OptimumFilter.tla (tolerance 1e-8 of the signal's norm). Assumes finite inputs, "
       "well-conditioned templates, n<=64 bins.")
NA = {}
NOTES = {
 "C01": ("OptimumFilter", OFN + " Windows are enumerated exhaustively for n=3..6."),
 "C02": ("OptimumFilter", OFN),
 "C03": ("OptimumFilter", OFN + " First pulse on the sampling grid."),
 "C04": ("OptimumFilter", OFN),
 "C05": ("OptimumFilter", OFN + " Flat parabolas (vertex undefined) are left unconstrained."),
 "C06": ("OFObject, OptimumFilter", "All call histories of length 3 (thorough: 4) enumerated by TLC from the cache model and replayed on the real object, plus random long histories; each answer judged against the current trace only."),
 "C07": ("OptimumFilter", OFN + " Stacks of 1..12 traces."),
}

CUTN = ("Sampled data sets, exact judgement: TLC re-runs the documented iteration of spec/Outliers.tla in exact rational "
        "arithmetic on every recorded input and compares mask and statistics. ")
NOTES["C31"] = ("PlotsObject, Plots", "The contents of every figure (lines, markers, error bars, titles, labels, limits) are recorded on the Agg back end when it is saved or when the call returns and compared by TLC with the curves the specification derives from the object; orders of calls on one pyplot state enumerated by TLC from PlotsObject are replayed, with the figures of the user and of earlier calls watched. Colours, axis labels and legends' places are not judged.")

NOTES.update({
 "C12": ("OutliersMC, Outliers", CUTN + "All small integer data sets (n<=5, thorough 6) are enumerated in the design model (termination, units) and replayed. Comparisons too close for floating point leave either answer open."),
 "C13": ("Outliers", CUTN + "2 to 4 dimensions, condition number below 1e5; matrix and separate-vector forms."),
 "C14": ("Outliers, OptimumFilter", CUTN + "Whole chains of stages on 5-22 traces of 16-64 bins; pulse-fit amplitudes from the optimum-filter specification."),
 "C15": ("Outliers", CUTN),
})
UTN = "Sampled inputs, exact judgement by TLC against spec/Utils.tla (tolerances 1e-7..1e-12 of the data's scale). "
NOTES.update({
 "C16": ("Utils", UTN + "All rate/frequency pairs up to 40x40 (thorough 90x90) plus random realistic ones; windowed-sinc resampling recomputed exactly."),
 "C17": ("Utils", UTN + "Filters of order 1 and 2; correlation ties leave the shift open."),
 "C18": ("Utils", UTN),
})
NON = "Sampled inputs, exact judgement by TLC against spec/Noise.tla (discrete Fourier transforms in exact arithmetic). "
NOTES.update({
 "C19": ("Noise", NON + "Traces of 1-16 bins (folding to 25), one to three axes."),
 "C20": ("NoiseObject, Noise", NON + "All call histories of length 3 (thorough 4) enumerated by TLC from the state model, which proves that no stale result is shown, are replayed on real objects of 2-3 channels (a quarter of the one-channel ones); 4-8 bins."),
 "C21": ("Noise", NON + "Statistical clauses use 40000 generated traces of 1-9 bins at fixed seeds with 6 % tolerance (over 10 standard deviations)."),
})
NSN = "Sampled inputs, exact judgement by TLC against the normal equations of spec/Nsmb.tla (5-12 bins, 1-4 background templates, condition number of the scaled Gram matrix below 1e4). "
NOTES.update({
 "C09": ("Nsmb", NSN + "One signal template, as the set-up supports."),
 "C10": ("NsmbMC, Nsmb", NSN + "The dropping algorithm is model-checked on all 2x2 and 3x3 Gram matrices with small integer entries; optimality is required where one round of dropping (of any number of amplitudes) leads to the optimum, which the specification decides for each recorded fit."),
 "C11": ("Nsmb", "Sampled inputs, exact judgement by TLC against spec/Nsmb.tla; slope templates for every length up to 129 (thorough 399)."),
})
IVN = "Sampled sweeps (1-2 temperatures, 1-3 channels, 6-10 points, padding, all resistance forms), exact judgement by TLC against the weighted normal equations and propagation formulae of spec/Iv.tla. "
NOTES.update({
 "C22": ("IvMC, Iv", IVN + "The normal-branch search is model-checked on all small integer data (longest straight initial run). Fit parameters may differ from the exact least squares by 0.3 % of their error."),
 "C23": ("Iv", IVN + "One to two analyses per object with changed options. Fit parameters may differ from the exact least squares by 0.3 % of their error."),
})
DVN = "Sampled inputs, exact judgement by TLC against spec/Didv.tla (rational arithmetic, harmonics and transforms recomputed). "
NOTES.update({
 "C24": ("Didv", DVN + "All three models including incomplete parameter sets, frequencies over seven decades; square waves of 3-72 bins, any duty cycle."),
 "C25": ("Didv", DVN + "Conversions there and back; fall times judged as roots of the characteristic polynomial."),
 "C26": ("DidvObject, Didv", DVN + "Traces of up to 3 periods of 6-20 (thorough 32) bins with tails, missing values, offsets, phase flips, gains and duty cycles. Harmonics without any response are not sampled."),
 "C27": ("DidvObject, Didv", DVN + "All call histories of length 3 (thorough 4) enumerated by TLC are replayed on real objects; records are judged by cost, gradient and curvature recomputed by TLC. Data in the physical range in which the start values of the fits are meaningful (time constants of 1-400 microseconds)."),
})
NOTES["C28"] = ("SimMC, Sim", "Sampled parameters and frequencies, exact judgement by TLC: the oracle solves the small-signal equations (model-checked against the closed forms on a grid), not the formulae of the code. Positive frequencies; half-integer slopes of the squid noise.")

NLN = "Sampled inputs, exact judgement by TLC against spec/Nonlin.tla (pulse height, transform and derivatives model-checked on a grid in NonlinMC). "
NOTES["C29"] = ("NonlinObject, NonlinMC, Nonlin", NLN + "All call histories of length 2 (thorough 3) enumerated by TLC are replayed. Fits of 40-64 bins; minimum and generating parameters are judged at low sampling rates, the minimum for one and two poles (known finding: steps of 6e-6 s).")
NOTES["C30"] = ("NonlinMC, Nonlin", NLN + "24-64 bins, rates from 1 Hz to 625 kHz.")

NOTES.update({
 "C08": ("InputsMC, Inputs", "Aliasing-heap design model (two vacuity-guard configurations must violate). All sequences of two (thorough: three) routine families, enumerated by TLC, are replayed on one shared set of caller arrays in several memory layouts under an interposer that records digests of every live argument and earlier result around each outermost call; in addition the generators of all other checks run under the interposer. TLC judges the recorded memory against spec/Inputs.tla."),
})
